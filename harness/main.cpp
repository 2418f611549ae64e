#include "common.hpp"

std::map<std::string, Factory>& factories()
{
    static std::map<std::string, Factory> f;
    return f;
}

static void list(std::string& o, const Ints& v)
{
    o += "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) o += ","; o += std::to_string(v[i]); }
    o += "]";
}

int main(int argc, char** argv)
{
    if (argc < 3) return 2;
    std::ifstream in(argv[1]);
    FILE* out = fopen(argv[2], "w");
    std::string line, op, o;
    std::unique_ptr<Machine> m;
    size_t n = 0;
    while (std::getline(in, line))
    {
        ++n;
        std::istringstream is(line);
        if (!(is >> op)) continue;
        Ints a;
        bool start = op == "@";
        std::string key, kind;
        if (start) is >> key >> kind; // kind of the machine for the spec
        ll v;
        while (is >> v) a.push_back(v);
        if (start)
        {
            auto it = factories().find(key);
            if (it == factories().end()) { fprintf(stderr, "unknown machine %s\n", key.c_str()); return 3; }
            m.reset(it->second());
            // the first argument is the scaling exponent, the rest are the
            // parameters of the machine in the specification
            m->k = a.empty() ? 0 : int(a[0]);
            if (!a.empty()) a.erase(a.begin());
        }
        if (!m) return 4;
        m->x = 0; m->rq = 1; m->r.clear(); m->more.clear(); m->ok = true;
        if (!start)
        {
            for (auto& g : m->regs) g.mag = 0;
            std::vector<std::pair<ll, int>> was;
            for (auto& g : m->regs) was.push_back({ g.q, g.deg });
            bool done = true;
            try { done = m->exec(op, a); }
            catch (const vmml::exception&) { m->x = 1; m->r.clear(); m->rq = 1; }
            if (!done) // a skipped command leaves no trace
            {
                for (size_t i = 0; i < was.size(); ++i) { m->regs[i].q = was[i].first; m->regs[i].deg = was[i].second; }
                continue;
            }
        }
        o = "{\"op\":\"" + op + "\",\"n\":" + std::to_string(n);
        if (start) o += ",\"kind\":\"" + kind + "\",\"key\":\"" + key + "\",\"k\":" + std::to_string(m->k);
        o += ",\"a\":";
        a.insert(a.end(), m->more.begin(), m->more.end());
        list(o, a);
        std::string s;
        std::vector<LD> vals;
        for (size_t i = 0; i < m->regs.size(); ++i)
        {
            Reg& g = m->regs[i];
            g.read(vals);
            Ints p(vals.size());
            bool good = true;
            LD mx = g.mag * g.q;
            std::vector<LD> sc(vals.size());
            for (size_t j = 0; j < vals.size(); ++j)
            {
                sc[j] = m->unscale(vals[j], g.deg) * g.q;
                mx = std::max(mx, std::fabs(sc[j]));
            }
            for (size_t j = 0; j < vals.size(); ++j)
                if (!Machine::project(sc[j], g.tol, mx, p[j])) good = false;
            if (!good) m->ok = false;
            else // continue with the number observed, so that rounding errors do not add up
                for (size_t j = 0; j < vals.size(); ++j)
                    if (sc[j] != LD(p[j])) g.write(j, std::ldexp(LD(p[j]) / g.q, m->k * g.deg));
            if (start || p != g.last || g.q != g.lastq)
            {
                Ints e;
                e.push_back(ll(i)); e.push_back(g.q);
                e.insert(e.end(), p.begin(), p.end());
                if (!s.empty()) s += ",";
                list(s, e);
                g.last = p; g.lastq = g.q;
            }
        }
        o += ",\"x\":" + std::to_string(m->x) + ",\"ok\":" + (m->ok ? "1" : "0") +
             ",\"q\":" + std::to_string(m->rq) + ",\"r\":";
        list(o, m->r);
        o += ",\"s\":[" + s + "]}\n";
        fputs(o.c_str(), out);
        fflush(out);
    }
    fclose(out);
    return 0;
}

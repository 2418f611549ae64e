// Bounding boxes, frusta, culling, rays
#pragma once
#include "common.hpp"
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <vmmlib/frustum_culler.hpp>
#include <vmmlib/intersection.hpp>
using namespace vmml;

const ll INF = 1000000000;

template <typename T> struct Aabb : Machine
{
    typedef AABB<T> Box;
    typedef Vector<3, T> V3;
    Box b[3];
    V3 p[2], res;
    Vector<4, T> s;
    const int D = isFloat<T>() ? 1 : 0;
    Aabb()
    {
        for (int i = 0; i < 3; ++i) regs.push_back(breg(i));
        regs.push_back(vreg(p[0])); regs.push_back(vreg(p[1]));
        regs.push_back(vreg(s)); regs.push_back(vreg(res));
    }
    static T big() { return std::numeric_limits<T>::max(); }
    // the maximum of an empty box
    static T low() { return isFloat<T>() ? T(-big()) : std::numeric_limits<T>::min(); }
    static const bool un = !std::numeric_limits<T>::is_signed;
    bool inverted(int i) const { for (int j = 0; j < 3; ++j) if (at(i, j) > at(i, j + 3)) return true; return false; }
    Reg breg(int i)
    {
        Reg g;
        g.tol = Prec<T>::tol();
        g.q = 1; g.deg = D; g.mag = 0; g.lastq = 1;
        g.last.assign(6, 0);
        g.read = [this, i](std::vector<LD>& o) {
            const Box& c = b[i];
            o.resize(6);
            for (int j = 0; j < 6; ++j)
            {
                LD v = LD(j < 3 ? c.getMin().at(j) : c.getMax().at(j - 3));
                if (un && j >= 3 && c.getMin().at(j - 3) == big() && v == 0) v = -LD(big());
                // infinity has the same numerator over every denominator
                o[j] = std::fabs(v) < LD(big()) / 4 ? v : std::ldexp((v > 0 ? INF : -INF) / LD(regs[i].q), k * regs[i].deg);
            }
        };
        g.write = [this, i](size_t j, LD v) {
            T x = T(v);
            (j < 3 ? b[i].getMin().at(j) : b[i].getMax().at(j - 3)) = x;
        };
        return g;
    }
    bool finite(int i) const { for (ll v : regs[i].last) if (std::llabs(v) == INF) return false; return true; }
    LD mx(int i) const { LD m = 0; for (ll v : regs[i].last) if (std::llabs(v) != INF) m = std::max(m, std::fabs(LD(v))); return m; }
    // destination, both sources: common denominator
    bool join(int d, int x, int y)
    {
        const ll q = lcm(regs[x].q, regs[y].q);
        if (!this->template fits<T>(std::max(mx(x) * (q / regs[x].q), mx(y) * (q / regs[y].q)), q)) return false;
        meta(d, q, D);
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        const int e = a.size() > 1 ? int(a[1]) : 0;
        if (op == "ld")
        {
            if (!load<T>(a)) return false;
            for (size_t i = 2; i < a.size(); ++i)
                if (std::llabs(a[i]) == INF) regs[d].write(i - 2, a[i] > 0 ? LD(big()) : LD(low()));
            return true;
        }
        if (op == "empty") { if (e == 0) b[d] = Box(); else b[d].setEmpty(); meta(d, 1, D); return true; }
        if (op == "unit") { if (k != 0) return false; b[d] = Box::makeUnitBox(); meta(d, 1, D); return true; }
        if (op == "cp") { if (a[2] == 0) b[d] = b[e]; else { const Box t(b[e]); b[d] = t; } meta(d, regs[e].q, D); return true; }
        if (op == "box")
        {
            if (!join(d, e, int(a[2]))) return false;
            if (a[3] == 0) b[d] = Box(p[e - 3], p[a[2] - 3]); else b[d].set(p[e - 3], p[a[2] - 3]);
            return true;
        }
        if (op == "smin" || op == "smax")
        {
            if ((un && !finite(d)) || !join(d, d, e)) return false;
            if (op == "smin") { if (a[2] == 0) b[d].setMin(p[e - 3]); else b[d].getMin() = p[e - 3]; }
            else { if (a[2] == 0) b[d].setMax(p[e - 3]); else b[d].getMax() = p[e - 3]; }
            return true;
        }
        if (op == "ball")
        {
            if (!this->template fits<T>(mx(5) * 2, regs[5].q)) return false;
            if (un) for (int j = 0; j < 3; ++j) if (at(5, j) < at(5, 3)) return false;
            if (e == 0) b[d] = Box(s);
            else if (e == 1) b[d] = Box(s.x(), s.y(), s.z(), s.w());
            else b[d].set(s.x(), s.y(), s.z(), s.w());
            meta(d, regs[5].q, D, mx(5) / regs[5].q);
            return true;
        }
        if (op == "mgp") { if (!join(d, d, e)) return false; b[d].merge(p[e - 3]); return true; }
        if (op == "mgb") { if (!join(d, d, e)) return false; b[d].merge(b[e]); return true; }
        if (op == "sca")
        {
            // d s f n form
            const ll f = a[2], n = a[3];
            if (!finite(e) || (a[4] == 1 && d != e)) return false;
            ll q = regs[e].q;
            LD m = mx(e);
            T v = T(n);
            if (f == 0) m *= std::llabs(n);
            else if (f == 1)
            {
                if (n == 0) return false;
                if (!isFloat<T>())
                {
                    if (n < 0) return false;
                    for (ll x : regs[e].last) if (x % n) return false;
                }
                q *= std::llabs(n);
            }
            else { m += std::llabs(n) * q; v = pw2<T>(n, k); }
            if (!this->template fits<T>(m, q)) return false;
            if (un && (n < 0 || f == 3)) for (ll x : regs[e].last) if (n < 0 || x < n) return false;
            if (a[4] == 1)
            {
                if (f == 0) b[d] *= v; else if (f == 1) b[d] /= v; else if (f == 2) b[d] += v; else b[d] -= v;
            }
            else b[d] = f == 0 ? b[e] * v : f == 1 ? b[e] / v : f == 2 ? b[e] + v : b[e] - v;
            meta(d, q, D, m / q);
            return true;
        }
        if (op == "in" || op == "in2")
        {
            if (!finite(d) || !exact(d) || !exact(e)) return false;
            retb(op == "in" ? b[d].isIn(p[e - 3]) : b[d].isIn2d(p[e - 3]));
            return true;
        }
        if (op == "ins")
        {
            if (!finite(d) || !exact(d) || !exact(5) || mx(5) * 2 > (sizeof(T) == 2 ? 30000 : limInt<T>()) || s.w() < T(0)) return false;
            if (un) for (int j = 0; j < 3; ++j) if (at(5, j) < at(5, 3)) return false;
            retb(b[d].isIn(s));
            return true;
        }
        if (op == "emp") { if (finite(d) && !exact(d)) return false; retb(b[d].isEmpty()); return true; }
        if (op == "ctr" || op == "dim")
        {
            const LD m = mx(d) * 2;
            const ll q = regs[d].q * (op == "ctr" ? 2 : 1);
            if (!finite(d) || !this->template fits<T>(m, q) || (un && inverted(d))) return false;
            // of an integer box only where it is an integer
            if (op == "ctr" && !isFloat<T>()) for (int i = 0; i < 3; ++i) if ((at(d, i) + at(d, i + 3)) % (2 * regs[d].q)) return false;
            const Box& c = b[d];
            res = op == "ctr" ? c.getCenter() : c.getDimension();
            meta(6, q, D, m / regs[d].q);
            return true;
        }
        if (op == "eq")
        {
            if (finite(d) != finite(e)) return false;
            if ((finite(d) && !exact(d)) || (finite(e) && !exact(e)) || (!finite(d) && regs[d].q != regs[e].q)) return false;
            retb(b[d] == b[e]); retb(b[d] != b[e]);
            return true;
        }
        if (op == "get")
        {
            const int o = int(a[2]);
            if (!finite(d)) return false;
            const Box& c = b[d];
            p[o - 3] = e == 0 ? (a[3] ? c.getMin() : b[d].getMin()) : (a[3] ? c.getMax() : b[d].getMax());
            meta(o, regs[d].q, D);
            return true;
        }
        return false;
    }
};

template <typename T> struct Frust : Machine
{
    typedef Frustum<T> F;
    typedef typename std::conditional<std::is_same<T, float>::value, double, float>::type U;
    F f[2];
    Matrix<4, 4, T> m;
    int kindOf = 0; // 1 perspective, 2 orthographic
    Frust()
    {
        for (int i = 0; i < 2; ++i)
        {
            F& g = f[i];
            regs.push_back(matReg<T>([&g](size_t j) -> T& { return g.array[j]; }, 6));
        }
        // the degrees of the elements of the matrix differ
        Reg g = mreg(m);
        Matrix<4, 4, T>& c = m;
        g.read = [this, &c](std::vector<LD>& o) {
            o.resize(16);
            for (int i = 0; i < 16; ++i) o[i] = std::ldexp(LD(c(i / 4, i % 4)), -degOf(i) * k);
        };
        g.write = [this, &c](size_t i, LD v) { c(i / 4, i % 4) = T(std::ldexp(v, degOf(int(i)) * k)); };
        regs.push_back(g);
    }
    int degOf(int i) const { return kindOf == 0 ? 0 : kindOf == 1 ? (i == 11 ? 1 : 0) : (i == 0 || i == 5 || i == 10 ? -1 : 0); }
    bool fit(LD x, ll q) const { return x <= (isF32<T>() ? 20000 : 100000000) && q <= (isF32<T>() ? 20000 : 1000000); }
    static T& acc(F& g, ll i)
    {
        switch (i) { case 0: return g.left(); case 1: return g.right(); case 2: return g.bottom(); case 3: return g.top();
                     case 4: return g.near_plane(); default: return g.far_plane(); }
    }
    static const T& acc(const F& g, ll i)
    {
        switch (i) { case 0: return g.left(); case 1: return g.right(); case 2: return g.bottom(); case 3: return g.top();
                     case 4: return g.near_plane(); default: return g.far_plane(); }
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        if (op == "ld") return load<T>(a);
        if (op == "set")
        {
            // d form q v...
            T v[6];
            U u[6];
            for (int i = 0; i < 6; ++i) { v[i] = std::ldexp(T(a[3 + i]) / T(a[2]), k); u[i] = std::ldexp(U(a[3 + i]) / U(a[2]), k); }
            // thirds survive only in the wider type
            switch (a[2] & (a[2] - 1) ? a[1] % 3 : a[1])
            {
            case 0: f[d] = F(v[0], v[1], v[2], v[3], v[4], v[5]); break;
            case 1: f[d].set(v[0], v[1], v[2], v[3], v[4], v[5]); break;
            case 2: f[d] = F(v); break;
            case 3: f[d] = F(u); break;
            case 4: { Frustum<U> t(u[0], u[1], u[2], u[3], u[4], u[5]); f[d] = F(t); break; }
            default: { Frustum<U> t(u[0], u[1], u[2], u[3], u[4], u[5]); f[d] = t; break; }
            }
            meta(d, a[2], 1);
            return true;
        }
        if (op == "cp") { if (a[2] == 0) f[d] = f[a[1]]; else { const F t(f[a[1]]); f[d] = t; } meta(d, regs[a[1]].q, regs[a[1]].deg); return true; }
        if (op == "dflt") { f[d] = F::DEFAULT; meta(d, 10, 0); return true; }
        if (op == "none") { f[d] = F(); meta(d, 1, 0); return true; }
        if (op == "wr") { if (!fit(std::llabs(a[2]) * regs[d].q, 1)) return false; acc(f[d], a[1]) = std::ldexp(T(a[2]), k * regs[d].deg); return true; }
        if (op == "rd") { const F& c = f[d]; rq = regs[d].q; ret<T>(acc(c, a[1]), regs[d].deg); return true; }
        const ll dx = at(d, 1) - at(d, 0), dy = at(d, 3) - at(d, 2), dz = at(d, 5) - at(d, 4);
        if (op == "mat" || op == "orth")
        {
            if (!dx || !dy || !dz || (k != 0 && regs[d].deg != 1)) return false;
            if (!fit(lcm(std::llabs(dx), std::llabs(dy)), 1)) return false;
            const ll L = lcm(lcm(std::llabs(dx), std::llabs(dy)), std::llabs(dz));
            const ll Q = op == "mat" ? L * regs[d].q : L;
            LD mx = 0;
            const LD big = maxabs(d);
            if (op == "mat")
            {
                mx = std::max(mx, 2 * big * L * regs[d].q / std::min(std::llabs(dx), std::llabs(dy)));
                mx = std::max(mx, 2 * big * std::max(big, LD(regs[d].q)) * L / std::llabs(dz));
            }
            else mx = 2 * std::max(big, LD(regs[d].q)) * L / std::min(std::min(std::llabs(dx), std::llabs(dy)), std::llabs(dz));
            if (!fit(mx, Q)) return false;
            const F& c = f[d];
            if (a[1] == 0) m = T(7); // whatever was in the result before must not survive
            if (a[1] == 0) { if (op == "mat") c.compute_matrix(m); else c.compute_ortho_matrix(m); }
            else m = op == "mat" ? c.compute_matrix() : c.compute_ortho_matrix();
            kindOf = op == "mat" ? 1 : 2;
            meta(2, Q, 0, mx / Q);
            return true;
        }
        if (op == "adj")
        {
            const ll n = a[1], q = a[2], nr = at(d, 4);
            if (n == 0 || nr == 0) return false;
            const bool same = n * regs[d].q == nr * q;
            if (!same)
            {
                const ll Q = regs[d].q * std::llabs(nr * q);
                LD mx = maxabs(d) * std::max(std::llabs(n) * regs[d].q, Q / regs[d].q);
                mx = std::max(mx, LD(std::llabs(n)) * (Q / q));
                if (!fit(mx, Q)) return false;
                meta(d, Q, regs[d].deg, mx / Q);
            }
            f[d].adjust_near(std::ldexp(T(n) / T(q), k * regs[d].deg));
            return true;
        }
        if (op == "jit")
        {
            const ll q = lcm(regs[d].q, a[3]);
            const LD mx = maxabs(d) * (q / regs[d].q) + std::max(std::llabs(a[1]), std::llabs(a[2])) * (q / a[3]);
            if (!fit(mx, q)) return false;
            f[d].apply_jitter(Vector<2, T>(std::ldexp(T(a[1]) / T(a[3]), k * regs[d].deg), std::ldexp(T(a[2]) / T(a[3]), k * regs[d].deg)));
            meta(d, q, regs[d].deg, mx / q);
            return true;
        }
        if (op == "persp")
        {
            // d tn td an ad n f
            const T fov = T(2 * std::atan2(LD(a[1]), LD(a[2])) * 180 / std::acos(LD(-1)));
            f[d].set_perspective(fov, T(a[3]) / T(a[4]), std::ldexp(T(a[5]), k), std::ldexp(T(a[6]), k));
            meta(d, a[2] * a[4], 1);
            return true;
        }
        if (op == "wh") { const F& c = f[d]; rq = regs[d].q; const LD mx = 2 * maxabs(d) / rq; ret<T>(c.get_width(), regs[d].deg, mx); ret<T>(c.get_height(), regs[d].deg, mx); return true; }
        return false;
    }
};

template <typename T> struct Culler : Machine
{
    FrustumCuller<T> c;
    Matrix<4, 4, T> m;
    Matrix<8, 3, T> cor;
    Vector<4, T> s;
    Matrix<3, 2, T> box;
    bool ready = false;
    Culler()
    {
        regs.push_back(mreg(m)); regs.push_back(mreg(cor));
        regs.push_back(vreg(s)); regs.push_back(mreg(box));
    }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld")
        {
            if (a[1] != 1) return false;
            if (!load<T>(a)) return false;
            if (a[0] == 0)
            {
                for (size_t i = 2; i < a.size(); ++i) regs[0].write(i - 2, LD(a[i]));
                meta(0, 1, 0);
            }
            return true;
        }
        if (op == "setm")
        {
            // clip space coordinates of points scaled by 2^k
            Matrix<4, 4, T> t(m);
            for (int i = 0; i < 4; ++i) t(i, 3) = std::ldexp(t(i, 3), k);
            // a multiple of the matrix describes the same frustum
            if (a.size() == 1) for (int i = 0; i < 16; ++i) t.array[i] = std::ldexp(t.array[i], int(a[0]));
            c.setup(t);
            ready = true;
            return true;
        }
        if (op == "setc")
        {
            if (!this->template expo<T>(4)) return false;
            Vector<3, T> p[8];
            for (int i = 0; i < 8; ++i) p[i].set(cor(i, 0), cor(i, 1), cor(i, 2));
            c.setup(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
            ready = true;
            return true;
        }
        if (!ready) return false;
        const FrustumCuller<T>& cc = c;
        if (op == "sph") { reti(int(cc.test_sphere(s))); return true; }
        if (op == "box")
        {
            typedef Vector<2, T> V2;
            reti(int(cc.test_aabb(V2(box(0, 0), box(0, 1)), V2(box(1, 0), box(1, 1)), V2(box(2, 0), box(2, 1)))));
            return true;
        }
        return false;
    }
};

template <typename T> struct Ray : Machine
{
    Vector<3, T> o, d;
    Vector<4, T> s;
    Ray() { regs.push_back(vreg(o)); regs.push_back(vreg(d)); regs.push_back(vreg(s)); }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld") return a[1] == 1 && load<T>(a);
        if (op == "hit")
        {
            LD N = 0, p = 0, c2 = 0;
            for (int i = 0; i < 3; ++i)
            {
                const LD ce = at(2, i) - at(0, i);
                N += LD(at(1, i)) * at(1, i); p += ce * at(1, i); c2 += ce * ce;
            }
            if (N == 0 || N > 100 || c2 > 5000 || std::llabs(at(2, 3)) > 60 || !this->template expo<T>(2)) return false;
            const Intersection<T> ray(o, d);
            T t = T(-12345);
            const bool h = ray.test_sphere(s, t);
            retb(h);
            if (!h) { reti(0); return true; }
            const LD w = unscale(LD(t), 1) * std::sqrt(N) - p;
            ll out = 0;
            const LD r = at(2, 3);
            if (!project(w * std::fabs(w), Prec<T>::tol(), (c2 + r * r) * N, out)) ok = false;
            reti(out);
            return true;
        }
        if (op == "axis")
        {
            // axis sign w p s r: lengths of many digits
            if (LD(a[2]) * a[2] > (isF32<T>() ? 4e6L : 2e15L) || !this->template expo<T>(2)) return false;
            Vector<3, T> dir(T(0)), off(T(0));
            dir.at(a[0]) = T(a[1]);
            off.at(a[0]) = T(a[1] * a[2]); off.at((a[0] + 1) % 3) = T(a[3]);
            Vector<4, T> b;
            for (int i = 0; i < 3; ++i) b.at(i) = o.at(i) + std::ldexp(off.at(i), k);
            b.at(3) = std::ldexp(T(a[5]), k);
            T t = T(-12345);
            const bool h = Intersection<T>(o, dir).test_sphere(b, t);
            retb(h);
            if (!h) { reti(0); return true; }
            const LD w = unscale(LD(t), 1), n = std::floor(w + 0.5L);
            if (!(std::fabs(w - n) < 0.4L) || !(std::fabs(w) < 1e9L)) ok = false; else reti(ll(n));
            return true;
        }
        return false;
    }
};

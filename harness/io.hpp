// Quantization, streams, files, printing
#pragma once
#include "common.hpp"
#include <vmmlib/aabb.hpp>
#include <vmmlib/frustum.hpp>
#include <sys/stat.h>
#include <unistd.h>
using namespace vmml;

template <size_t M, size_t N, typename T, typename I> struct Quant : Machine
{
    Matrix<M, N, T> src, deq;
    Matrix<M, N, I> qu;
    Vector<2, T> range;
    const ll lo = std::numeric_limits<I>::min(), hi = std::numeric_limits<I>::max();
    const ll steps = hi - lo;
    Quant()
    {
        regs.push_back(mreg(src)); regs.push_back(mreg(qu));
        regs.push_back(mreg(deq)); regs.push_back(vreg(range));
    }
    // is no result (except exact ones) next to a boundary of rounding?
    bool clear(ll l, ll h, ll rq_)
    {
        const ll q = lcm(regs[0].q, rq_);
        l *= q / rq_; h *= q / rq_;
        if (h <= l || h - l > 4000 || std::llabs(l) > 4000 || maxabs(0) * (q / regs[0].q) > 8000) return false;
        const bool pow2 = (q & (q - 1)) == 0;
        for (ll n0 : regs[0].last)
        {
            const ll n = n0 * (q / regs[0].q);
            const ll den = 2 * (h - l);
            const ll num = (lo < 0 ? (2 * n - l - h) * steps : 2 * (n - l) * steps) + (h - l);
            if (std::llabs(num) > (ll(1) << 30)) return false;
            ll rem = std::llabs(num) % den;
            rem = std::min(rem, den - rem);
            // a half is only met where any way to compute it is exact
            const bool wpow2 = ((h - l) & (h - l - 1)) == 0;
            if (rem == 0 && (!pow2 || !wpow2 || std::llabs(num) > (1 << 23))) return false;
            // else the errors of the elements and of the arithmetic stay away from it
            const LD eps = isF32<T>() ? 1 / LD(1 << 24) : 1 / LD(ll(1) << 53);
            const LD big = std::max(LD(maxabs(0)) * (q / regs[0].q), std::max(std::fabs(LD(l)), std::fabs(LD(h))));
            const LD err = eps * (12 * LD(steps) + (pow2 ? 0 : 4 * LD(steps) * big / (h - l)) + 12 * std::fabs(LD(num) / den));
            if (rem != 0 && LD(rem) / den < err) return false;
        }
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld")
        {
            if (a[0] != 1) return load<T>(a);
            if (a[1] != 1) return false;
            for (size_t i = 2; i < a.size(); ++i)
                if (a[i] < lo || a[i] > hi) return false;
            for (size_t i = 2; i < a.size(); ++i) regs[1].write(i - 2, LD(a[i]));
            return true;
        }
        if (k != 0 && op != "deq") { }
        if (op == "qto")
        {
            if (k != 0 && (regs[3].deg != regs[0].deg)) return false;
            if (!clear(at(3, 0), at(3, 1), regs[3].q)) return false;
            const Matrix<M, N, T>& c = src;
            c.quantize_to(qu, range.at(0), range.at(1));
            return true;
        }
        if (op == "far")
        {
            // element (i, j) far below or above of the range, by 2^e; e = 0: infinity
            if (k != 0 && (regs[3].deg != regs[0].deg)) return false;
            if (!clear(at(3, 0), at(3, 1), regs[3].q)) return false;
            if (a[0] < 0 || a[0] >= ll(M) || a[1] < 0 || a[1] >= ll(N) || (a[3] != 0 && (a[3] < 14 || (isFloat<T>() && k + a[3] > std::numeric_limits<T>::max_exponent - 12)))) return false;
            if (!isFloat<T>() && (a[3] == 0 || a[3] >= std::numeric_limits<T>::digits || (a[2] < 0 && !std::is_signed<T>::value))) return false;
            const T big = a[3] == 0 ? std::numeric_limits<T>::infinity() : T(std::ldexp(LD(1), k + int(a[3])));
            Matrix<M, N, T> c = src;
            c.at(a[0], a[1]) = a[2] < 0 ? -big : big;
            const Matrix<M, N, T>& cc = c;
            cc.quantize_to(qu, range.at(0), range.at(1));
            return true;
        }
        if (op == "q")
        {
            ll l = at(0, 0), h = l;
            for (ll x : regs[0].last) { l = std::min(l, x); h = std::max(h, x); }
            if (!clear(l, h, regs[0].q)) return false;
            const Matrix<M, N, T>& c = src;
            T mn = T(99), mx = T(-99);
            c.quantize(qu, mn, mx);
            range.at(0) = mn; range.at(1) = mx;
            meta(3, regs[0].q, regs[0].deg);
            return true;
        }
        if (op == "deq")
        {
            const ll l = at(3, 0), h = at(3, 1), q = 2 * steps * regs[3].q;
            if (h <= l || std::llabs(l) > 3000 || std::llabs(h) > 3000) return false;
            const LD m = std::max(LD(2) * maxabs(1) * (h - l), LD(2) * steps * std::max(std::llabs(l), std::llabs(h)));
            if (m > (isF32<T>() ? LD(1000000) : LD(900000000))) return false;
            if (!isFloat<T>())
            {
                // rounded to integers; no ties
                if (m > 400000000) return false;
                for (ll e : regs[1].last)
                {
                    const ll n = 2 * e * (h - l) + (lo < 0 ? (l + h) * steps : 2 * steps * l);
                    if (e != 0 && (2 * n + q) % (2 * q) == 0) return false;
                }
            }
            qu.dequantize(deq, range.at(0), range.at(1));
            if (!isFloat<T>()) meta(2, 1, 0);
            else
            meta(2, q, regs[3].deg, m / q);
            return true;
        }
        if (op == "back")
        {
            if (regs[2].q > 4000) return false;
            src = deq;
            meta(0, regs[2].q, regs[2].deg);
            return true;
        }
        return false;
    }
};

// 32-bit integers, seen as pairs of 16 bits
template <size_t M, size_t N, typename I> struct QuantW : Machine
{
    Matrix<M, N, double> src, deq;
    Matrix<M, N, I> qu;
    Vector<2, double> range;
    const bool sgn = std::numeric_limits<I>::is_signed;
    QuantW()
    {
        regs.push_back(mreg(src));
        Reg g = mreg(qu);
        g.last.assign(2 * M * N, 0);
        Matrix<M, N, I>& m = qu;
        g.read = [&m](std::vector<LD>& o) {
            o.resize(2 * M * N);
            for (size_t i = 0; i < M * N; ++i)
            {
                const ll v = ll(m.at(i / N, i % N)), l = v & 65535;
                o[2 * i] = LD((v - l) / 65536); o[2 * i + 1] = LD(l);
            }
        };
        g.write = [&m](size_t i, LD x) {
            I& e = m.at(i / 2 / N, i / 2 % N);
            const ll v = ll(e), l = v & 65535;
            e = I(i % 2 ? v - l + ll(x) : ll(x) * 65536 + l);
        };
        regs.push_back(g);
        regs.push_back(mreg(deq)); regs.push_back(vreg(range));
    }
    bool clear(ll l, ll h, ll rq_)
    {
        const ll q = lcm(regs[0].q, rq_), steps = (ll(1) << 32) - 1;
        l *= q / rq_; h *= q / rq_;
        if ((q & (q - 1)) != 0 || h <= l || h - l > 4000 || std::llabs(l) > 4000 || maxabs(0) * (q / regs[0].q) > 4000) return false;
        const ll w = h - l;
        for (ll n0 : regs[0].last)
        {
            const ll n = n0 * (q / regs[0].q), k2 = sgn ? 2 * n - l - h : 2 * (n - l);
            if (std::llabs(k2) > 32000) return false;
            const ll num = k2 * steps + w, den = 2 * w;
            ll rem = std::llabs(num) % den;
            rem = std::min(rem, den - rem);
            if (rem == 0 && (w & (w - 1)) != 0) return false;
            if (rem != 0 && LD(rem) / den < 3e-5L) return false;
        }
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld")
        {
            if (a[0] != 1) return load<double>(a);
            for (size_t i = 2; i < a.size(); i += 2)
                if (a[1] != 1 || a[i + 1] < 0 || a[i + 1] > 65535 || a[i] < (sgn ? -32768 : 0) || a[i] > (sgn ? 32767 : 65535)) return false;
            for (size_t i = 2; i < a.size(); ++i) regs[1].write(i - 2, LD(a[i]));
            return true;
        }
        if (op == "qto")
        {
            if (k != 0 && (regs[3].deg != regs[0].deg)) return false;
            if (!clear(at(3, 0), at(3, 1), regs[3].q)) return false;
            const Matrix<M, N, double>& c = src;
            c.quantize_to(qu, range.at(0), range.at(1));
            return true;
        }
        if (op == "far")
        {
            // element (i, j) far below or above of the range, by 2^e; e = 0: infinity
            if (k != 0 && (regs[3].deg != regs[0].deg)) return false;
            if (!clear(at(3, 0), at(3, 1), regs[3].q)) return false;
            if (a[0] < 0 || a[0] >= ll(M) || a[1] < 0 || a[1] >= ll(N) || (a[3] != 0 && (a[3] < 14 || k + a[3] > std::numeric_limits<double>::max_exponent - 12))) return false;
            if (!isFloat<double>() && (a[3] == 0 || k + a[3] > 28)) return false;
            const double big = a[3] == 0 ? std::numeric_limits<double>::infinity() : double(std::ldexp(LD(1), k + int(a[3])));
            Matrix<M, N, double> c = src;
            c.at(a[0], a[1]) = a[2] < 0 ? -big : big;
            const Matrix<M, N, double>& cc = c;
            cc.quantize_to(qu, range.at(0), range.at(1));
            return true;
        }
        if (op == "q")
        {
            ll l = at(0, 0), h = l;
            for (ll x : regs[0].last) { l = std::min(l, x); h = std::max(h, x); }
            if (!clear(l, h, regs[0].q)) return false;
            const Matrix<M, N, double>& c = src;
            double mn = 99, mx = -99;
            c.quantize(qu, mn, mx);
            range.at(0) = mn; range.at(1) = mx;
            meta(3, regs[0].q, regs[0].deg);
            return true;
        }
        if (op == "deq")
        {
            const ll l = at(3, 0), h = at(3, 1);
            if (h <= l || std::llabs(l) > 3000 || std::llabs(h) > 3000) return false;
            for (size_t i = 0; i < M * N; ++i) // fifteenths of 2^32 - 1
                if ((at(1, 2 * i) * 65536 + at(1, 2 * i + 1)) % 286331153 != 0) return false;
            const Matrix<M, N, I>& c = qu;
            c.dequantize(deq, range.at(0), range.at(1));
            meta(2, 30 * regs[3].q, regs[3].deg, std::max(std::llabs(l), std::llabs(h)));
            return true;
        }
        return false;
    }
};

// keeps what is written to the standard output out of the trace
struct Quiet
{
    std::ostringstream sink;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};

template <size_t M, size_t N, size_t P, typename T> struct Stream : Machine
{
    Matrix<M, N, T> m[2];
    Vector<P, T> v;
    Quaternion<T> q;
    Vector<6, T> six;
    std::stringstream st;
    std::ostringstream os;
    size_t queued = 0;
    std::map<ll, Ints> files;
    Stream()
    {
        negZero = false; // its text differs
        regs.push_back(mreg(m[0])); regs.push_back(mreg(m[1])); regs.push_back(vreg(v));
        regs.push_back(qreg(q)); regs.push_back(vreg(six));
        for (size_t i = 0; i < 4; ++i) q.at(i) = T(0);
        mkdir("d", 0755);
        // none of the files of the behaviour before
        for (const char* n : { "a.raw", "b.raw", "draw", "x.raw", "rawx.raw" }) { unlink(n); unlink((std::string("d/") + n).c_str()); }
    }
    static std::string dir(ll i) { const char* d[] = { "", ".", "./", "d", "d/", "./d", "none" }; return d[i]; }
    static std::string name(ll i) { const char* d[] = { "a", "a.raw", "b", "b.raw", "draw", "x", "rawx" }; return d[i]; }
    static ll file(ll n, ll d) { const ll f[] = { 0, 0, 1, 1, 2, 3, 4 }; return d / 3 * 5 + f[n]; }
    static std::string path(ll n, ll d)
    {
        static const char* const raw[] = { "a.raw", "a.raw", "b.raw", "b.raw", "draw", "x.raw", "rawx.raw" };
        const std::string p = dir(d);
        return (p.empty() || p.back() == '/' ? p : p + "/") + raw[n];
    }
    bool plain(int i, LD lim)
    {
        if (k != 0 || regs[i].q > 4 || regs[i].q == 3 || !exact(i)) return false;
        return maxabs(i) < lim * regs[i].q;
    }
    void text(const std::string& s) { for (unsigned char c : s) reti(c); }
    int fl = 0, prec = 6;
    template <typename X> bool print(const X& x)
    {
        os.str("");
        os << x;
        if (fl < 4) text(os.str());
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        if (op == "ld") return load<T>(a);
        if (op == "ws")
        {
            LD lim = isFloat<T>() ? 10000 : 1000000;
            if (!plain(d, lim)) return false;
            if (d == 2) { const Vector<P, T>& c = v; c.write_to_stream(st); queued += P; }
            else { const Matrix<M, N, T>& c = m[d]; c.write_to_stream(st); queued += M * N; }
            return true;
        }
        if (op == "rs")
        {
            const size_t n = d == 2 ? P : M * N;
            if (n > queued) return false;
            queued -= n;
            if (d == 2) v.read_from_stream(st); else m[d].read_from_stream(st);
            if (!st) ok = false;
            st.clear();
            meta(d, isFloat<T>() ? 4 : 1, 0);
            return true;
        }
        if (op == "wraw")
        {
            // the contents of a file: the unit and the number of elements
            const bool none = a[2] == 6;
            if (!none) { const ll u[] = { regs[d].q, ll(regs[d].deg), ll(M * N) }; files[file(a[1], a[2])].assign(u, u + 3); }
            const Matrix<M, N, T>& c = m[d];
            Quiet silence;
            c.write_to_raw(dir(a[2]), name(a[1]));
            struct stat len;
            reti(none || stat(path(a[1], a[2]).c_str(), &len) != 0 ? 0 : len.st_size % ll(sizeof(T)) ? -1 : ll(len.st_size / sizeof(T)));
            return true;
        }
        if (op == "trc")
        {
            auto f = a[1] == 6 ? files.end() : files.find(file(a[0], a[1]));
            if (f == files.end() || (f->second[2] < a[2] && f->second[2] < ll(M * N))) return false;
            if (truncate(path(a[0], a[1]).c_str(), off_t(sizeof(T) * a[2])) != 0) ok = false;
            f->second[2] = a[2];
            return true;
        }
        if (op == "rraw")
        {
            auto f = a[2] == 6 ? files.end() : files.find(file(a[1], a[2]));
            const bool some = f != files.end() && f->second[2] < ll(M * N);
            if (some && ((k != 0 && f->second[1] != regs[d].deg) || lcm(f->second[0], regs[d].q) > 12)) return false;
            Quiet silence;
            m[d].read_from_raw(dir(a[2]), name(a[1]));
            if (some) meta(d, lcm(f->second[0], regs[d].q), regs[d].deg);
            else if (f != files.end()) meta(d, f->second[0], int(f->second[1]));
            return true;
        }
        if (op == "fmt")
        {
            prec = int(a[0]); fl = int(a[1]);
            os.precision(prec);
            static const std::ios::fmtflags adj[] = { std::ios::fmtflags(0), std::ios::left, std::ios::right, std::ios::internal };
            static const std::ios::fmtflags flt[] = { std::ios::fmtflags(0), std::ios::fixed, std::ios::scientific };
            os.flags(std::ios::dec | std::ios::skipws);
            os.setf(adj[fl % 4], std::ios::adjustfield);
            os.setf(flt[fl / 4 % 4], std::ios::floatfield);
            if (fl / 16) os.setf(std::ios::showpos);
            return true;
        }
        if (op == "fmts")
        {
            const std::ios::fmtflags f = os.flags(), A = f & std::ios::adjustfield, F = f & std::ios::floatfield;
            reti(os.precision());
            const std::ios::fmtflags rest = f & ~(std::ios::adjustfield | std::ios::floatfield | std::ios::showpos);
            ll e = (A == std::ios::left ? 1 : A == std::ios::right ? 2 : A == std::ios::internal ? 3 : A ? 99 : 0) +
                   4 * (F == std::ios::fixed ? 1 : F == std::ios::scientific ? 2 : F ? 99 : 0) + ((f & std::ios::showpos) ? 16 : 0);
            if (rest != (std::ios::dec | std::ios::skipws)) e += 1000;
            reti(e);
            reti(os.width());
            return true;
        }
        const LD lim = isFloat<T>() ? 99990 : 1000000;
        if (op == "prm") { if (!plain(d, lim)) return false; const Matrix<M, N, T>& c = m[d]; return print(c); }
        if (op == "prv") { if (!plain(2, lim)) return false; const Vector<P, T>& c = v; return print(c); }
        if (op == "prq")
        {
            if (!plain(3, isFloat<T>() ? std::min(LD(100000), std::pow(LD(10), LD(prec)) - 1) : lim)) return false;
            const Quaternion<T>& c = q;
            return print(c);
        }
        if (op == "prb")
        {
            if (!plain(4, lim)) return false;
            const AABB<T> b(Vector<3, T>(six.at(0), six.at(1), six.at(2)), Vector<3, T>(six.at(3), six.at(4), six.at(5)));
            return print(b);
        }
        if (op == "prf")
        {
            if (!plain(4, lim)) return false;
            const Frustum<T> b(six.at(0), six.at(1), six.at(2), six.at(3), six.at(4), six.at(5));
            return print(b);
        }
        if (op == "csv")
        {
            if (!plain(d, lim)) return false;
            static const char* n[] = { "t", "t.csv", "u" };
            static const char* f[] = { "t.csv", "t.csv", "u.csv" };
            const std::string path = (a[2] < 3 ? std::string() : std::string("d/")) + f[a[1]];
            std::remove(path.c_str());
            const Matrix<M, N, T>& c = m[d];
            c.write_csv_file(dir(a[2]), n[a[1]]);
            std::ifstream in(path.c_str());
            std::stringstream s;
            s << in.rdbuf();
            text(s.str());
            return true;
        }
        return false;
    }
};

// Vector machines: arithmetic, geometry, comparison and search, views, planes
#pragma once
#include "common.hpp"
using namespace vmml;

// arithmetic ------------------------------------------------------------------
template <size_t M, typename T> struct VecArith : Machine
{
    Vector<M, T> X[4];
    VecArith() { for (int i = 0; i < 4; ++i) regs.push_back(vreg(X[i])); }

    // meta data of d = a (f) b, b = -1: scalar s, b = -2 - i: component i of a
    bool comb(ll f, int d, int a, int b, ll s, bool sc = false)
    {
        Ints bv;
        ll bq = 1;
        int bdeg = 0;
        if (b >= 0) { bv = regs[b].last; bq = regs[b].q; bdeg = regs[b].deg; }
        else if (b == -1) { bv.push_back(s); bdeg = f < 2 ? regs[a].deg : sc ? 1 : 0; if (f < 2 && k != 0 && regs[a].deg != 1) return false; }
        else { bv.push_back(regs[a].last[-2 - b]); bq = regs[a].q; bdeg = regs[a].deg; }
        LD mb = 0, mn = 1e9;
        for (ll x : bv) { mb = std::max(mb, std::fabs(LD(x))); mn = std::min(mn, std::fabs(LD(x))); }
        if (f < 2)
        {
            ll q = lcm(regs[a].q, bq);
            if (k != 0 && regs[a].deg != bdeg) return false;
            LD m = maxabs(a) * (q / regs[a].q) + mb * (q / bq);
            if (!fits<T>(m, q)) return false;
            meta(d, q, regs[a].deg, m / q);
        }
        else if (f == 2)
        {
            ll q = regs[a].q * bq;
            LD m = maxabs(a) * mb;
            if (!fits<T>(m, q) || !expo<T>(regs[a].deg + bdeg)) return false;
            meta(d, q, regs[a].deg + bdeg, m / q);
        }
        else
        {
            if (mn == 0) return false;
            if (!isFloat<T>()) { if (k != 0 && regs[a].deg != bdeg) return false; meta(d, 1, 0); return true; }
            ll L = 1;
            for (ll x : bv) { L = lcm(L, std::llabs(x)); if (L > 2000) return false; }
            ll q = regs[a].q * L;
            LD m = maxabs(a) * bq * L;
            if (!fits<T>(m, q) || !expo<T>(regs[a].deg - bdeg)) return false;
            meta(d, q, regs[a].deg - bdeg, m / q);
        }
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = int(a[0]);
        if (op == "ld") return load<T>(a);
        if (op == "bin")
        {
            const int e = int(a[1]);
            if (!comb(a[0], e, int(a[2]), int(a[3]), 0)) return false;
            const Vector<M, T>&x = X[a[2]], &y = X[a[3]];
            X[e] = a[0] == 0 ? x + y : a[0] == 1 ? x - y : a[0] == 2 ? x * y : x / y;
            return true;
        }
        if (op == "binip")
        {
            const int e = int(a[1]);
            if (!comb(a[0], e, e, int(a[2]), 0)) return false;
            const Vector<M, T>& y = X[a[2]];
            if (a[0] == 0) X[e] += y; else if (a[0] == 1) X[e] -= y; else if (a[0] == 2) X[e] *= y; else X[e] /= y;
            return true;
        }
        if (op == "sca")
        {
            const int e = int(a[1]), s = int(a[2]);
            if (a[3] == 1 && e != s) return false;
            if (a[3] == 2 && a[0] != 2) return false;
            // a further argument: a factor is scaled as well
            const bool sc = a.size() > 5;
            if (sc && (k == 0 || !isFloat<T>() || a[0] < 2)) return false;
            if (!comb(a[0], e, s, -1, a[4], sc)) return false;
            const T v = a[0] < 2 || sc ? pw2<T>(a[4], k) : T(a[4]);
            const Vector<M, T>& x = X[s];
            if (a[3] == 0) X[e] = a[0] == 0 ? x + v : a[0] == 1 ? x - v : a[0] == 2 ? x * v : x / v;
            else if (a[3] == 2) X[e] = v * x;
            else if (a[0] == 0) X[e] += v; else if (a[0] == 1) X[e] -= v; else if (a[0] == 2) X[e] *= v; else X[e] /= v;
            return true;
        }
        if (op == "self")
        {
            const int e = int(a[1]);
            if (!comb(a[0], e, e, -2 - int(a[2]), 0)) return false;
            if (a[0] == 0) X[e] += X[e].at(a[2]); else if (a[0] == 1) X[e] -= X[e].at(a[2]);
            else if (a[0] == 2) X[e] *= X[e].at(a[2]); else X[e] /= X[e].at(a[2]);
            return true;
        }
        if (op == "neg")
        {
            const int s = int(a[1]);
            meta(d, regs[s].q, regs[s].deg);
            if (a[2] == 0) { const Vector<M, T>& x = X[s]; X[d] = -x; }
            else if (a[2] == 1 && d == s) X[d].negate();
            else { X[d] = X[s]; const Vector<M, T>& r_ = X[d].negate(); if (&r_ != &X[d]) ok = false; }
            return true;
        }
        if (op == "cp") { meta(d, regs[a[1]].q, regs[a[1]].deg); if (a[2] == 0) X[d] = X[a[1]]; else { Vector<M, T> t(X[a[1]]); X[d] = t; } return true; }
        if (op == "swap") { std::swap(X[d], X[a[1]]); std::swap(regs[d].q, regs[a[1]].q); std::swap(regs[d].deg, regs[a[1]].deg); return true; }
        if (op == "dot")
        {
            const int b = int(a[1]);
            rq = regs[d].q * regs[b].q;
            LD m = maxabs(d) * maxabs(b) * M;
            if (!fits<T>(m, rq) || !expo<T>(regs[d].deg + regs[b].deg)) return false;
            const Vector<M, T>&x = X[d], &y = X[b];
            ret(a[2] == 0 ? x.dot(y) : dot(x, y), regs[d].deg + regs[b].deg, m / rq);
            return true;
        }
        if (op == "prod")
        {
            LD m = 1, q = 1;
            for (size_t i = 0; i < M; ++i) { m *= std::max(LD(1), maxabs(d)); q *= regs[d].q; }
            if (q > 4000 || !fits<T>(m, ll(q)) || !expo<T>(int(M) * regs[d].deg)) return false;
            rq = ll(q);
            const Vector<M, T>& x = X[d];
            ret(x.product(), int(M) * regs[d].deg, m / q);
            return true;
        }
        if (op == "sql")
        {
            LD m = maxabs(d) * maxabs(d) * M;
            rq = regs[d].q * regs[d].q;
            if (!fits<T>(m, rq) || !expo<T>(2 * regs[d].deg)) return false;
            const Vector<M, T>& x = X[d];
            ret(x.squared_length(), 2 * regs[d].deg, m / rq);
            return true;
        }
        if (op == "sqd")
        {
            const int b = int(a[1]);
            if (k != 0 && regs[d].deg != regs[b].deg) return false;
            ll q = lcm(regs[d].q, regs[b].q);
            LD m = maxabs(d) * (q / regs[d].q) + maxabs(b) * (q / regs[b].q);
            // of values that are exact only the difference counts
            const bool far = m <= limInt<T>() && exact<T>(X[d], d) && exact<T>(X[b], b);
            if (far) m = apart(d, b);
            m = m * m * M;
            rq = q * q;
            if (!fits<T>(m, rq) || !expo<T>(2 * regs[d].deg)) return false;
            const Vector<M, T>&x = X[d], &y = X[b];
            ret(x.squared_distance(y), 2 * regs[d].deg, m / rq);
            return true;
        }
        return three(op, a, std::integral_constant<bool, M == 3>());
    }
    bool three(const std::string&, const Ints&, std::false_type) { return false; }
    bool three(const std::string& op, const Ints& a, std::true_type)
    {
        if (op != "cross") return false;
        const int d = int(a[0]);
        ll q = regs[a[1]].q * regs[a[2]].q;
        if (a[3] == 2 && false) return false;
        if (!product<T>(d, int(a[1]), int(a[2]), 2)) return false;
        (void)q;
        const Vector<M, T>&x = X[a[1]], &y = X[a[2]];
        if (a[3] == 0) X[d] = x.cross(y); else if (a[3] == 1) X[d].cross(x, y); else X[d] = vmml::cross<3, T>(x, y);
        return true;
    }
};

// geometry ----------------------------------------------------------------------
template <size_t M, typename T> struct VecGeom : Machine
{
    Vector<M, T> X[4];
    VecGeom() { for (int i = 0; i < 4; ++i) regs.push_back(vreg(X[i])); }
    LD sq(int d) const { LD s = 0; for (ll v : regs[d].last) s += LD(v) * v; return s; }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = int(a[0]);
        if (op == "ld") return load<T>(a);
        if (op == "cp") { meta(d, regs[a[1]].q, regs[a[1]].deg); X[d] = X[a[1]]; return true; }
        if (op == "len")
        {
            const Vector<M, T>& x = X[d];
            LD m = sq(d);
            rq = regs[d].q * regs[d].q;
            if (!fits<T>(m, rq) || !rootable<T>(m) || !expo<T>(2 * regs[d].deg)) return false;
            if (a[1] == 0) retp<T>(x.length(), 2, regs[d].deg, m / rq); else retp<T>(T(x.norm()), 2, regs[d].deg, m / rq);
            return true;
        }
        if (op == "dist")
        {
            const int b = int(a[1]);
            const Vector<M, T>&x = X[d], &y = X[b];
            if (k != 0 && regs[d].deg != regs[b].deg) return false;
            ll q = lcm(regs[d].q, regs[b].q);
            LD m = maxabs(d) * (q / regs[d].q) + maxabs(b) * (q / regs[b].q);
            const bool far = m <= limInt<T>() && exact<T>(X[d], d) && exact<T>(X[b], b);
            if (far) m = apart(d, b);
            m = m * m * M;
            rq = q * q;
            if (!fits<T>(m, rq) || !rootable<T>(m) || !expo<T>(2 * regs[d].deg)) return false;
            retp<T>(x.distance(y), 2, regs[d].deg, m / rq);
            return true;
        }
        if (op == "nrm")
        {
            LD m = sq(d);
            LD q = LD(regs[d].q) * regs[d].q;
            const bool binary = (regs[d].q & (regs[d].q - 1)) == 0;
            if (m > (isF32<T>() ? 3000 : 100000) || (q > 16 && !binary) || !expo<T>(2 * regs[d].deg)) return false;
            Vector<M, T> t(X[d]);
            const Vector<M, T>& x = X[d];
            const ll n = std::max(ll(1), ll(m));
            if (a[1] == 2)
            {
                rq = ll(q);
                retp<T>(t.normalize(), 2, regs[d].deg);
            }
            else if (a[1] == 0)
            {
                rq = n;
                t.normalize();
                for (size_t i = 0; i < M; ++i) rets<T>(t.at(i), 0);
            }
            else
            {
                rq = n;
                t = normalize(x);
                for (size_t i = 0; i < M; ++i) rets<T>(t.at(i), 0);
            }
            return true;
        }
        return three(op, a, std::integral_constant<bool, M == 3>());
    }
    bool three(const std::string&, const Ints&, std::false_type) { return false; }
    bool three(const std::string& op, const Ints& a, std::true_type)
    {
        const int d = int(a[0]);
        if (op == "rot")
        {
            // d s c s h x y z n scale turns
            const int s = int(a[1]);
            ll q = regs[s].q * a[4] * a[8] * a[8];
            LD m = maxabs(s) * 3 * a[4] * a[8] * a[8];
            if (q > 50000 || m > (isF32<T>() ? 5e4 : 1e8) || (isF32<T>() && q > 5000)) return false;
            T th = T(std::atan2(LD(a[3]), LD(a[2])) + LD(a[10]) * 2 * std::acos(LD(-1)));
            Vector<M, T> ax(std::ldexp(T(a[5]), int(a[9])), std::ldexp(T(a[6]), int(a[9])), std::ldexp(T(a[7]), int(a[9])));
            const Vector<M, T>& x = X[s];
            X[d] = x.rotate(th, ax);
            meta(d, q, regs[s].deg, m / q);
            return true;
        }
        if (op == "norm")
        {
            const int b = int(a[1]), c = int(a[2]);
            if (regs[d].q != 1 || regs[b].q != 1 || regs[c].q != 1) return false;
            if (k != 0 && (regs[d].deg != regs[b].deg || regs[b].deg != regs[c].deg)) return false;
            LD m = std::max(std::max(maxabs(d), maxabs(b)), maxabs(c));
            if (m > (isF32<T>() ? 6 : 20) || !expo<T>(4 * regs[d].deg)) return false;
            ll u[3], v[3];
            for (int i = 0; i < 3; ++i) { u[i] = at(b, i) - at(d, i); v[i] = at(c, i) - at(d, i); }
            ll n[3] = { u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0] };
            rq = std::max(ll(1), n[0] * n[0] + n[1] * n[1] + n[2] * n[2]);
            const Vector<M, T>&x = X[d], &y = X[b], &z = X[c];
            Vector<M, T> t;
            if (a[3] == 0) t.compute_normal(x, y, z); else t = x.compute_normal(y, z);
            for (size_t i = 0; i < M; ++i) rets<T>(t.at(i), 0);
            return true;
        }
        return false;
    }
};

// comparison and search -----------------------------------------------------------
template <size_t M, typename T, typename U> struct VecSearch : Machine
{
    Vector<M, T> X[2];
    Vector<M, U> Y;
    VecSearch() { regs.push_back(vreg(X[0])); regs.push_back(vreg(X[1])); regs.push_back(vreg(Y)); }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = int(a[0]);
        if (op == "ld") return d == 2 ? load<U>(a) : load<T>(a);
        if (op == "cp") { meta(d, regs[a[1]].q, regs[a[1]].deg); X[d] = X[a[1]]; return true; }
        const Vector<M, T>&x = X[d], &y = X[a.size() > 1 && (a[1] == 0 || a[1] == 1) ? a[1] : 0];
        if (op == "eq" || op == "lt")
        {
            if (k != 0 && regs[d].deg != regs[a[1]].deg) return false;
            if (regs[d].q != regs[a[1]].q) return false;
            if (op == "eq") { retb(x == y); retb(x != y); retb(y == x); retb(y != x); }
            else { retb(x < y); retb(y < x); }
            return true;
        }
        if (op == "nan")
        {
            if (!isFloat<T>() || a[2] < 0 || a[2] >= ll(M)) return false;
            Vector<M, T> n = x;
            n.array[a[2]] = std::numeric_limits<T>::quiet_NaN();
            const T big = std::numeric_limits<T>::max();
            retb(n == y); retb(n != y); retb(n.equals(y, big)); retb(y.equals(n, big)); retb(n.equals(n, big));
            return true;
        }
        if (op == "nnz") { reti(ll(x.nnz())); return true; }
        if (op == "l2")
        {
            // the norm; of integers also that of a 2^e multiple
            const int e = int(a[1]);
            const LD mx = maxabs(d);
            rq = regs[d].q * regs[d].q;
            if (isFloat<T>())
            {
                if (e != 0 || !fits<T>(mx * mx * M, rq) || !rootable<T>(mx * mx * M) || !expo<T>(2 * regs[d].deg)) return false;
                retp<T>(T(x.norm()), 2, regs[d].deg, mx * mx * M / rq);
                return true;
            }
            if (std::ldexp(mx, e) > LD(std::numeric_limits<T>::max()) || mx * mx * M > limInt<double>() || (e != 0 && k != 0)) return false;
            Vector<M, T> t;
            for (size_t i = 0; i < M; ++i) t.array[i] = T(LD(x.array[i]) * std::ldexp(LD(1), e));
            retp<double>(t.norm() * std::ldexp(LD(1), -e), 2, regs[d].deg);
            return true;
        }
        if (op == "unit") { if (k != 0) return false; retb(x.is_unit_vector()); return true; }
        if (op == "find") return find(a, std::integral_constant<bool, std::numeric_limits<T>::is_signed>());
        if (op == "fwr")
        {
            if (regs[d].q != 1 || (k != 0 && regs[d].deg != 1) || a[1] > 1) return false;
            if (a[1] == 0) X[d].find_min() = pw2<T>(a[2], k); else X[d].find_max() = pw2<T>(a[2], k);
            return true;
        }
        if (op == "clmp")
        {
            if (k != 0 && regs[d].deg != 1) return false;
            if (a[3] == 1) { if (a[1] != 0 || a[2] != 1 || k != 0) return false; X[d].clamp(); }
            else X[d].clamp(pw2<T>(a[1], k), pw2<T>(a[2], k));
            return true;
        }
        return fl(op, a, std::integral_constant<bool, !std::numeric_limits<T>::is_integer>());
    }
    bool find(const Ints& a, std::true_type)
    {
        if (a[1] < 2) return find(a, std::false_type());
        if (a[2] == 1) return false;
        const Vector<M, T>& x = X[a[0]];
        reti(ll(a[1] == 2 ? x.find_abs_min_index() : x.find_abs_max_index()));
        return true;
    }
    bool find(const Ints& a, std::false_type)
    {
        if (a[1] > 1) return false;
        const int d = int(a[0]);
        const Vector<M, T>& x = X[d];
        if (a[2] == 0) reti(ll(a[1] == 0 ? x.find_min_index() : x.find_max_index()));
        else
        {
            const T& c = a[1] == 0 ? x.find_min() : x.find_max();
            T& m = a[1] == 0 ? X[d].find_min() : X[d].find_max();
            if (&c != &m) ok = false;
            rq = regs[d].q;
            reti(ll(&c - &*x.begin()) * rq);
            ret(c, regs[d].deg);
        }
        return true;
    }
    bool scaleTo(const std::string& op, const Ints& a)
    {
        const size_t d = size_t(a[0]);
        const Vector<M, T>& x = X[d];
        if (op == "scal")
        {
            // d lo hi top; exact if the range is a power of two, otherwise
            // only off the integers
            if (k != 0 || a[3] != ll(std::numeric_limits<U>::max())) return false;
            const ll range = a[2] - a[1];
            const ll q = regs[d].q;
            if (range <= 0) return false;
            const bool p2 = (range & (range - 1)) == 0 && (q & (q - 1)) == 0;
            for (ll v : regs[d].last)
            {
                ll n = (v - a[1] * q) * a[3], m = range * q;
                if (n > 2000000000 || n < 0 || v > a[2] * q) return false;
                if (!p2 && n % m == 0 && n != 0) return false;
                // float resolution
                if (isF32<T>() && !p2 && (n % m) * 500 < m) return false;
                if (isF32<T>() && !p2 && (m - n % m) * 500 < m) return false;
                if (isF32<T>() && a[3] > 40000) return false;
            }
            if (a[4] == 1) { if (a[1] != -1 || a[2] != 1) return false; x.scale_to(Y); }
            else x.scale_to(Y, T(a[1]), T(a[2]));
            meta(2, 1, 0);
            return true;
        }
        if (op == "scai")
        {
            // as above, to integers of 32 bits
            if (k != 0) return false;
            const ll range = a[2] - a[1], q = regs[d].q, m = range * q;
            if (range <= 0 || m > 3000) return false;
            const bool p2 = (range & (range - 1)) == 0 && (q & (q - 1)) == 0;
            for (ll v : regs[d].last)
            {
                const ll n = v - a[1] * q;
                if (n < 0 || n > m) return false;
                if (!p2 && n != 0 && n * 2147483647 % m == 0) return false;
                if (!p2 && isF32<T>()) return false;
            }
            Vector<M, int> z;
            if (a[3] == 1) { if (a[1] != -1 || a[2] != 1) return false; x.scale_to(z); }
            else x.scale_to(z, T(a[1]), T(a[2]));
            for (size_t i = 0; i < M; ++i)
            {
                const ll v = z.at(i), l = v & 65535;
                reti((v - l) / 65536); reti(l);
            }
            return true;
        }
        return false;
    }
    bool fl(const std::string& op, const Ints& a, std::false_type)
    {
        const size_t d = size_t(a[0]);
        const Vector<M, T>& x = X[d];
        if (op == "near")
        {
            if (a[2] % 2 || a[3] > 1) return false;
            if (a[3] == 1) { if (k != 0 || a[2] != 2) return false; }
            if (k != 0 && (regs[d].deg != 1 || regs[a[1]].deg != 1)) return false;
            retb(x.equals(X[a[1]], pw2<T>(a[2] / 2, k)));
            return true;
        }
        if (op == "scal" || op == "scai") return scaleTo(op, a);
        return false;
    }
    bool fl(const std::string& op, const Ints& a, std::true_type)
    {
        const int d = int(a[0]);
        const Vector<M, T>& x = X[d];
        if (op == "near")
        {
            if (regs[d].q != 1 || regs[a[1]].q != 1) return false;
            if (k != 0 && (regs[d].deg != 1 || regs[a[1]].deg != 1)) return false;
            const Vector<M, T>& y = X[a[1]];
            if (a[3] == 0) retb(x.equals(y, T(std::ldexp(T(a[2]), k - 1))));
            else { if (k < 0 || a[2] != 1) return false; retb(a[3] == 1 ? x.equals(y) : vmml::equals(x, y)); }
            return true;
        }
        if (op == "scal" || op == "scai") return scaleTo(op, a);
        if (op == "rcp")
        {
            ll L = 1;
            for (ll v : regs[d].last)
            {
                if (v == 0 && a[1] == 0) return false;
                if (v != 0) L = lcm(L, std::llabs(v));
                if (L > 3000) return false;
            }
            const ll q = regs[d].q;
            if (!expo<T>(regs[d].deg)) return false;
            std::vector<bool> z;
            if (a[1] == 0) X[d].reciprocal(); else X[d].reciprocal_safe();
            if (a[1] == 1)
                for (size_t i = 0; i < M; ++i)
                {
                    bool mx = X[d].at(i) == std::numeric_limits<T>::max();
                    retb(mx);
                    if (mx) X[d].at(i) = 0;
                }
            meta(d, L, -regs[d].deg, LD(q));
            return true;
        }
        if (op == "pert")
        {
            if (regs[d].q != 1 || (k != 0 && regs[d].deg != 1)) return false;
            X[d].perturb(pw2<T>(a[1], k));
            return true;
        }
        if (op == "sqrt")
        {
            for (ll v : regs[d].last) if (v < 0) return false;
            if ((regs[d].deg * k) % 2) return false;
            Vector<M, T> t(x);
            t.sqrt_elementwise();
            rq = regs[d].q;
            for (size_t i = 0; i < M; ++i)
            {
                T u = std::ldexp(t.at(i), -k * regs[d].deg / 2);
                rets<T>(u);
            }
            return true;
        }
        return false;
    }
};

// construction and views ------------------------------------------------------------
template <size_t M, size_t N, typename T, typename U> struct VecView : Machine
{
    typedef Vector<M, T> V;
    V X;
    Vector<M + 1, T> P;
    Vector<M - 1, T> Q;
    Vector<M, U> Z;
    Vector<N, T> S;
    VecView()
    {
        regs.push_back(vreg(X)); regs.push_back(vreg(P)); regs.push_back(vreg(Q)); regs.push_back(vreg(Z)); regs.push_back(vreg(S));
    }
    static T& named(V& v, bool col, size_t i)
    {
        if (!col) return i == 0 ? v.x() : i == 1 ? v.y() : i == 2 ? v.z() : v.w();
        return i == 0 ? v.r() : i == 1 ? v.g() : i == 2 ? v.b() : v.a();
    }
    static const T& cnamed(const V& v, bool col, size_t i)
    {
        if (!col) return i == 0 ? v.x() : i == 1 ? v.y() : i == 2 ? v.z() : v.w();
        return i == 0 ? v.r() : i == 1 ? v.g() : i == 2 ? v.b() : v.a();
    }
    bool inside(ll i) const { return i >= 0 && i < ll(M); }
    // 0 at 1 () 2 [] 3 iterator 4 reverse iterator 5 xyzw 6 rgba 7 array 8 pointer
    T& path(ll p, ll j)
    {
        size_t i = idx(j);
        switch (p)
        {
        case 0: return X.at(i);
        case 1: return X(i);
        case 2: return X[i];
        case 3: return *(X.begin() + i);
        case 4: return *(X.rbegin() + (M - 1 - i));
        case 5: return named(X, false, i);
        case 6: return named(X, true, i);
#ifndef VMMLIB_NO_CONVERSION_OPERATORS
        case 8: { T* t = X; return t[i]; }
#endif
        default: return X.array[i];
        }
    }
    const T& cpath(ll p, ll j)
    {
        const V& x = X;
        size_t i = idx(j);
        switch (p)
        {
        case 0: return x.at(i);
        case 1: return x(i);
        case 2: return x[i];
        case 3: return *(x.begin() + i);
        case 4: return *(x.rbegin() + (M - 1 - i));
        case 5: return cnamed(x, false, i);
        case 6: return cnamed(x, true, i);
#ifndef VMMLIB_NO_CONVERSION_OPERATORS
        case 8: { const T* t = x; return t[i]; }
#endif
        default: return x.array[i];
        }
    }
    bool unit(int d) const { return regs[d].q == 1 && (k == 0 || regs[d].deg == 1); }
    bool can(ll p, ll i) const
    {
        const ll q = p >= 10 ? p - 10 : p;
        if (!inside(i)) return q == 0 || q == 1;
        if (q == 5 || q == 6) return i < 4;
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld") return a[0] == 3 ? load<U>(a) : load<T>(a);
        if (op == "wr")
        {
            if (!unit(0) || !can(a[0], a[1])) return false;
            path(a[0], a[1]) = pw2<T>(a[2], k);
            return true;
        }
        if (op == "rd")
        {
            if (!can(a[0], a[1])) return false;
            T v = a[0] >= 10 ? cpath(a[0] - 10, a[1]) : path(a[0], a[1]);
            rq = regs[0].q;
            ret(v, regs[0].deg);
            return true;
        }
        if (op == "iter")
        {
            rq = regs[0].q;
            const V& x = X;
            if (a[0] == 0 && a[1] == 0) for (typename V::iterator i = X.begin(); i != X.end(); ++i) ret(*i, regs[0].deg);
            else if (a[0] == 0) for (typename V::const_iterator i = x.begin(); i != x.end(); ++i) ret(*i, regs[0].deg);
            else if (a[1] == 0) for (typename V::reverse_iterator i = X.rbegin(); i != X.rend(); ++i) ret(*i, regs[0].deg);
            else for (typename V::const_reverse_iterator i = x.rbegin(); i != x.rend(); ++i) ret(*i, regs[0].deg);
            return true;
        }
        if (op == "size") { reti(ll(V::size())); if (V::DIMENSION != M) ok = false; return true; }
        if (op == "fill")
        {
            const T v = pw2<T>(a[1], k);
            if (a[0] == 0) X = V(v); else if (a[0] == 1) X.set(v);
            else { T r_ = (X = v); if (r_ != v) ok = false; }
            meta(0, 1, 1);
            return true;
        }
        if (op == "app")
        {
            if (!unit(2)) return false;
            const T v = pw2<T>(a[1], k);
            if (a[0] == 0) X = V(Q, v); else X.set(Q, v);
            meta(0, 1, 1);
            return true;
        }
        if (op == "pre") return prefix(a);
        if (op == "toh")
        {
            if (k != 0) return false;
            if (a[0] == 1 && a[1] == 0) { if (a[2] == 0) P = X; else { Vector<M + 1, T> t(X); P = t; } }
            else if (a[0] == 0 && a[1] == 2) { if (a[2] == 0) X = Q; else { V t(Q); X = t; } }
            else return false;
            meta(int(a[0]), regs[a[1]].q, regs[a[1]].deg);
            return true;
        }
        if (op == "frhi")
        {
            const ll w = regs[a[1]].last.back();
            if (isFloat<T>() || w == 0 || k != 0) return false;
            if (a[0] == 0 && a[1] == 1) { if (a[2] == 0) X = P; else { V t(P); X = t; } }
            else if (a[0] == 2 && a[1] == 0) { if (a[2] == 0) Q = X; else { Vector<M - 1, T> t(X); Q = t; } }
            else return false;
            return true;
        }
        if (op == "frh")
        {
            const ll w = regs[a[1]].last.back();
            if (!isFloat<T>() && (std::llabs(w) != 1 || k != 0)) return false;
            if (w == 0 || std::llabs(w) > 2000) return false;
            if (isF32<T>() && maxabs(int(a[1])) > 2000) return false;
            if (a[0] == 0 && a[1] == 1) { if (a[2] == 0) X = P; else { V t(P); X = t; } }
            else if (a[0] == 2 && a[1] == 0) { if (a[2] == 0) Q = X; else { Vector<M - 1, T> t(X); Q = t; } }
            else return false;
            meta(int(a[0]), std::llabs(w), 0);
            return true;
        }
        if (op == "cnv")
        {
            if (regs[a[1]].q != 1 || k != 0) return false;
            if ((isF32<T>() || isF32<U>()) && maxabs(int(a[1])) > 1 << 24) return false;
            LD lim = std::min(LD(std::numeric_limits<T>::max()), LD(std::numeric_limits<U>::max()));
            LD low = std::max(LD(std::numeric_limits<T>::lowest()), LD(std::numeric_limits<U>::lowest()));
            for (ll v : regs[a[1]].last) if (LD(v) > lim || LD(v) < low) return false;
            if (a[0] == 0 && a[1] == 3) { if (a[2] == 0) X = Z; else if (a[2] == 1) { V t(Z); X = t; } else X.cast_from(Z); }
            else if (a[0] == 3 && a[1] == 0) { if (a[2] == 0) Z = X; else if (a[2] == 1) { Vector<M, U> t(X); Z = t; } else Z.cast_from(X); }
            else return false;
            meta(int(a[0]), 1, regs[a[1]].deg);
            return true;
        }
        if (op == "sget")
        {
            const V& x = X;
            const size_t o = size_t(a[0]);
            if (a[1] == 0) S = x.template get_sub_vector<N>(o); else S = X.template get_sub_vector<N>(o);
            if (o == 0 && a[1] == 1) S = x.template get_sub_vector<N>();
            meta(4, regs[0].q, regs[0].deg);
            return true;
        }
        if (op == "sput")
        {
            if (regs[0].q != regs[4].q || (k != 0 && regs[0].deg != regs[4].deg)) return false;
            X.template get_sub_vector<N>(size_t(a[0])) = S;
            return true;
        }
        if (op == "spok")
        {
            if (!unit(0)) return false;
            Vector<N, T>& v = X.template get_sub_vector<N>(size_t(a[0]));
            v.at(size_t(a[1])) = pw2<T>(a[2], k);
            return true;
        }
        if (op == "setf")
        {
            if (regs[0].q != regs[a[0]].q || (k != 0 && regs[0].deg != regs[a[0]].deg)) return false;
            if (a[0] == 1) X.set(P); else if (a[0] == 2) X.set(Q); else X.set(S);
            return true;
        }
        if (op == "name") return name(a, std::integral_constant<bool, M == 3 && std::numeric_limits<T>::is_signed>());
        return false;
    }
    bool name(const Ints&, std::false_type) { return false; }
    bool name(const Ints& a, std::true_type)
    {
        if (k != 0) return false;
        switch (a[0])
        {
        case 0: X = V::FORWARD; break;
        case 1: X = V::BACKWARD; break;
        case 2: X = V::UP; break;
        case 3: X = V::DOWN; break;
        case 4: X = V::LEFT; break;
        case 5: X = V::RIGHT; break;
        case 6: X = V::ONE; break;
        case 7: X = V::ZERO; break;
        case 8: X = V::UNIT_X; break;
        case 9: X = V::UNIT_Y; break;
        default: X = V::UNIT_Z; break;
        }
        meta(0, 1, 0);
        return true;
    }
    // 0 constructor of the components, 1 set of them, 2 iter_set vector,
    // 3 iter_set list, 4 from pointer ctor, 5 pointer assignment
    bool prefix(const Ints& a)
    {
        std::vector<T> s;
        for (size_t i = 1; i < a.size(); ++i) s.push_back(pw2<T>(a[i], k));
        const size_t n = s.size();
        if (n < M && !unit(0)) return false;
        s.push_back(77); // a guard behind the range
        switch (a[0])
        {
        case 0: if (n != M || M > 4) return false; return comps(s, true);
        case 1: if (n != M || M > 4) return false; return comps(s, false);
        case 2: X.iter_set(s.begin(), s.end() - 1); break;
        case 3: { std::list<T> l(s.begin(), s.end() - 1); X.iter_set(l.begin(), l.end()); break; }
        case 4: { if (n < M) return false; const T* p = s.data(); V t(p); X = t; break; }
        default: { if (n < M) return false; const T* p = s.data(); X = p; break; }
        }
        if (n >= M) meta(0, 1, 1);
        return true;
    }
    bool comps(const std::vector<T>& s, bool ctor)
    {
        comps(s, ctor, std::integral_constant<size_t, M>());
        meta(0, 1, 1);
        return true;
    }
    void comps(const std::vector<T>& s, bool ctor, std::integral_constant<size_t, 2>) { if (ctor) X = V(s[0], s[1]); else X.set(s[0], s[1]); }
    void comps(const std::vector<T>& s, bool ctor, std::integral_constant<size_t, 3>) { if (ctor) X = V(s[0], s[1], s[2]); else X.set(s[0], s[1], s[2]); }
    void comps(const std::vector<T>& s, bool ctor, std::integral_constant<size_t, 4>) { if (ctor) X = V(s[0], s[1], s[2], s[3]); else X.set(s[0], s[1], s[2], s[3]); }
    template <size_t K> void comps(const std::vector<T>& s, bool, std::integral_constant<size_t, K>) { X.iter_set(s.begin(), s.end()); }
};

// planes and spheres -------------------------------------------------------------------
template <typename T> struct VecPlane : Machine
{
    Vector<4, T> plane, sphere;
    Vector<3, T> p, t[3], res;
    VecPlane()
    {
        // a plane: the normal is not scaled, the distance is
        Reg g = vreg(plane);
        Vector<4, T>& c = plane;
        g.read = [this, &c](std::vector<LD>& o) { o.resize(4); for (size_t i = 0; i < 4; ++i) o[i] = i < 3 ? LD(c.at(i)) : std::ldexp(LD(c.at(i)), -k); };
        g.write = [this, &c](size_t i, LD v) { c.at(i) = T(i < 3 ? v : std::ldexp(v, k)); };
        regs.push_back(g); regs.push_back(vreg(p));
        for (int i = 0; i < 3; ++i) regs.push_back(vreg(t[i]));
        regs.push_back(vreg(sphere)); regs.push_back(vreg(res));
    }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld")
        {
            if (a[0] != 0) return load<T>(a);
            if (a.size() != 6) return false;
            for (size_t i = 2; i < a.size(); ++i) regs[0].write(i - 2, LD(T(a[i]) / T(a[1])));
            meta(0, a[1], 0);
            return true;
        }
        if (op == "plane")
        {
            ll u[3], v[3], w = 0;
            for (int i = 0; i < 3; ++i) if (regs[a[i]].q != 1 || maxabs(int(a[i])) > (isF32<T>() ? 5 : 12)) return false;
            for (int i = 0; i < 3; ++i) { u[i] = at(int(a[1]), i) - at(int(a[0]), i); v[i] = at(int(a[2]), i) - at(int(a[0]), i); }
            ll n[3] = { u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0] };
            for (int i = 0; i < 3; ++i) w -= n[i] * at(int(a[0]), i);
            ll s = n[0] * n[0] + n[1] * n[1] + n[2] * n[2];
            if (w * w > 20000000) return false;
            if (isF32<T>() && w * w > 200 * std::max(ll(1), s)) return false;
            if (!this->template expo<T>(4)) return false;
            const Vector<3, T>&x = t[a[0] - 2], &y = t[a[1] - 2], &z = t[a[2] - 2];
            plane = compute_plane(x, y, z);
            rq = std::max(ll(1), s);
            for (int i = 0; i < 4; ++i) rets<T>(plane.at(i), i < 3 ? 0 : 1);
            ll rt = ll(std::floor(std::sqrt(double(s)) + 0.5));
            if (s > 0 && rt * rt == s) meta(0, rt, 0); else scrub(0);
            return true;
        }
        if (op == "d2p" || op == "prp")
        {
            // unit normals only
            ll s = 0;
            for (int i = 0; i < 3; ++i) s += at(0, i) * at(0, i);
            if (s != regs[0].q * regs[0].q) return false;
            const Vector<4, T>& c = plane;
            const Vector<3, T>& x = p;
            if (k != 0 && regs[1].deg != 1) return false;
            LD m = maxabs(0) * maxabs(1) * 4;
            rq = regs[0].q * regs[1].q;
            if (m > 1e5 || rq > 300) return false;
            if (op == "d2p") { ret(c.distance_to_plane(x), regs[1].deg, m / rq); return true; }
            ll q = regs[0].q * regs[0].q * regs[1].q;
            if (q > 3000 || m * maxabs(0) > 1e7) return false;
            rq = 1;
            res = c.project_point_onto_plane(x);
            meta(6, q, regs[1].deg, m / regs[0].q / regs[1].q);
            return true;
        }
        if (op == "d2s" || op == "prs")
        {
            const ll q = lcm(regs[1].q, regs[5].q);
            ll s = 0;
            LD mx = std::max(maxabs(1) / regs[1].q, maxabs(5) / regs[5].q);
            for (int i = 0; i < 3; ++i)
            {
                ll e = at(1, i) * (q / regs[1].q) - at(5, i) * (q / regs[5].q);
                s += e * e;
            }
            if (s > 30000 || q > 8 || mx > (isF32<T>() ? 100 : 320) || (k != 0 && (regs[1].deg != 1 || regs[5].deg != 1)) || !this->template expo<T>(2)) return false;
            const Vector<4, T>& c = sphere;
            const Vector<3, T>& x = p;
            if (op == "d2s")
            {
                rq = q * q;
                T dist = c.distance_to_sphere(x);
                retp<LD>(LD(dist) + LD(sphere.at(3)), 2, 1, 0);
                // the addition is ours: the precision is that of T
                if (!ok) { ok = true; r.clear(); retp<T>(T(LD(dist) + LD(sphere.at(3))), 2, 1, std::max(LD(1), mx * mx)); }
                return true;
            }
            if (s == 0 || regs[5].q != 1) return false;
            LD rr = LD(at(5, 3)) * at(5, 3);
            if (rr * s > 100000) return false;
            rq = s;
            res = c.project_point_onto_sphere(x);
            for (int i = 0; i < 3; ++i) rets<T>(T(res.at(i) - sphere.at(i)), 1, mx * mx * 3);
            scrub(6);
            return true;
        }
        return false;
    }
};

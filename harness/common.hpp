// Executor: runs command scripts on the real library and records a trace.
//
// Script line:  op a1 a2 ...       (integers)
//               @ key ...          start a behaviour on machine `key`
// Trace line (JSON): op, a, x (exception), q, r (returned numerators over q),
//   ok (every observed number is a representable value), s (the registers
//   that changed: [index, q, numerators...]), n (script line)
//
// A number x of the library is abstracted to the integer nearest to
// x * q / 2^(k deg): q is the resolution, k the exponent by which all inputs
// of the behaviour were scaled, deg the degree of homogeneity.  If no integer
// is that near (relative to the precision of the type), or it is too big,
// ok = 0 and no specification accepts the event.
#pragma once
#include <vmmlib/vmmlib.hpp>
#include <vmmlib/util.hpp>
#include <vmmlib/qr_decomposition.hpp>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>

typedef long long ll;
typedef std::vector<ll> Ints;
typedef long double LD;

const ll CAP = ll(1) << 30; // no number in a trace is bigger

template <typename T> struct Prec { static LD tol() { return 0; } };
template <> struct Prec<float> { static LD tol() { return 2e-5L; } };
template <> struct Prec<double> { static LD tol() { return 1e-10L; } };
template <> struct Prec<long double> { static LD tol() { return 1e-10L; } };
template <typename T> bool isFloat() { return !std::numeric_limits<T>::is_integer; }
// does the scaling exponent apply to values of the type?
template <typename T> bool scales() { return isFloat<T>() || sizeof(T) == 8; }
template <typename T> bool isF32() { return std::is_same<T, float>::value; }

// largest numerator for which the arithmetic on T is reliable
template <typename T> LD limInt() // integer valued operands
{
    if (isF32<T>()) return LD(1 << 22);
    if (std::numeric_limits<T>::is_integer)
        return std::min(LD(ll(1) << 27), LD(std::numeric_limits<T>::max()));
    return LD(ll(1) << 27);
}
template <typename T> LD limRat() { return isF32<T>() ? LD(1 << 11) : LD(ll(1) << 26); }

struct Reg
{
    std::function<void(std::vector<LD>&)> read;
    std::function<void(size_t, LD)> write;
    LD tol;
    ll q;
    int deg;
    LD mag; // magnitude of intermediate results in the last operation
    Ints last; // last observed numerators
    ll lastq;
};

struct Machine
{
    std::vector<Reg> regs;
    int k = 0; // scaling exponent of this behaviour
    size_t loads = 0;
    bool negZero = true; // load zeros of both signs
    // event
    ll x, rq;
    Ints r;
    Ints more; // observed numbers appended to the arguments of the command
    bool ok;
    virtual ~Machine() {}
    // false: command skipped, nothing recorded
    virtual bool exec(const std::string& op, const Ints& a) = 0;

    static bool project(LD v, LD tol, LD mag, ll& out)
    {
        if (!(v == v)) return false;
        LD n = std::floor(v + 0.5L);
        if (!(std::fabs(n) <= LD(CAP))) return false;
        out = ll(n);
        LD m = std::max(LD(1), std::max(std::fabs(v), mag));
        LD t = std::min(LD(0.2L), tol * m);
        return std::fabs(v - n) <= t;
    }
    LD unscale(LD v, int deg) const { return k == 0 || deg == 0 ? v : std::ldexp(v, -k * deg); }

    // returned values
    template <typename T> void ret(T v, int deg = 0, LD mag = 0)
    {
        ll o = 0;
        if (!project(unscale(LD(v), deg) * rq, Prec<T>::tol(), mag * rq, o)) ok = false;
        r.push_back(o);
    }
    void retb(bool b) { r.push_back(b ? 1 : 0); }
    void reti(ll v) { r.push_back(v); }
    // sign and p-th power
    template <typename T> void retp(T v, int p, int deg = 0, LD mag = 0)
    {
        LD u = unscale(LD(v), deg);
        LD w = std::pow(std::fabs(u), LD(p));
        ll o = 0;
        if (!project(w * rq, Prec<T>::tol() * p, mag * rq, o)) ok = false;
        // a power that is zero within the precision has no sign
        r.push_back(o == 0 ? 0 : rq * (u > 0 ? 1 : u < 0 ? -1 : 9));
        r.push_back(o);
    }
    // signed square
    template <typename T> void rets(T v, int deg = 0, LD mag = 0)
    {
        LD u = unscale(LD(v), deg);
        LD w = u * std::fabs(u);
        ll o = 0;
        if (!project(w * rq, Prec<T>::tol() * 2, mag * rq, o)) ok = false;
        r.push_back(o);
    }
    LD maxabs(int i) const
    {
        LD m = 0;
        for (ll v : regs[i].last) m = std::max(m, std::fabs(LD(v)));
        return m;
    }
    ll at(int i, size_t j) const { return regs[i].last[j]; }
    // is the scale of values of this degree far from over- and underflow?
    template <typename T> bool expo(int deg) const
    {
        if (!isFloat<T>()) return k == 0 || (deg >= 0 && deg * k <= std::numeric_limits<T>::digits - 29);
        return std::abs(deg * k) <= (isF32<T>() ? 60 : 400);
    }
    // register meta data after an operation
    void meta(int i, ll q, int deg, LD mag = 0) { regs[i].q = q; regs[i].deg = deg; regs[i].mag = mag; }
    void scrub(int i)
    {
        for (size_t j = 0; j < regs[i].last.size(); ++j) regs[i].write(j, 0);
        meta(i, 1, 1);
    }
    static ll lcm(ll a, ll b) { ll x = a, y = b; while (y) { ll t = x % y; x = y; y = t; } return a / x * b; }
    template <typename T> bool fits(LD m, ll q) const { return m <= (q == 1 ? limInt<T>() : limRat<T>()) && q <= 4000; }
    // are the values of the register integers and exact?
    template <typename T, typename V> bool exact(const V& v, int d) const
    {
        if (regs[d].q != 1) return false;
        for (size_t i = 0; i < regs[d].last.size(); ++i)
            if (unscale(LD(v.array[i]), regs[d].deg) != LD(at(d, i))) return false;
        return true;
    }
    // largest difference of elements
    LD apart(int d, int b) const
    {
        LD m = 0;
        for (size_t i = 0; i < regs[d].last.size(); ++i) m = std::max(m, std::fabs(LD(at(d, i)) - LD(at(b, i))));
        return m;
    }
    // can a square be told from its root in this precision?
    template <typename T> bool rootable(LD m) const { return !isF32<T>() || m <= 1000000; }
    // resolution of register d after sums of registers a and b
    template <typename T> bool linear(int d, int a, int b)
    {
        ll q = lcm(regs[a].q, regs[b].q);
        if (k != 0 && regs[a].deg != regs[b].deg) return false;
        LD m = maxabs(a) * (q / regs[a].q) + maxabs(b) * (q / regs[b].q);
        if (!fits<T>(m, q)) return false;
        meta(d, q, regs[a].deg, m / q);
        return true;
    }
    // ... after sums of n products
    template <typename T> bool product(int d, int a, int b, size_t n)
    {
        ll q = regs[a].q * regs[b].q;
        LD m = maxabs(a) * maxabs(b) * n;
        int deg = regs[a].deg + regs[b].deg;
        if (!fits<T>(m, q) || !expo<T>(deg)) return false;
        meta(d, q, deg, m / q);
        return true;
    }
    // are the values of the register exactly the rationals they stand for?
    bool exact(int i) const
    {
        std::vector<LD> v;
        regs[i].read(v);
        for (size_t j = 0; j < v.size(); ++j)
            if (unscale(v[j], regs[i].deg) * regs[i].q != LD(regs[i].last[j])) return false;
        return true;
    }
    // generic load: d q v...
    template <typename T> bool load(const Ints& a)
    {
        int d = int(a[0]);
        if (!isFloat<T>() && a[1] != 1) return false;
        if (a.size() - 2 != regs[d].last.size()) return false;
        for (size_t i = 2; i < a.size(); ++i)
        {
            LD v = LD(std::ldexp(LD(T(T(a[i]) / T(a[1]))), scales<T>() ? k : 0));
            // zeros of both signs
            if (negZero && isFloat<T>() && v == 0 && (i + loads) % 3 == 0) v = -v;
            regs[d].write(i - 2, v);
        }
        ++loads;
        meta(d, a[1], scales<T>() ? 1 : 0);
        return true;
    }
};

template <typename T> Reg matReg(std::function<T&(size_t)> at, size_t n)
{
    Reg g;
    g.tol = Prec<T>::tol();
    g.q = 1; g.deg = 0; g.mag = 0; g.lastq = 1;
    g.last.assign(n, 0);
    g.read = [at, n](std::vector<LD>& o) { o.resize(n); for (size_t i = 0; i < n; ++i) o[i] = LD(at(i)); };
    g.write = [at](size_t i, LD v) { at(i) = T(v); };
    return g;
}
template <size_t M, size_t N, typename T> Reg mreg(vmml::Matrix<M, N, T>& m)
{
    return matReg<T>([&m](size_t i) -> T& { return m.at(i / N, i % N); }, M * N);
}
template <size_t M, typename T> Reg vreg(vmml::Vector<M, T>& m)
{
    return matReg<T>([&m](size_t i) -> T& { return m.at(i); }, M);
}
template <typename T> Reg qreg(vmml::Quaternion<T>& m)
{
    return matReg<T>([&m](size_t i) -> T& { return m.at(i); }, 4);
}

typedef std::function<Machine*()> Factory;
std::map<std::string, Factory>& factories();
struct Add { Add(const std::string& key, Factory f) { factories()[key] = f; } };

template <typename T> T pw2(ll v, int k) { return scales<T>() && k > 0 ? T(ll(v) * (ll(1) << k)) : T(v); }
template <> inline float pw2<float>(ll v, int k) { return std::ldexp(float(v), k); }
template <> inline double pw2<double>(ll v, int k) { return std::ldexp(double(v), k); }
template <> inline long double pw2<long double>(ll v, int k) { return std::ldexp((long double)(v), k); }

inline size_t idx(ll i) { return i < 0 ? size_t(0) - size_t(-i) : size_t(i); }

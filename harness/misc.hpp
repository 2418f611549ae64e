// Low-pass filter, QR decomposition, fillers
#pragma once
#include "common.hpp"
#include <vmmlib/lowpass_filter.hpp>
#include <deque>
using namespace vmml;

// component access of the filtered types
template <typename V> struct Comp
{
    typedef V T;
    static const size_t n = 1;
    static T& at(V& v, size_t) { return v; }
};
template <size_t M, typename E> struct Comp<Vector<M, E>>
{
    typedef E T;
    static const size_t n = M;
    static T& at(Vector<M, E>& v, size_t i) { return v.at(i); }
};

template <size_t W, typename V> struct Lowpass : Machine
{
    typedef typename Comp<V>::T T;
    typedef LowpassFilter<W, V> F;
    static const size_t n = Comp<V>::n;
    V in, shadow[2];
    std::unique_ptr<F> f[2];
    bool used[2] = { false, false };
    std::deque<ll> w[2]; // magnitudes
    ll fn[2], fd[2];
    Lowpass()
    {
        regs.push_back(matReg<T>([this](size_t i) -> T& { return Comp<V>::at(in, i); }, n));
        for (int j = 0; j < 2; ++j)
        {
            regs.push_back(matReg<T>([this, j](size_t i) -> T& {
                if (used[j]) shadow[j] = f[j]->get(); else shadow[j] = V(T(0));
                return Comp<V>::at(shadow[j], i); }, n));
            f[j].reset(new F(0.5f));
            fn[j] = 1; fd[j] = 2;
        }
        in = V(T(0));
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]), i = d - 1;
        if (op == "ld") return a[0] == 0 && a[1] == 1 && load<T>(a);
        if (op == "new") { f[i].reset(new F(float(a[1]) / float(a[2]))); used[i] = false; w[i].clear(); fn[i] = a[1]; fd[i] = a[2]; meta(d, 1, 0); return true; }
        if (op == "sf") { f[i]->set_smooth_factor(float(a[1]) / float(a[2])); fn[i] = a[1]; fd[i] = a[2]; return true; }
        if (op == "cp") { const int j = int(a[1]) - 1; if (i == j) return false; *f[i] = *f[j]; used[i] = used[j]; w[i] = w[j]; fn[i] = fn[j]; fd[i] = fd[j];
                          meta(d, regs[a[1]].q, regs[a[1]].deg); return true; }
        if (op == "add" || op == "own")
        {
            const bool own = op == "own";
            if (own)
            {
                if (!used[i] || regs[d].deg != 1) return false;
                for (ll e : regs[d].last) if (e % regs[d].q) return false;
            }
            std::deque<ll> t = w[i];
            t.push_front(ll(own ? maxabs(d) / regs[d].q : maxabs(0)));
            while (t.size() > W) t.pop_back();
            LD q = 1, mx = 0;
            for (size_t j = 1; j < t.size(); ++j) q *= std::pow(LD(fd[i]), LD(j));
            for (ll x : t) mx = std::max(mx, LD(x));
            if (mx * q > (isF32<T>() ? LD(100000) : LD(1 << 29)) || q > (1 << 21)) return false;
            w[i] = t;
            const V r_ = own ? f[i]->add(f[i]->get()) : f[i]->add(in);
            used[i] = true;
            meta(d, ll(q), 1, mx);
            rq = ll(q);
            V c = r_;
            for (size_t j = 0; j < n; ++j) ret<T>(Comp<V>::at(c, j), 1, mx);
            return true;
        }
        if (op == "get")
        {
            if (!used[i]) return false;
            const F& c = *f[i];
            V x = a[1] == 0 ? c.get() : a[1] == 1 ? *c : *c.operator->();
            rq = regs[d].q;
            for (size_t j = 0; j < n; ++j) ret<T>(Comp<V>::at(x, j), regs[d].deg, maxabs(d) / rq);
            return true;
        }
        return false;
    }
};

template <size_t M, size_t N, typename T> struct Qr : Machine
{
    Matrix<M, N, T> A;
    Matrix<M, M, T> Q;
    Matrix<N, N, T> R;
    Qr() { regs.push_back(mreg(A)); regs.push_back(mreg(Q)); regs.push_back(mreg(R)); }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld") return load<T>(a);
        if (op == "qr")
        {
            if (!this->template expo<T>(2) || (k != 0 && regs[0].deg != 1)) return false;
            const Matrix<M, N, T>& c = A;
            qr_decompose_gram_schmidt(c, Q, R);
            meta(1, a[0], 0, LD(1000) / a[0]);
            meta(2, 1, 1, 1000);
            return true;
        }
        return false;
    }
};

template <size_t M, size_t N, size_t P, typename T> struct Filler : Machine
{
    Matrix<M, N, T> m;
    Matrix<M, M, T> s;
    Vector<P, T> v;
    void see(T x, int bits = 14)
    {
        const LD y = std::ldexp(LD(x), bits);
        more.push_back(y == y && std::fabs(y) < 1.05e9L ? ll(std::floor(y + 0.5L)) : CAP);
    }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "dct")
        {
            m.set_dct(); s.set_dct();
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) see(m.at(i, j));
            for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) see(s.at(i, j));
            return true;
        }
        if (op == "rand")
        {
            const int seed = int(a[1]);
            if (a[0] == 0) { if (seed >= 0) m.set_random(seed); else m.set_random(); for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < N; ++j) see(m.at(i, j), 29); }
            else if (a[0] == 1) { s.set_random(seed); for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < M; ++j) see(s.at(i, j), 29); }
            else { if (seed >= 0) v.set_random(seed); else v.set_random(); for (size_t i = 0; i < P; ++i) see(v.at(i), 29); }
            return true;
        }
        return op == "spread";
    }
};

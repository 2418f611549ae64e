// Matrix machines: storage, arithmetic, square, products, reductions, conversions
#pragma once
#include "common.hpp"
using namespace vmml;

#ifdef NO_NARROW_CONV
#define HAVE_CONV 0
#else
#define HAVE_CONV 1
#endif

// element access paths ------------------------------------------------------
// 0 at, 1 (), 2 [size_t][], 3 [int][], 4 iterator, 5 reverse iterator,
// 6 conversion to T*, 7 array
template <size_t M, size_t N, typename T>
T& path(Matrix<M, N, T>& m, ll p, size_t i, size_t j)
{
    switch (p)
    {
    case 0: return m.at(i, j);
    case 1: return m(i, j);
    case 2: return m[i][j];
    case 3: return m[int(i)][j];
    case 4: return *(m.begin() + (j * M + i));
    case 5: return *(m.rbegin() + (M * N - 1 - (j * M + i)));
#ifndef VMMLIB_NO_CONVERSION_OPERATORS
    case 6: { T* p_ = m; return p_[j * M + i]; }
#endif
    default: return m.array[j * M + i];
    }
}
template <size_t M, size_t N, typename T>
T cpath(const Matrix<M, N, T>& m, ll p, size_t i, size_t j)
{
    switch (p)
    {
    case 0: return m.at(i, j);
    case 1: return m(i, j);
    case 2: case 3: // through a constant row accessor
    {
        Matrix<M, N, T>& w = const_cast<Matrix<M, N, T>&>(m);
        const typename Matrix<M, N, T>::row_accessor r = p == 2 ? w[i] : w[int(i)];
        return r[j];
    }
    case 4: return *(m.begin() + (j * M + i));
    case 5: return *(m.rbegin() + (M * N - 1 - (j * M + i)));
#ifndef VMMLIB_NO_CONVERSION_OPERATORS
    case 6: { const T* p_ = m; return p_[j * M + i]; }
#endif
    default: return m.array[j * M + i];
    }
}

template <typename T> bool closerThan(const T& a, const T& b) { return a == b; }

template <size_t M, size_t N, size_t A, size_t B, typename T> struct MatStore : Machine
{
    Matrix<M, N, T> X[2];
    Vector<M, T> u;
    Vector<N, T> v;
    Matrix<A, B, T> S;
    Matrix<1, N, T> r1;
    Matrix<M, 1, T> c1;
    MatStore()
    {
        regs.push_back(mreg(X[0])); regs.push_back(mreg(X[1]));
        regs.push_back(vreg(u)); regs.push_back(vreg(v));
        regs.push_back(mreg(S)); regs.push_back(mreg(r1)); regs.push_back(mreg(c1));
    }
    // mixing registers needs the same unit
    bool same(int a, int b) const
    {
        return regs[a].q == regs[b].q && (k == 0 || regs[a].deg == regs[b].deg);
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const size_t d = a.empty() ? 0 : size_t(a[0]);
        const int D = int(d);
        if (op == "ld") return load<T>(a);
        if (op == "wr")
        {
            if (regs[D].q != 1 || (k != 0 && regs[D].deg != 1)) return false;
            path(X[d], a[1], idx(a[2]), idx(a[3])) = pw2<T>(a[4], k);
            return true;
        }
        if (op == "rd")
        {
            T val;
            const bool cst = a[1] >= 10;
            if (cst) { const Matrix<M, N, T>& c = X[d]; val = cpath(c, a[1] - 10, idx(a[2]), idx(a[3])); }
            else val = path(X[d], a[1], idx(a[2]), idx(a[3]));
            rq = regs[D].q;
            ret(val, regs[D].deg);
            return true;
        }
        if (op == "all")
        {
            rq = regs[D].q;
            const Matrix<M, N, T>& c = X[d];
            for (size_t i = 0; i < M; ++i)
                for (size_t j = 0; j < N; ++j)
                    ret(a[1] >= 10 ? cpath(c, a[1] - 10, i, j) : path(X[d], a[1], i, j), regs[D].deg);
            return true;
        }
        if (op == "iter")
        {
            rq = regs[D].q;
            const Matrix<M, N, T>& c = X[d];
            if (a[1] == 0 && a[2] == 0) for (T& e : X[d]) ret(e, regs[D].deg);
            else if (a[1] == 0) for (typename Matrix<M, N, T>::const_iterator i = c.begin(); i != c.end(); ++i) ret(*i, regs[D].deg);
            else if (a[2] == 0) for (typename Matrix<M, N, T>::reverse_iterator i = X[d].rbegin(); i != X[d].rend(); ++i) ret(*i, regs[D].deg);
            else for (typename Matrix<M, N, T>::const_reverse_iterator i = c.rbegin(); i != c.rend(); ++i) ret(*i, regs[D].deg);
            return true;
        }
        if (op == "fill")
        {
            const T val = pw2<T>(a[2], k);
            if (a[1] == 0) X[d].fill(val); else if (a[1] == 1) X[d] = val; else X[d].zero();
            meta(D, 1, 1);
            return true;
        }
        if (op == "grow")
        {
            const Matrix<M, N, T>& c = X[d];
            if (a[2] == 0) v = c.get_row(idx(a[1]));
            else if (a[2] == 1) c.get_row(idx(a[1]), v);
            else c.get_row(idx(a[1]), r1);
            meta(a[2] == 2 ? 5 : 3, regs[D].q, regs[D].deg);
            return true;
        }
        if (op == "gcol")
        {
            const Matrix<M, N, T>& c = X[d];
            if (a[2] == 0) u = c.get_column(idx(a[1]));
            else if (a[2] == 1) c.get_column(idx(a[1]), u);
            else c.get_column(idx(a[1]), c1);
            meta(a[2] == 2 ? 6 : 2, regs[D].q, regs[D].deg);
            return true;
        }
        if (op == "srow")
        {
            if (!same(D, a[2] == 1 ? 5 : 3)) return false;
            if (a[2] == 1) X[d].set_row(idx(a[1]), r1); else X[d].set_row(idx(a[1]), v);
            return true;
        }
        if (op == "scol")
        {
            if (!same(D, a[2] == 1 ? 6 : 2)) return false;
            if (a[2] == 1) X[d].set_column(idx(a[1]), c1); else X[d].set_column(idx(a[1]), u);
            return true;
        }
        if (op == "gsub")
        {
            const Matrix<M, N, T>& c = X[d];
            {
                if (a[3] == 0) S = c.template get_sub_matrix<A, B>(idx(a[1]), idx(a[2]));
                else if (a[3] == 1 || a[1] != 0 || a[2] != 0) c.get_sub_matrix(S, idx(a[1]), idx(a[2]));
                else c.get_sub_matrix(S);
            }
            meta(4, regs[D].q, regs[D].deg);
            return true;
        }
        if (op == "ssub")
        {
            if (!same(D, 4)) return false;
            try
            {
                if (a[3] == 0 || a[1] != 0 || a[2] != 0) X[d].set_sub_matrix(S, idx(a[1]), idx(a[2]));
                else X[d].set_sub_matrix(S);
            }
            catch (...) { scrub(D); throw; }
            return true;
        }
        if (op == "cp")
        {
            const size_t s = size_t(a[1]);
            if (a[2] == 0) X[d] = X[s];
            else if (a[2] == 1) { Matrix<M, N, T> t(X[s]); X[d] = t; }
            else { const Matrix<M, N, T>& t = (X[d] = X[s]); if (&t != &X[d]) ok = false; }
            meta(D, regs[s].q, regs[s].deg);
            return true;
        }
        if (op == "swap")
        {
            std::swap(X[d], X[a[1]]);
            std::swap(regs[D].q, regs[a[1]].q); std::swap(regs[D].deg, regs[a[1]].deg);
            return true;
        }
        if (op == "seti")
        {
            if (regs[D].q != 1 || (k != 0 && regs[D].deg != 1)) return false;
            std::vector<T> s;
            for (size_t i = 3; i < a.size(); ++i) s.push_back(pw2<T>(a[i], k));
            const size_t len = s.size();
            s.reserve(len + 1);
            if (a[2] > 3)
            {
                if (len != M * N || a[1] != 1) return false;
                T o[M][N];
                for (size_t i = 0; i < len; ++i) o[i / N][i % N] = s[i];
                const T* p = s.data();
                if (a[2] == 4) X[d] = o; else X[d] = p;
                return true;
            }
            if (a[2] == 0) X[d].set(s.begin(), s.end(), a[1] == 1);
            else if (a[2] == 1) { std::list<T> l(s.begin(), s.end()); X[d].set(l.begin(), l.end(), a[1] == 1); }
            else if (a[2] == 2) { const T* p = s.data(); X[d].set(p, p + len, a[1] == 1); }
            else { std::vector<double> t(s.begin(), s.end()); if (a[1] == 1) X[d].set(t.begin(), t.end()); else X[d].set(t.begin(), t.end(), false); }
            return true;
        }
        if (op == "setv")
        {
            std::vector<T> s;
            for (size_t i = 1; i < a.size(); ++i) s.push_back(pw2<T>(a[i], k));
            X[d] = s;
            meta(D, 1, 1);
            return true;
        }
        if (op == "dims")
        {
            reti(ll(X[d].get_number_of_rows())); reti(ll(X[d].get_number_of_columns())); reti(ll(X[d].size()));
            if (Matrix<M, N, T>::ROWS != X[d].get_number_of_rows() || Matrix<M, N, T>::COLS != X[d].get_number_of_columns()) ok = false;
            return true;
        }
        if (op == "eq")
        {
            const Matrix<M, N, T>&x_ = X[d], &y_ = X[a[1]];
            if (!same(D, int(a[1]))) return false;
            retb(x_ == y_); retb(x_ != y_); retb(y_ == x_); retb(y_ != x_);
            return true;
        }
        if (op == "nan")
        {
            if (!isFloat<T>() || a[2] < 0 || a[2] >= ll(M * N)) return false;
            const Matrix<M, N, T>& y_ = X[a[1]];
            Matrix<M, N, T> n = X[d];
            n.array[a[2]] = std::numeric_limits<T>::quiet_NaN();
            const T big = std::numeric_limits<T>::max();
            retb(n == y_); retb(n != y_); retb(n.equals(y_, big)); retb(y_.equals(n, big)); retb(n.equals(n, big));
            matrix_equals_allow_inverted_columns<Matrix<M, N, T>> fc;
            matrix_equals_allow_inverted_rows<Matrix<M, N, T>> fr;
            retb(fc(n, n)); retb(fr(n, n)); retb(fc(y_, n, big)); retb(fr(n, y_, big));
            return true;
        }
        return exec2(op, a);
    }
    template <typename TT> struct Eq { bool operator()(const TT& a, const TT& b) { return a == b; } };
    bool exec2(const std::string& op, const Ints& a) { return exec3(op, a, std::true_type()); }
    bool exec3(const std::string&, const Ints&, std::false_type) { return false; }
    bool exec3(const std::string& op, const Ints& a, std::true_type)
    {
        const size_t d = size_t(a[0]);
        const Matrix<M, N, T>&x_ = X[d], &y_ = X[a[1]];
        if (regs[d].q != 1 || regs[a[1]].q != 1) return false;
        if (k != 0 && (regs[d].deg != 1 || regs[a[1]].deg != 1)) return false;
        if (op == "near")
        {
            if (!isFloat<T>() && a[2] % 2 && a[3] != 2) return false;
            const T tol = isFloat<T>() ? T(std::ldexp(T(a[2]), k - 1)) : T(std::ldexp(LD(a[2] / 2), k));
            if (a[3] == 0) retb(x_.equals(y_, tol));
            else if (a[3] == 1) retb(vmml::equals(x_, y_, tol));
            else { if (a[2] != 1) return false; Eq<T> e; retb(x_.equals(y_, e)); }
            return true;
        }
        if (op == "sgeq")
        {
            if (a[3] > 0)
            {
                if (!std::is_signed<T>::value || (!isFloat<T>() && a[3] % 2)) return false;
                const T tol = isFloat<T>() ? T(std::ldexp(T(a[3]), k - 1)) : T(std::ldexp(LD(a[3] / 2), k));
                if (a[2] == 1) { matrix_equals_allow_inverted_columns<Matrix<M, N, T>> f; retb(f(x_, y_, tol)); }
                else { matrix_equals_allow_inverted_rows<Matrix<M, N, T>> f; retb(f(x_, y_, tol)); }
            }
            else if (a[2] == 1) { matrix_equals_allow_inverted_columns<Matrix<M, N, T>> f; retb(f(x_, y_)); }
            else { matrix_equals_allow_inverted_rows<Matrix<M, N, T>> f; retb(f(x_, y_)); }
            return true;
        }
        return false;
    }
};

// arithmetic ------------------------------------------------------------------
template <size_t M, size_t N, size_t P, typename T> struct MatArith : Machine
{
    Matrix<M, N, T> X[3];
    Matrix<N, P, T> Y;
    Matrix<M, P, T> Z;
    Matrix<N, M, T> W;
    Vector<N, T> v;
    Vector<M, T> w;
    MatArith()
    {
        for (int i = 0; i < 3; ++i) regs.push_back(mreg(X[i]));
        regs.push_back(mreg(Y)); regs.push_back(mreg(Z)); regs.push_back(mreg(W));
        regs.push_back(vreg(v)); regs.push_back(vreg(w));
    }
    // sc: the scalar is scaled by 2^k as well
    bool scalar(int d, int a, ll s, bool div, bool sc)
    {
        const int deg = regs[a].deg + (!sc ? 0 : div ? -1 : 1);
        if (sc && (k == 0 || !isFloat<T>() || !this->template expo<T>(deg))) return false;
        ll q = regs[a].q * (div ? std::llabs(s) : 1);
        LD m = maxabs(a) * (div ? 1 : std::llabs(s));
        if (s == 0 && div) return false;
        if (!isFloat<T>() && div) return false;
        if (!this->template fits<T>(m, q)) return false;
        meta(d, q, deg, m / q);
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        if (op == "ld") return load<T>(a);
        if (op == "add") { if (!this->template linear<T>(d, a[1], a[2])) return false; X[d] = X[a[1]] + X[a[2]]; return true; }
        if (op == "sub") { if (!this->template linear<T>(d, a[1], a[2])) return false; X[d] = X[a[1]] - X[a[2]]; return true; }
        if (op == "addip") { if (!this->template linear<T>(d, d, a[1])) return false; X[d] += X[a[1]]; return true; }
        if (op == "subip") { if (!this->template linear<T>(d, d, a[1])) return false; X[d] -= X[a[1]]; return true; }
        if (op == "neg")
        {
            const Matrix<M, N, T>& c = X[a[1]];
            meta(d, regs[a[1]].q, regs[a[1]].deg);
            if (a[2] == 0) X[d] = -c; else X[d] = c.negate();
            return true;
        }
        if (op == "shift")
        {
            if (k != 0 && regs[d].deg != 1) return false;
            if (!this->template fits<T>(maxabs(d) + std::llabs(a[2]) * regs[d].q, regs[d].q)) return false;
            if (a[1] == 0) X[d] += pw2<T>(a[2], k); else X[d] -= pw2<T>(a[2], k);
            return true;
        }
        if (op == "muls")
        {
            if (!scalar(d, a[1], a[3], false, a.size() > 4)) return false;
            const T f = a.size() > 4 ? pw2<T>(a[3], k) : T(a[3]);
            if (a[2] == 0) X[d] = X[a[1]] * f;
            else { if (d != a[1]) return false; X[d] *= f; }
            return true;
        }
        if (op == "divs")
        {
            if (a[2] == 1 && d != a[1]) return false;
            if (!scalar(d, a[1], a[3], true, a.size() > 4)) return false;
            const T f = a.size() > 4 ? pw2<T>(a[3], k) : T(a[3]);
            if (a[2] == 0) X[d] = X[a[1]] / f; else X[d] /= f;
            return true;
        }
        if (op == "divi")
        {
            if ((a[2] == 1 && d != a[1]) || isFloat<T>() || a[3] == 0 || k != 0) return false;
            meta(d, 1, 0);
            if (a[2] == 0) X[d] = X[a[1]] / T(a[3]); else X[d] /= T(a[3]);
            return true;
        }
        if (op == "sdivi")
        {
            if (isFloat<T>() || at(d, size_t(a[1]) * N + size_t(a[2])) == 0 || k != 0) return false;
            X[d] /= X[d](size_t(a[1]), size_t(a[2]));
            return true;
        }
        if (op == "self")
        {
            if (!this->template product<T>(d, d, d, 1)) return false;
            X[d] *= X[d](size_t(a[1]), size_t(a[2]));
            return true;
        }
        if (op == "selfd")
        {
            const ll e = at(d, size_t(a[1]) * N + size_t(a[2])), q = std::llabs(e);
            if (e == 0 || !isFloat<T>() || regs[d].q != 1) return false;
            if (!this->template fits<T>(maxabs(d), q)) return false;
            X[d] /= X[d](size_t(a[1]), size_t(a[2]));
            meta(d, q, 0, maxabs(d) / q);
            return true;
        }
        if (op == "selfs")
        {
            // += or -= an element of its own
            if (!this->template fits<T>(2 * maxabs(d), regs[d].q)) return false;
            T& e = X[d](size_t(a[1]), size_t(a[2]));
            if (a[3] == 0) X[d] += e; else X[d] -= e;
            regs[d].mag = 2 * maxabs(d) / regs[d].q;
            return true;
        }
        if (op == "pw") { if (!this->template product<T>(d, d, a[1], 1)) return false; X[d].multiply_piecewise(X[a[1]]); return true; }
        if (op == "mul")
        {
            const Matrix<M, N, T>& c = X[d];
            if (!this->template product<T>(4, d, 3, N)) return false;
            if (a[1] == 0) Z = c * Y; else if (a[1] == 1) Z.multiply(c, Y); else vmml::multiply<M, P, N, T>(c, Y, Z);
            return true;
        }
        if (op == "tr")
        {
            const Matrix<M, N, T>& c = X[d];
            meta(5, regs[d].q, regs[d].deg);
            if (a[1] == 0) W = transpose(c); else c.transpose_to(W);
            return true;
        }
        if (op == "trb")
        {
            const Matrix<N, M, T>& c = W;
            meta(d, regs[5].q, regs[5].deg);
            if (a[1] == 0) X[d] = transpose(c); else c.transpose_to(X[d]);
            return true;
        }
        if (op == "mv")
        {
            const Matrix<M, N, T>& c = X[d];
            if (!this->template product<T>(7, d, 6, N)) return false;
            w = c * v;
            return true;
        }
        return square(op, a, std::integral_constant<bool, M == N>());
    }
    bool square(const std::string&, const Ints&, std::false_type) { return false; }
    bool square(const std::string& op, const Ints& a, std::true_type)
    {
        const int d = int(a[0]);
        if (op == "sqm")
        {
            if (a[3] != 0 && (d == a[1] || d == a[2])) return false;
            if (!this->template product<T>(d, a[1], a[2], N)) return false;
            if (a[3] == 0) X[d] = X[a[1]] * X[a[2]];
            else if (a[3] == 1) X[d].multiply(X[a[1]], X[a[2]]);
            else freeMul(X[a[1]], X[a[2]], X[d], std::integral_constant<bool, M == P>());
            return true;
        }
        if (op == "sqip")
        {
            if (!this->template product<T>(d, d, a[1], N)) return false;
            X[d] *= X[a[1]];
            return true;
        }
        return false;
    }
    template <typename X_> void freeMul(const X_& a, const X_& b, X_& c, std::true_type) { vmml::multiply<M, N, T>(a, b, c); }
    template <typename X_> void freeMul(const X_& a, const X_& b, X_& c, std::false_type) { c.multiply(a, b); }
};

// exact determinant of numerators (resolution only)
inline LD detOf(const std::vector<ll>& m, size_t n)
{
    if (n == 0) return 1;
    if (n == 1) return LD(m[0]);
    LD s = 0;
    for (size_t j = 0; j < n; ++j)
    {
        if (m[j] == 0) continue;
        std::vector<ll> c;
        for (size_t i = 1; i < n; ++i)
            for (size_t l = 0; l < n; ++l)
                if (l != j) c.push_back(m[i * n + l]);
        s += (j % 2 ? -1 : 1) * LD(m[j]) * detOf(c, n - 1);
    }
    return s;
}
inline LD permBound(LD mx, size_t n) { LD r = 1; for (size_t i = 0; i < n; ++i) r *= mx * (i + 1); return r; }

template <size_t M, typename T> struct MatSquare : Machine
{
    Matrix<M, M, T> X[2];
    Matrix<(M > 1 ? M - 1 : 1), (M > 1 ? M - 1 : 1), T> m_;
    Vector<M, T> u;
    MatSquare()
    {
        regs.push_back(mreg(X[0])); regs.push_back(mreg(X[1]));
        regs.push_back(mreg(m_)); regs.push_back(vreg(u));
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        if (op == "ld") return load<T>(a);
        if (op == "diag") { if (regs[3].q != 1) return false; X[d].diag(u); meta(d, regs[3].q, regs[3].deg); return true; }
        if (op == "ident")
        {
            if (a[1] == 0) identity(X[d]); else if (a[1] == 1) X[d] = Matrix<M, M, T>::IDENTITY; else X[d] = Matrix<M, M, T>();
            meta(d, 1, 0);
            return true;
        }
        if (op == "scov")
        {
            if (!expo<T>(2 * regs[a[1]].deg)) return false;
            if (d == a[1] || regs[a[1]].q != 1) return false;
            LD b = maxabs(int(a[1])); b = b * b * M;
            if (b > limInt<T>()) return false;
            const Matrix<M, M, T>& c = X[a[1]];
            c.symmetric_covariance(X[d]);
            meta(d, 1, 2 * regs[a[1]].deg, b);
            return true;
        }
        return det(op, a, std::integral_constant<bool, (M <= 4)>()) || minors(op, a, std::integral_constant<bool, (M >= 2 && M <= 5)>()) ||
               inv(op, a, std::integral_constant<bool, (M >= 2 && M <= 4) && !std::numeric_limits<T>::is_integer>()) ||
               posd(op, a, std::integral_constant<bool, (M <= 3)>());
    }
    bool intval(int a) const { return regs[a].q == 1; }
    bool det(const std::string&, const Ints&, std::false_type) { return false; }
    bool det(const std::string& op, const Ints& a, std::true_type)
    {
        if (op != "det") return false;
        const int d = int(a[0]);
        LD b = permBound(maxabs(d), M);
        if (!expo<T>(int(M) * regs[d].deg)) return false;
        if (!intval(d) || b > limInt<T>() * (isF32<T>() ? 1 : 8)) return false;
        const Matrix<M, M, T>& c = X[d];
        ret(a[1] == 0 ? c.det() : compute_determinant(c), int(M) * regs[d].deg, b);
        return true;
    }
    bool minors(const std::string&, const Ints&, std::false_type) { return false; }
    bool minors(const std::string& op, const Ints& a, std::true_type)
    {
        if (op != "minor" && op != "cof" && op != "adj") return false;
        const int s = int(op == "minor" ? a[0] : a[1]), d = int(a[0]);
        LD b = permBound(maxabs(s), M - 1);
        if (!intval(s) || b > limInt<T>() * (isF32<T>() ? 1 : 8)) return false;
        const Matrix<M, M, T>& c = X[s];
        const int deg = int(M - 1) * regs[s].deg;
        if (!expo<T>(deg)) return false;
        if (op == "minor")
        {
            try { T v = c.get_minor(m_, idx(a[1]), idx(a[2])); ret(v, deg, b); }
            catch (...) { scrub(2); throw; }
            meta(2, 1, regs[s].deg);
        }
        else
        {
            if (d == s) return false;
            if (op == "cof") c.get_cofactors(X[d]); else c.get_adjugate(X[d]);
            meta(d, 1, deg, b);
        }
        return true;
    }
    bool inv(const std::string&, const Ints&, std::false_type) { return false; }
    bool inv(const std::string& op, const Ints& a, std::true_type)
    {
        if (op != "inv") return false;
        const int d = int(a[0]), s = int(a[1]);
        if (d == s || !intval(s)) return false;
        if (k != 0 && (regs[s].deg != 1)) return false;
        if (k < 0 && a[2] < 0) return false;
        const LD dt = detOf(regs[s].last, M);
        const LD b = permBound(maxabs(s), M);
        if (b > limInt<T>() || std::fabs(dt) > (isF32<T>() ? 1000 : 1e6)) return false;
        if (isF32<T>() && b / std::max(LD(1), std::fabs(dt)) * permBound(maxabs(s), M - 1) > 4e4) return false;
        // the destination's previous content must not matter
        Matrix<M, M, T> t(X[d]);
        const Matrix<M, M, T>& c = X[s];
        const T tol = a[2] < 0 ? T(0) : T(std::ldexp(T(a[2]), k * int(M)));
        bool res;
        if (a[3] == 0) res = a[2] < 0 ? c.inverse(t) : c.inverse(t, tol);
        else res = a[2] < 0 ? compute_inverse(c, t) : compute_inverse(c, t, tol);
        retb(res);
        if (res)
        {
            X[d] = t;
            meta(d, dt == 0 ? 1 : ll(std::fabs(dt)), -regs[s].deg, dt == 0 ? 0 : b * permBound(maxabs(s), M - 1) / (dt * dt));
        }
        else scrub(d);
        return true;
    }
    bool posd(const std::string&, const Ints&, std::false_type) { return false; }
    bool posd(const std::string& op, const Ints& a, std::true_type)
    {
        if (op != "posd") return false;
        const int d = int(a[0]);
        if (!intval(d) || permBound(maxabs(d), M) > limInt<T>()) return false;
        if (k < 0 || (k > 0 && regs[d].deg != 1)) return false;
        const Matrix<M, M, T>& c = X[d];
        retb(a[1] == 0 ? is_positive_definite(c) : is_positive_definite(c, T(isFloat<T>() ? -0.5 : 0)));
        return true;
    }
};

// structured products ---------------------------------------------------------
template <size_t M, size_t N, size_t A, size_t B, typename T> struct MatProd : Machine
{
    Matrix<M, N, T> X;
    Matrix<A, B, T> G;
    Matrix<M * A, N * B, T> K;
    Matrix<A, N, T> H;
    Matrix<M * A, N, T> KR;
    Matrix<M + A, N + B, T> D;
    Vector<M, T> u;
    Vector<N, T> v;
    Matrix<M, M, T> C;
    Matrix<(M / 2 ? M / 2 : 1), N, T> HR;
    Matrix<M, (N / 2 ? N / 2 : 1), T> HC;
    MatProd()
    {
        regs.push_back(mreg(X)); regs.push_back(mreg(G)); regs.push_back(mreg(K)); regs.push_back(mreg(H));
        regs.push_back(mreg(KR)); regs.push_back(mreg(D)); regs.push_back(vreg(u)); regs.push_back(vreg(v));
        regs.push_back(mreg(C)); regs.push_back(mreg(HR)); regs.push_back(mreg(HC));
    }
    bool lim(LD b) const { return b <= limInt<T>(); }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld") return load<T>(a);
        for (auto& g : regs) if (g.q != 1 || !expo<T>(g.deg * 2)) return false;
        const Matrix<M, N, T>& c = X;
        if (op == "kron") { if (!lim(maxabs(0) * maxabs(1))) return false; c.kronecker_product(G, K); meta(2, 1, regs[0].deg + regs[1].deg); return true; }
        if (op == "khat") { if (!lim(maxabs(0) * maxabs(3))) return false; c.khatri_rao_product(H, KR); meta(4, 1, regs[0].deg + regs[3].deg); return true; }
        if (op == "dsum") { if (k != 0 && regs[0].deg != regs[1].deg) return false; D.direct_sum(c, G); meta(5, 1, regs[0].deg); return true; }
        if (op == "tens") { if (!lim(maxabs(6) * maxabs(7))) return false; X.tensor(u, v); meta(0, 1, regs[6].deg + regs[7].deg); return true; }
        if (op == "cov") { LD b = maxabs(0) * maxabs(0) * N; if (!lim(b)) return false; c.symmetric_covariance(C); meta(8, 1, 2 * regs[0].deg, b); return true; }
        if (op == "conv") { LD b = maxabs(0) * maxabs(1) * A * B; if (!lim(b)) return false; X.convolve(G); meta(0, 1, regs[0].deg + regs[1].deg, b); return true; }
        if (op == "srws") { return half(std::integral_constant<int, (M >= 2)>(), 9); }
        if (op == "scls") { return half(std::integral_constant<int, (N >= 2 ? 3 : 0)>(), 10); }
        if (op == "csum") { if (!lim(maxabs(0) * M)) return false; c.columnwise_sum(v); meta(7, 1, regs[0].deg, maxabs(0) * M); return true; }
        return false;
    }
    bool half(std::integral_constant<int, 0>, int) { return false; }
    bool half(std::integral_constant<int, 1>, int)
    {
        if (!lim(maxabs(0) * 2)) return false;
        const Matrix<M, N, T>& c = X; c.sum_rows(HR); meta(9, 1, regs[0].deg); return true;
    }
    bool half(std::integral_constant<int, 3>, int)
    {
        if (!lim(maxabs(0) * 2)) return false;
        const Matrix<M, N, T>& c = X; c.sum_columns(HC); meta(10, 1, regs[0].deg); return true;
    }
};

// reductions --------------------------------------------------------------------
template <size_t M, size_t N, typename T> struct MatReduce : Machine
{
    Matrix<M, N, T> X;
    MatReduce() { regs.push_back(mreg(X)); }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld") return load<T>(a);
        const Matrix<M, N, T>& c = X;
        rq = regs[0].q;
        const int deg = regs[0].deg;
        const LD mx = maxabs(0) / rq;
        if (!isFloat<T>() && (op == "pnor" ? a.size() > 2 : a.size() > 1 && op != "nnzt" && op != "thr"))
        {
            // a multiple of the matrix, up to the limits of the type
            const int e = int(a.back());
            if (k != 0 || std::ldexp(mx, e) > LD(std::numeric_limits<T>::max())) return false;
            Matrix<M, N, T> t;
            for (size_t i = 0; i < M * N; ++i) t.array[i] = T(LD(c.array[i]) * std::ldexp(LD(1), e));
            const Matrix<M, N, T>& b = t;
            const LD u = std::ldexp(LD(1), -e);
            if (op == "min") ret(LD(b.get_min()) * u);
            else if (op == "max") ret(LD(b.get_max()) * u);
            else if (op == "amin") ret(LD(b.get_abs_min()) * u);
            else if (op == "amax") ret(LD(b.get_abs_max()) * u);
            else if (op == "sum") { if (mx * M * N > limInt<double>()) return false; ret(double(b.sum_elements() * u), 0, mx * M * N); }
            else if (op == "frob") { if (mx * mx * M * N > limInt<double>()) return false; retp<double>(b.frobenius_norm() * u, 2); }
            else if (op == "pnor")
            {
                LD x_ = M * N; for (ll i = 0; i < a[1]; ++i) x_ *= mx;
                if (x_ > limInt<double>()) return false;
                retp<double>(b.p_norm(double(a[1])) * u, int(a[1]));
            }
            else return false;
            return true;
        }
        if (op == "min") { ret(c.get_min(), deg); return true; }
        if (op == "max") { ret(c.get_max(), deg); return true; }
        if (op == "amin") { ret(c.get_abs_min(), deg); return true; }
        if (op == "amax") { ret(c.get_abs_max(), deg); return true; }
        if (op == "sum") { if (mx * M * N > (rq == 1 ? limInt<double>() : limInt<T>())) return false; if (rq == 1) ret<double>(c.sum_elements(), deg, mx * M * N); else ret<T>(T(c.sum_elements()), deg, mx * M * N); return true; }
        if (rq != 1) return false;
        if (op == "nnz") { reti(ll(c.nnz())); return true; }
        if (k != 0 && deg != 1) return false;
        if (op == "nnzt") { reti(ll(c.nnz(pw2<T>(a[1], k)))); return true; }
        if (op == "thr") { X.threshold(pw2<T>(a[1], k)); return true; }
        if (op == "frob") { LD b = mx * mx * M * N; if (mx * mx > limInt<decltype(T() * T())>() || b > limInt<double>() || !expo<T>(2)) return false; retp<double>(c.frobenius_norm(), 2, deg); return true; }
        if (op == "pnor")
        {
            LD b = M * N; for (ll i = 0; i < a[1]; ++i) b *= mx;
            if (b > limInt<double>() || !expo<T>(int(a[1]))) return false;
            retp<double>(c.p_norm(double(a[1])), int(a[1]), deg);
            return true;
        }
        return false;
    }
};

// conversions ---------------------------------------------------------------------
template <size_t M, size_t N, typename T, size_t P, size_t Q, typename U> struct MatConv : Machine
{
    Matrix<M, N, T> X;
    Matrix<P, Q, U> Y;
    Matrix<M, N, U> Z;
    MatConv() { regs.push_back(mreg(X)); regs.push_back(mreg(Y)); regs.push_back(mreg(Z)); }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = int(a[0]);
        if (op == "ld") return d == 0 ? load<T>(a) : load<U>(a);
        if (op == "dflt")
        {
            if (d == 0) X = Matrix<M, N, T>(); else if (d == 1) Y = Matrix<P, Q, U>(); else Z = Matrix<M, N, U>();
            meta(d, 1, 0); return true;
        }
        if (op == "zer")
        {
            if (d == 0) X.zero(); else if (d == 1) Y.zero(); else Z.zero();
            meta(d, 1, 0); return true;
        }
        if (op == "arr")
        {
            if (d == 0) arr(X, a); else if (d == 1) arr(Y, a); else arr(Z, a);
            meta(d, 1, 0); return true;
        }
        const int s = int(a[1]);
        if (regs[s].q != 1) return false;
        if ((isF32<T>() || isF32<U>()) && maxabs(s) > 1 << 24) return false;
        if (maxabs(s) > LD(std::numeric_limits<T>::max()) || maxabs(s) > LD(std::numeric_limits<U>::max())) return false;
        for (ll e : regs[s].last) if (e < 0 && (LD(e) < LD(std::numeric_limits<T>::lowest()) || LD(e) < LD(std::numeric_limits<U>::lowest()))) return false;
        if (op == "cvt")
        {
            if (d == 0 && s == 1) cvt(X, Y, a[2]); else if (d == 1 && s == 0) cvt(Y, X, a[2]);
            else if (d == 0 && s == 2) cvt(X, Z, a[2]); else if (d == 2 && s == 0) cvt(Z, X, a[2]);
            else if (d == 1 && s == 2) cvt(Y, Z, a[2]); else if (d == 2 && s == 1) cvt(Z, Y, a[2]);
            else return false;
        }
        else if (op == "cast")
        {
            if (d == 0 && s == 2) X.cast_from(Z); else if (d == 2 && s == 0) Z.cast_from(X); else return false;
        }
        else return false;
        meta(d, 1, regs[s].deg);
        return true;
    }
    template <typename A_, typename B_> void cvt(A_& x_, const B_& y_, ll form)
    {
        if (form == 0) x_ = y_; else { A_ t(y_); x_ = t; }
    }
    template <size_t R, size_t C, typename V> void arr(Matrix<R, C, V>& m, const Ints& a)
    {
        if (a[1] == 0)
        {
            V o[R][C];
            for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) o[i][j] = V(a[2 + i * C + j]);
            m = o;
        }
        else
        {
            V o[R * C];
            for (size_t i = 0; i < R * C; ++i) o[i] = V(a[2 + i]);
            const V* p = o;
            m = p;
        }
    }
};

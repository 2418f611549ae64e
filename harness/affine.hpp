// Affine transforms, matrix-vector products, quaternions
#pragma once
#include "common.hpp"
using namespace vmml;

template <typename T> T angleOf(ll c, ll s, ll turns)
{
    return T(std::atan2(LD(s), LD(c)) + LD(turns) * 2 * std::acos(LD(-1)));
}

template <typename T> struct Affine : Machine
{
    typedef Matrix<4, 4, T> Mat;
    Mat X[2];
    Vector<3, T> v[2];
    Affine()
    {
        // space scaled by 2^k: translations are scaled, the linear part is not
        for (int i = 0; i < 2; ++i)
        {
            Reg g = mreg(X[i]);
            Mat& c = X[i];
            g.read = [this, &c](std::vector<LD>& o) {
                o.resize(16);
                for (int j = 0; j < 16; ++j) o[j] = std::ldexp(LD(c(j / 4, j % 4)), -degOf(j) * k);
            };
            g.write = [this, &c](size_t j, LD x) { c(j / 4, j % 4) = T(std::ldexp(x, degOf(int(j)) * k)); };
            regs.push_back(g);
        }
        regs.push_back(vreg(v[0])); regs.push_back(vreg(v[1]));
        regs[2].deg = regs[3].deg = 1;
    }
    static int degOf(int j) { return (j % 4 == 3) - (j / 4 == 3); }
    // d := X[s] composed with something of denominator h and numerators <= f
    bool comp(int d, int s, ll h, LD f)
    {
        ll q = regs[s].q * h;
        LD m = maxabs(s) * f;
        if (!this->template fits<T>(m, q)) return false;
        if (q != 1 && isF32<T>() && m > 40000) return false;
        meta(d, q, 0, m / q);
        return true;
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        if (op == "ld")
        {
            if (d > 1) return load<T>(a);
            if (a.size() != 18) return false;
            for (size_t i = 2; i < a.size(); ++i)
            {
                LD x = LD(T(T(a[i]) / T(a[1])));
                if (x == 0 && (i + loads) % 3 == 0) x = -x;
                regs[d].write(i - 2, x);
            }
            ++loads;
            meta(d, a[1], 0);
            return true;
        }
        if (op == "cp") { X[d] = X[a[1]]; meta(d, regs[a[1]].q, 0); return true; }
        if (op == "mul") { if (!this->template product<T>(d, a[1], a[2], 4)) return false; X[d] = X[a[1]] * X[a[2]]; return true; }
        if (op == "mulip") { if (!this->template product<T>(d, d, a[1], 4)) return false; X[d] *= X[a[1]]; return true; }
        if (op == "tr") { if (d == a[1] || k != 0) return false; X[a[1]].transpose_to(X[d]); meta(d, regs[a[1]].q, 0); return true; }
        if (op == "idn") { if (a[1] == 0) identity(X[d]); else X[d] = Mat(); meta(d, 1, 0); return true; }
        if (op == "rot" || op == "arot")
        {
            // d c s h x y z n form turns
            const ll h = a[3] * a[7] * a[7];
            const T th = angleOf<T>(a[1], a[2], a[9]);
            const Vector<3, T> ax(T(a[4]) / T(a[7]), T(a[5]) / T(a[7]), T(a[6]) / T(a[7]));
            if (op == "rot")
            {
                if (h > 4000) return false;
                switch (a[8])
                {
                case 0: { const Mat& r_ = X[d].rotate(th, ax); if (&r_ != &X[d]) ok = false; break; }
                case 1: X[d] = create_rotation(th, ax); break;
                case 2: X[d] = create_rotation<4, 4, T>(th, ax); break;
                default: X[d].rotate(LD(th), ax); break;
                }
                meta(d, h, 0, isF32<T>() ? 4 : 1);
                return true;
            }
            if (!comp(d, d, h, LD(h) * 4)) return false;
            apply_rotation(X[d], th, ax.x(), ax.y(), ax.z());
            return true;
        }
        if (op == "rax" || op == "pra")
        {
            // d axis c s h form turns
            if (!comp(d, d, a[4], LD(a[4]) * 2)) return false;
            const T th = angleOf<T>(a[2], a[3], a[6]);
            const double td = double(th);
            const Mat* r_ = 0;
            if (op == "rax")
            {
                if (a[1] == 0) r_ = a[5] ? &X[d].rotate_x(td) : &X[d].rotate_x(th);
                else if (a[1] == 1) r_ = a[5] ? &X[d].rotate_y(td) : &X[d].rotate_y(th);
                else r_ = a[5] ? &X[d].rotate_z(td) : &X[d].rotate_z(th);
            }
            else
            {
                if (a[1] == 0) r_ = a[5] ? &X[d].pre_rotate_x(td) : &X[d].pre_rotate_x(th);
                else if (a[1] == 1) r_ = a[5] ? &X[d].pre_rotate_y(td) : &X[d].pre_rotate_y(th);
                else r_ = a[5] ? &X[d].pre_rotate_z(td) : &X[d].pre_rotate_z(th);
            }
            if (r_ != &X[d]) ok = false;
            return true;
        }
        if (op == "gtra")
        {
            // s d form
            const Mat& c = X[d];
            if (a[2] == 0) v[a[1] - 2] = c.get_translation();
            else if (a[2] == 1) c.get_translation(v[a[1] - 2]);
            else { Vector<3, double> t; c.get_translation(t); for (int i = 0; i < 3; ++i) v[a[1] - 2].at(i) = T(t.at(i)); }
            meta(int(a[1]), regs[d].q, 1);
            return true;
        }
        if (op == "wxyz")
        {
            // the other elements keep their unit
            if (!this->template fits<T>(std::fabs(LD(a[2])) * regs[d].q, regs[d].q)) return false;
            (a[1] == 0 ? X[d].x() : a[1] == 1 ? X[d].y() : X[d].z()) = std::ldexp(T(a[2]), k);
            return true;
        }
        if (op == "rxyz") { rq = regs[d].q; ret<T>(a[1] == 0 ? X[d].x() : a[1] == 1 ? X[d].y() : X[d].z(), 1); return true; }
        if (op == "pt")
        {
            const Mat& c = X[d];
            const Vector<3, T>& x = v[a[1] - 2];
            ll w = regs[a[1]].q * at(d, 15);
            for (int j = 0; j < 3; ++j) w += at(d, 12 + j) * at(int(a[1]), j);
            const LD m = maxabs(d) * maxabs(int(a[1])) * 4 + maxabs(d) * regs[a[1]].q;
            if (w == 0 || std::llabs(w) > (isF32<T>() ? 500 : 4000) || m > (isF32<T>() ? 2000 : 100000)) return false;
            v[1] = c * x;
            meta(3, std::llabs(w), 1, m / std::llabs(w));
            return true;
        }
        // d q x y z form
        if (a.size() < 6) return false;
        const int e = op == "stra" || op == "ctra" || op == "atra" ? k : 0; // lengths
        const T x = std::ldexp(T(a[2]) / T(a[1]), e), y = std::ldexp(T(a[3]) / T(a[1]), e), z = std::ldexp(T(a[4]) / T(a[1]), e);
        const LD mx = std::max(std::fabs(LD(a[2])), std::max(std::fabs(LD(a[3])), std::fabs(LD(a[4]))));
        const Vector<3, T> u(x, y, z);
        const Vector<3, double> ud(x, y, z);
        const double pd[3] = { double(x), double(y), double(z) };
        if (op == "scl")
        {
            if (!comp(d, d, a[1], std::max(mx, LD(a[1])))) return false;
            const Mat* r_ = a[5] == 0 ? &X[d].scale(u) : a[5] == 1 ? &X[d].scale(x, y, z)
                : a[5] == 2 ? &X[d].scale(u.array) : a[5] == 3 ? &X[d].scale(ud) : &X[d].scale(pd);
            if (r_ != &X[d]) ok = false;
            return true;
        }
        if (op == "sctr")
        {
            if (!comp(d, d, a[1], std::max(mx, LD(a[1])))) return false;
            const Mat* r_ = a[5] == 0 ? &X[d].scale_translation(u) : a[5] == 1 ? &X[d].scale_translation(u.array)
                : a[5] == 2 ? &X[d].scale_translation(ud) : &X[d].scale_translation(pd);
            if (r_ != &X[d]) ok = false;
            return true;
        }
        if (op == "stra")
        {
            const ll q = lcm(regs[d].q, a[1]);
            const LD m = std::max(maxabs(d) * (q / regs[d].q), mx * (q / a[1]));
            if (!this->template fits<T>(m, q)) return false;
            const Mat* r_ = a[5] == 0 ? &X[d].set_translation(u) : a[5] == 1 ? &X[d].set_translation(x, y, z)
                : a[5] == 2 ? &X[d].set_translation(u.array) : a[5] == 3 ? &X[d].set_translation(ud) : &X[d].set_translation(pd);
            if (r_ != &X[d]) ok = false;
            meta(d, q, 0, m / q);
            return true;
        }
        if (op == "cscl")
        {
            if (a[5] == 0) X[d] = create_scaling(u);
            else if (a[5] == 1) X[d] = create_scaling<4, 4, T>(u);
            else { if (a[2] != a[3] || a[2] != a[4]) return false; X[d] = create_scaling(x); }
            meta(d, a[1], 0);
            return true;
        }
        if (op == "ctra")
        {
            if (a[5] == 0) X[d] = create_translation(u); else X[d] = create_translation<4, 4, T>(u);
            meta(d, a[1], 0);
            return true;
        }
        if (op == "atra")
        {
            if (!comp(d, d, a[1], 3 * mx + a[1])) return false;
            apply_translation(X[d], x, y, z);
            return true;
        }
        return false;
    }
};

template <size_t M, size_t N, typename T> struct MatVec : Machine
{
    Matrix<M, N, T> X[2];
    Vector<N, T> v;
    Vector<M, T> w;
    Vector<N - 1, T> p[2];
    MatVec()
    {
        regs.push_back(mreg(X[0])); regs.push_back(mreg(X[1]));
        regs.push_back(vreg(v)); regs.push_back(vreg(w));
        regs.push_back(vreg(p[0])); regs.push_back(vreg(p[1]));
    }
    bool exec(const std::string& op, const Ints& a)
    {
        if (op == "ld")
        {
            if (a[0] < 4) return load<T>(a);
            // points are not scaled
            const int e = k;
            k = 0;
            const bool done = load<T>(a);
            k = e;
            regs[a[0]].deg = 0;
            return done;
        }
        if (op == "cp") { X[a[0]] = X[a[1]]; meta(int(a[0]), regs[a[1]].q, regs[a[1]].deg); return true; }
        if (op == "mv")
        {
            if (!this->template product<T>(3, int(a[0]), 2, N)) return false;
            const Matrix<M, N, T>& c = X[a[0]];
            const Vector<N, T>& x = v;
            w = c * x;
            return true;
        }
        if (op == "gtr") { if (k != 0 && regs[a[0]].deg != 1) return false; return gtr(X[a[0]], a, std::integral_constant<bool, (N > 1 && M + 1 >= N)>()); }
        return square(op, a, std::integral_constant<bool, M == N>());
    }
    bool gtr(const Matrix<M, N, T>&, const Ints&, std::false_type) { return false; }
    bool gtr(const Matrix<M, N, T>& c, const Ints& a, std::true_type)
    {
        // matrix, destination, form
        Vector<N - 1, T>& o = p[a[1] - 4];
        o = Vector<N - 1, T>(T(77)); // nothing of it may survive
        if (a[2] == 0) o = c.get_translation();
        else if (a[2] == 1) c.get_translation(o);
        else { Vector<N - 1, long double> t; c.get_translation(t); for (size_t i = 0; i + 1 < N; ++i) o.at(i) = T(t.at(i)); }
        meta(int(a[1]), regs[a[0]].q, regs[a[0]].deg);
        return true;
    }
    bool square(const std::string&, const Ints&, std::false_type) { return false; }
    bool square(const std::string& op, const Ints& a, std::true_type)
    {
        if (op == "back") { v = w; meta(2, regs[3].q, regs[3].deg); return true; }
        if (op == "mm") { if (!this->template product<T>(int(a[0]), int(a[1]), int(a[2]), N)) return false; X[a[0]] = X[a[1]] * X[a[2]]; return true; }
        if (op == "chain")
        {
            const ll q = regs[a[0]].q * regs[a[1]].q * regs[2].q;
            const LD m = maxabs(int(a[0])) * maxabs(int(a[1])) * maxabs(2) * N * N;
            const int deg = regs[a[0]].deg + regs[a[1]].deg + regs[2].deg;
            if (!this->template fits<T>(m, q) || !this->template expo<T>(deg)) return false;
            w = (X[a[0]] * X[a[1]]) * v;
            meta(3, q, deg, m / q);
            return true;
        }
        if (op == "hom")
        {
            // matrix, source, destination
            const int s = int(a[1]), d = int(a[2]);
            const Matrix<M, N, T>& c = X[a[0]];
            if (!this->template expo<T>(regs[a[0]].deg) || (k != 0 && regs[s].deg != 0)) return false;
            ll h = regs[s].q * at(int(a[0]), M * N - 1);
            for (size_t j = 0; j + 1 < N; ++j) h += at(int(a[0]), (M - 1) * N + j) * at(s, j);
            const LD m = maxabs(int(a[0])) * maxabs(s) * N + maxabs(int(a[0])) * regs[s].q;
            if (h == 0 || std::llabs(h) > (isF32<T>() ? 500 : 4000) || m > (isF32<T>() ? 2000 : 100000)) return false;
            if (!isFloat<T>() && std::llabs(h) != 1) return false;
            const Vector<N - 1, T>& x = p[s - 4];
            p[d - 4] = c * x;
            meta(d, std::llabs(h), 0, m / std::llabs(h));
            return true;
        }
        return false;
    }
};

// quaternions ---------------------------------------------------------------------
template <typename T> struct Quat : Machine
{
    typedef Quaternion<T> Q;
    Q X[3];
    Vector<3, T> v[2];
    Matrix<3, 3, T> m3;
    Matrix<4, 4, T> m4;
    Quat()
    {
        for (int i = 0; i < 3; ++i) regs.push_back(qreg(X[i]));
        regs.push_back(vreg(v[0])); regs.push_back(vreg(v[1]));
        regs.push_back(mreg(m3)); regs.push_back(mreg(m4));
    }
    LD sq(int d) const { LD s = 0; for (ll x : regs[d].last) s += LD(x) * x; return s; }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        const int b = a.size() > 1 ? int(a[1]) : 0;
        if (op == "ld")
        {
            if (a.size() > 2 && a[0] >= 5)
            {
                // matrices are not scaled
                if (a.size() - 2 != regs[d].last.size()) return false;
                for (size_t i = 2; i < a.size(); ++i) regs[d].write(i - 2, LD(T(a[i]) / T(a[1])));
                meta(d, a[1], 0);
                return true;
            }
            return load<T>(a);
        }
        if (op == "cp") { if (a[2] == 0) X[d] = X[b]; else { const Q t(X[b]); X[d] = t; } meta(d, regs[b].q, regs[b].deg); return true; }
        if (op == "zero") { X[d].zero(); meta(d, 1, 0); return true; }
        if (op == "named")
        {
            if (b == 4) { if (a[2]) X[d] = Q::IDENTITY; else if (a.size() > 3 && a[3]) X[d] = Q(); else X[d].identity(); }
            else X[d] = b == 1 ? Q::QUATERI : b == 2 ? Q::QUATERJ : Q::QUATERK;
            meta(d, 1, 0);
            return true;
        }
        if (op == "set")
        {
            // d form x y z w
            const T x = pw2<T>(a[2], k), y = pw2<T>(a[3], k), z = pw2<T>(a[4], k), w = pw2<T>(a[5], k);
            Vector<3, T> xyz(x, y, z);
            T arr[5] = { x, y, z, w, T(77) };
            switch (a[1])
            {
            case 0: X[d] = Q(x, y, z, w); break;
            case 1: X[d].set(x, y, z, w); break;
            case 2: X[d] = Q(xyz, w); break;
            case 3: X[d].set(xyz, w); break;
            case 4: X[d].set(arr, arr + 4); break;
            case 5: X[d] = Vector<4, T>(x, y, z, w); break;
            case 6: X[d].iter_set(arr, arr + 4); break;
            case 7: X[d].x() = x; X[d].y() = y; X[d].z() = z; X[d].w() = w; break;
            case 8: for (int i = 0; i < 4; ++i) X[d].at(i) = arr[i]; break;
            case 9: for (int i = 0; i < 4; ++i) X[d](i) = arr[i]; break;
            default: for (int i = 0; i < 4; ++i) X[d].array[i] = arr[i]; break;
            }
            meta(d, 1, 1);
            return true;
        }
        const Q& y = X[b < 3 ? b : 0];
        if (op == "add" || op == "sub" || op == "mul")
        {
            const int c = int(a[2]);
            const Q& z = X[c];
            if (op == "mul") { if (!this->template product<T>(d, b, c, 8)) return false; X[d] = y * z; return true; }
            if (!this->template linear<T>(d, b, c)) return false;
            X[d] = op == "add" ? y + z : y - z;
            return true;
        }
        if (op == "addip") { if (!this->template linear<T>(d, d, b)) return false; X[d] += y; return true; }
        if (op == "subip") { if (!this->template linear<T>(d, d, b)) return false; X[d] -= y; return true; }
        if (op == "mulip") { if (!this->template product<T>(d, d, b, 8)) return false; X[d] *= y; return true; }
        if (op == "muls")
        {
            if (a[3] == 1 && d != b) return false;
            const LD m = maxabs(b) * std::llabs(a[2]);
            if (!this->template fits<T>(m, regs[b].q)) return false;
            // a further argument: the factor is scaled as well
            const int deg = regs[b].deg + (a.size() > 4);
            if (a.size() > 4 && (k == 0 || !this->template expo<T>(deg))) return false;
            const T f = a.size() > 4 ? pw2<T>(a[2], k) : T(a[2]);
            if (a[3] == 0) X[d] = y * f; else X[d] *= f;
            meta(d, regs[b].q, deg, m / regs[b].q);
            return true;
        }
        if (op == "divs")
        {
            if (a[3] == 1 && d != b) return false;
            const ll q = regs[b].q * std::max(ll(1), ll(std::llabs(a[2])));
            if (!this->template fits<T>(maxabs(b), q)) return false;
            const int deg = regs[b].deg - (a.size() > 4);
            if (a.size() > 4 && (k == 0 || !this->template expo<T>(deg))) return false;
            const T f = a.size() > 4 ? pw2<T>(a[2], k) : T(a[2]);
            if (a[3] == 0) X[d] = y / f; else X[d] /= f;
            meta(d, q, deg);
            return true;
        }
        if (op == "neg") { meta(d, regs[b].q, regs[b].deg); X[d] = a[2] == 0 ? -y : y.negate(); return true; }
        if (op == "conj")
        {
            if (a[2] == 1) { if (d != b) return false; X[d].conjugate(); return true; }
            meta(d, regs[b].q, regs[b].deg);
            X[d] = y.get_conjugate();
            return true;
        }
        if (op == "inv")
        {
            const LD s = sq(b);
            if (s == 0 || s > (isF32<T>() ? 1000 : 4000) || !this->template expo<T>(2 * regs[b].deg)) return false;
            const LD m = maxabs(b) * regs[b].q;
            if (m > 2000) return false;
            Q t(X[b]);
            meta(d, ll(s), -regs[b].deg, m / s);
            X[d] = d == b ? X[b].inverse() : t.inverse();
            return true;
        }
        if (op == "addv" || op == "subv" || op == "mulv")
        {
            const int c = int(a[2]);
            const Vector<3, T>& z = v[c - 3];
            if (a[3] == 1 && d != b) return false;
            if (op == "mulv")
            {
                if (!this->template product<T>(d, b, c, 4)) return false;
                if (a[3] == 0) X[d] = y * z; else X[d] *= z;
                return true;
            }
            if (!this->template linear<T>(d, b, c)) return false;
            if (op == "addv") { if (a[3] == 0) X[d] = y + z; else X[d] += z; }
            else { if (a[3] == 0) X[d] = y - z; else X[d] -= z; }
            return true;
        }
        if (op == "fromv")
        {
            // d s w form
            if (regs[b].deg != 1 && k != 0) return false;
            const T w = pw2<T>(a[2], k);
            const Vector<3, T>& z = v[b - 3];
            if (a[3] == 0) X[d] = Q(z, w); else if (a[3] == 1) X[d].set(v[b - 3], w);
            else { if (a[2] != 0) return false; X[d] = Q(z); }
            meta(d, regs[b].q, regs[b].deg);
            return true;
        }
        if (op == "cross")
        {
            const int c = int(a[2]);
            if (!this->template product<T>(d, b, c, 2)) return false;
            v[d - 3] = y.cross(X[c]);
            return true;
        }
        if (op == "dot")
        {
            rq = regs[d].q * regs[b].q;
            const LD m = maxabs(d) * maxabs(b) * 4;
            const int deg = regs[d].deg + regs[b].deg;
            if (!this->template fits<T>(m, rq) || !this->template expo<T>(deg)) return false;
            const Q& x = X[d];
            ret(a[2] == 0 ? x.dot(y) : Q::dot(x, y), deg, m / rq);
            return true;
        }
        if (op == "sqabs" || op == "abs")
        {
            rq = regs[d].q * regs[d].q;
            const LD m = sq(d);
            if (!this->template fits<T>(m, rq) || (op == "abs" && !this->template rootable<T>(m)) || !this->template expo<T>(2 * regs[d].deg)) return false;
            const Q& x = X[d];
            if (op == "abs") retp<T>(x.abs(), 2, regs[d].deg, m / rq); else ret(x.squared_abs(), 2 * regs[d].deg, m / rq);
            return true;
        }
        if (op == "norm")
        {
            const LD m = sq(d);
            if (m > (isF32<T>() ? 3000 : 100000) || (regs[d].q > 16 && (regs[d].q & (regs[d].q - 1))) || !this->template expo<T>(2 * regs[d].deg)) return false;
            rq = std::max(ll(1), ll(m));
            const Q& x = X[d];
            Q t(x);
            if (a[1] == 0) t.normalize(); else t = x.get_normalized();
            for (int i = 0; i < 4; ++i) rets<T>(t.at(i));
            return true;
        }
        if (op == "eq")
        {
            if (k != 0 && regs[d].deg != regs[b].deg) return false;
            if (regs[d].q != regs[b].q || !exact(d) || !exact(b)) return false;
            const Q& x = X[d];
            retb(x == y); retb(x != y);
            const Vector<4, T> t(y.x(), y.y(), y.z(), y.w());
            retb(x == t); retb(x != t);
            return true;
        }
        if (op == "nan")
        {
            if (!exact(b) || !exact(d) || a[2] < 0 || a[2] > 3) return false;
            Q n = X[d], o = y;
            n.array[a[2]] = std::numeric_limits<T>::quiet_NaN();
            const T big = std::numeric_limits<T>::max();
            retb(n == o); retb(n != o); retb(n.is_akin(o, big)); retb(o.is_akin(n, big)); retb(n.is_akin(n, big));
            return true;
        }
        if (op == "eqs")
        {
            if (k != 0 && regs[d].deg != 1 && a[1] != 0) return false;
            if (!exact(d)) return false;
            const Q& x = X[d];
            const T s = pw2<T>(a[1], k);
            retb(x == s); retb(x != s);
            return true;
        }
        if (op == "near")
        {
            if (regs[d].q != 1 || regs[b].q != 1 || !exact(d) || !exact(b)) return false;
            if (k != 0 && (regs[d].deg != 1 || regs[b].deg != 1)) return false;
            if (isF32<T>() && std::abs(k) > 30) return false;
            if (a[3] == 1)
            {
                if (k != 0 || a[2] != 1) return false;
                retb(X[d].is_akin(y));
                return true;
            }
            retb(X[d].is_akin(y, T(std::ldexp(T(a[2]), k - 1))));
            return true;
        }
        if (op == "find")
        {
            if (!exact(d)) return false; // rounding breaks ties
            rq = regs[d].q;
            const Q& x = X[d];
            reti(ll(b == 0 ? x.find_min_index() : x.find_max_index()) * rq);
            ret<T>(b == 0 ? x.find_min() : x.find_max(), regs[d].deg);
            return true;
        }
        if (op == "tom")
        {
            if (regs[b].deg != 0 && k != 0) return false;
            const ll q = regs[b].q * regs[b].q;
            const LD m = maxabs(b) * maxabs(b) * 4;
            ll g = lcm(regs[d].q, q);
            if (d == 6)
            {
                if (g > 20000000) return false;
                if (maxabs(6) * (g / regs[6].q) > 2e8 || m * (g / q) > 2e8) return false;
                if (isF32<T>() && m * (g / q) > 40000) return false;
            }
            else g = q;
            if (m > (isF32<T>() ? 40000 : 2e8) || g > (isF32<T>() ? 8000 : 20000000)) return false;
            const Q& x = X[b];
            if (d == 6) x.get_rotation_matrix(m4);
            else if (a[2] == 0) m3 = x.get_rotation_matrix(); else x.get_rotation_matrix(m3);
            meta(d, g, 0, m / q);
            return true;
        }
        if (op == "frm")
        {
            // m form; only of rotation matrices: q^2 divides into unit rows
            const size_t D = d == 5 ? 3 : 4;
            const LD mq = LD(regs[d].q);
            for (size_t i = 0; i < 3; ++i)
                for (size_t j = i; j < 3; ++j)
                {
                    LD s = 0;
                    for (size_t l = 0; l < 3; ++l) s += LD(at(d, i * D + l)) * at(d, j * D + l);
                    if (s != (i == j ? mq * mq : 0)) return false;
                }
            LD det = 0;
            for (int i = 0; i < 3; ++i)
            {
                const int i1 = (i + 1) % 3, i2 = (i + 2) % 3;
                det += LD(at(d, i)) * (LD(at(d, D + i1)) * at(d, 2 * D + i2) - LD(at(d, D + i2)) * at(d, 2 * D + i1));
            }
            if (det <= 0) return false;
            const ll tr = at(d, 0) + at(d, D + 1) + at(d, 2 * D + 2) + regs[d].q;
            if (regs[d].q > (isF32<T>() ? 3000 : 20000000)) return false;
            // the precision is lost close to half turns
            if (LD(tr) / mq > 0.9e-5 && (isF32<T>() ? 5e-7L : 1e-15L) * 4 * mq * mq / LD(tr) > 0.1L) return false;
            Q t;
            if (d == 5) { if (a[1] == 0) t.set(m3); else t = Q(m3); }
            else { if (a[1] == 0) t.set(m4); else t = Q(m4); }
            rq = 4 * regs[d].q;
            const LD lose = isF32<T>() ? 2 : std::min(LD(1e5), 1 + mq / std::max(LD(1), LD(tr)));
            for (int i = 0; i < 4; ++i)
                for (int j = i; j < 4; ++j)
                    ret<T>(T(LD(t.at(i)) * t.at(j)), 0, tr == 0 ? 2 : lose);
            return true;
        }
        if (op == "mv")
        {
            if (!this->template fits<T>(maxabs(5) * maxabs(b) * 3, 1) || regs[5].q * regs[b].q > 4000) return false;
            if (!this->template product<T>(d, 5, b, 3)) return false;
            const Vector<3, T>& z = v[b - 3];
            v[d - 3] = m3 * z;
            return true;
        }
        if (op == "rot" || op == "rax")
        {
            // d s c s h x y z n scale turns | d s axis c s h turns
            const bool full = op == "rot";
            const ll hh = full ? a[4] : a[5], n = full ? a[8] : 1;
            const ll q = regs[b].q * hh * n * n;
            const LD m = maxabs(b) * 3 * hh * n * n;
            if (regs[b].deg != 1) return false;
            if (q > 50000 || m > (isF32<T>() ? 2e4 : 1e8) || (isF32<T>() && q > 5000)) return false;
            Q t;
            if (full)
            {
                if (b == 4) return false;
                const T th = angleOf<T>(a[2], a[3], a[10]);
                v[1] = Vector<3, T>(std::ldexp(T(a[5]), int(a[9])), std::ldexp(T(a[6]), int(a[9])), std::ldexp(T(a[7]), int(a[9])));
                const Vector<3, T> z(v[b - 3]);
                X[d] = t.rotate(th, v[1], z);
                meta(4, n, 0);
            }
            else
            {
                const T th = angleOf<T>(a[3], a[4], a[6]);
                const Vector<3, T>& z = v[b - 3];
                X[d] = a[2] == 0 ? t.rotate_x(th, z) : a[2] == 1 ? t.rotate_y(th, z) : t.rotate_z(th, z);
            }
            meta(d, q, regs[b].deg, m / q);
            return true;
        }
        if (op == "slrp")
        {
            // d p(4) np r(4) nr j m f1 f2: from f1 p to f2 p r^m at j / m
            LD p[4], r[4];
            ll den = a[5];
            for (int i = 0; i < 4; ++i) { p[i] = LD(a[1 + i]); r[i] = LD(a[6 + i]); }
            for (ll i = 0; i < a[11]; ++i) den *= a[10];
            LD qq[4] = { p[0], p[1], p[2], p[3] }, rp[4] = { 0, 0, 0, 1 };
            for (ll i = 0; i < a[12]; ++i) { mulq(qq, r); mulq(rp, r); if (rp[3] <= 0) return false; }
            if (den > 4000 || den < 1) return false;
            // not too close to 90 degrees
            LD len = 0;
            for (int i = 0; i < 4; ++i) len += rp[i] * rp[i];
            if (rp[3] / std::sqrt(len) < 0.003L) return false;
            const LD nq = std::sqrt(len) * a[5];
            const Q f(T(p[0] * a[13]), T(p[1] * a[13]), T(p[2] * a[13]), T(p[3] * a[13]));
            const LD s = LD(a[14]) * a[5] / nq;
            const Q g(T(qq[0] * s), T(qq[1] * s), T(qq[2] * s), T(qq[3] * s));
            X[d] = Q::slerp(T(a[11]) / T(a[12]), f, g);
            if (a[13] < 0) X[d] = -X[d];
            meta(d, den, 0, isF32<T>() ? 4 : 1);
            return true;
        }
        if (op == "slin")
        {
            // d p(4) np r(4) nr j m e1 e2 f1 f2: linear between f1 p and f2 p r, epsilon e1 / e2
            LD p[4], r[4];
            for (int i = 0; i < 4; ++i) { p[i] = LD(a[1 + i]); r[i] = LD(a[6 + i]); }
            LD g[4] = { p[0], p[1], p[2], p[3] };
            mulq(g, r);
            if (a[9] == 0) return false;
            // inside the epsilon, and not exactly on its border
            const ll c = std::llabs(a[9]) * a[14] - (a[14] - a[13]) * a[10];
            if (c <= 0) return false;
            const ll s = (a[9] < 0 ? -1 : 1);
            LD w[4], n = 0;
            for (int i = 0; i < 4; ++i)
            {
                w[i] = (a[12] - a[11]) * a[10] * p[i] + a[11] * s * g[i];
                n += w[i] * w[i];
            }
            if (n == 0 || n > (isF32<T>() ? 3000 : 100000)) return false;
            const Q x_(T(p[0] * a[15]), T(p[1] * a[15]), T(p[2] * a[15]), T(p[3] * a[15]));
            const Q y_(T(g[0] * a[16]), T(g[1] * a[16]), T(g[2] * a[16]), T(g[3] * a[16]));
            const Q t = Q::slerp(T(a[11]) / T(a[12]), x_, y_, T(a[13]) / T(a[14]));
            rq = ll(n);
            const T f = (a[15] < 0 ? -1 : 1);
            for (int i = 0; i < 4; ++i) rets<T>(t.at(i) * f, 0, isF32<T>() ? 2 : 1);
            return true;
        }
        if (op == "slend")
        {
            const LD m = std::max(sq(d), sq(b));
            LD dt = 0;
            for (int i = 0; i < 4; ++i) dt += LD(at(d, i)) * at(b, i);
            if (dt == 0 || sq(d) == 0 || sq(b) == 0) return false;
            if (m > (isF32<T>() ? 3000 : 100000) || (regs[d].q > 16 && (regs[d].q & (regs[d].q - 1))) || regs[b].q > 16 || regs[d].deg != 1 || regs[b].deg != 1) return false;
            if (!this->template expo<T>(2)) return false;
            const Q t = Q::slerp(T(a[2]), X[d], y);
            rq = std::max(ll(1), ll(a[2] == 0 ? sq(d) : sq(b)));
            for (int i = 0; i < 4; ++i) rets<T>(t.at(i), 0, isF32<T>() ? 2 : 1);
            return true;
        }
        return false;
    }
    static void mulq(LD* a, const LD* b)
    {
        const LD o[4] = { a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
                          a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
                          a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0],
                          a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2] };
        for (int i = 0; i < 4; ++i) a[i] = o[i];
    }
};

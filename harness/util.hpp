// Utility functions, named types
#pragma once
#define __OSG_MATH
#include "common.hpp"
#include <vmmlib/math.hpp>
#include <vmmlib/matrix_functors.hpp>
using namespace vmml;

template <typename T> struct Foreign3 // a vector of another library
{
    T a, b, c;
    T x() const { return a; }
    T y() const { return b; }
    T z() const { return c; }
};

template <typename E> int kindOf() { return isFloat<E>() ? 0 : std::is_signed<E>::value ? 1 : 2; }
template <typename X> struct Shape { static void get(Ints& o) { o = { 6, -1, ll(sizeof(X)) / 6, 0 }; } };
template <size_t M, size_t N, typename E> struct Shape<Matrix<M, N, E>> { static void get(Ints& o) { o = { ll(M), ll(N), ll(sizeof(E)), kindOf<E>() }; } };
template <size_t M, typename E> struct Shape<Vector<M, E>> { static void get(Ints& o) { o = { ll(M), 0, ll(sizeof(E)), kindOf<E>() }; } };
template <typename E> struct Shape<Quaternion<E>> { static void get(Ints& o) { o = { 4, -1, ll(sizeof(E)), kindOf<E>() }; } };
template <typename E> struct Shape<AABB<E>> { static void get(Ints& o) { o = { 6, -1, ll(sizeof(E)), kindOf<E>() }; } };
template <typename E> struct Shape<Frustum<E>> { static void get(Ints& o) { o = { 6, -1, ll(sizeof(E)), kindOf<E>() }; } };

template <size_t P, typename T> struct Util : Machine
{
    Vector<P, T> v[3];
    Matrix<4, 4, T> m;
    Vector<3, T> u[2];
    Util()
    {
        for (auto& x : v) { x = T(0); regs.push_back(vreg(x)); }
        regs.push_back(mreg(m));
        for (auto& x : u) { x = T(0); regs.push_back(vreg(x)); }
    }
    bool exec(const std::string& op, const Ints& a)
    {
        const int d = a.empty() ? 0 : int(a[0]);
        if (op == "ld") return load<T>(a);
        if (op == "ext")
        {
            const Vector<P, T>&x = v[d], &y = v[a[1]];
            if (k != 0 && regs[d].deg != regs[a[1]].deg) return false;
            if (!linear<T>(2, d, int(a[1]))) return false;
            v[2] = a[2] == 0 ? vmml::min(x, y) : vmml::max(x, y);
            return true;
        }
        if (op == "zero") { vmml::zero(v[d]); meta(d, 1, 0); return true; }
        if (op == "manh")
        {
            if (!fits<T>(maxabs(d) * P, regs[d].q)) return false;
            rq = regs[d].q;
            ret(T(vmml::manhattan(v[d])), regs[d].deg);
            return true;
        }
        if (op == "tens")
        {
            if (k != 0 || !product<T>(3, 4, 5, 1)) return false;
            if (!fits<T>(std::max(maxabs(4) * regs[5].q, maxabs(5) * regs[4].q), regs[4].q * regs[5].q)) return false;
            meta(3, regs[4].q * regs[5].q, 0);
            m.tensor(u[0], u[1]);
            return true;
        }
        if (op == "osg")
        {
            const Foreign3<T> f = { T(a[1]), T(a[2]), T(a[3]) };
            u[d - 4] = Vector<3, T>(f);
            meta(d, 1, 0);
            return true;
        }
        if (op == "eqf")
        {
            const double x = double(a[0]), y = x + std::ldexp(double(a[1]), -25);
            retb(vmml::equals(x, y));
            return true;
        }
        if (op == "eqi")
        {
            const T x = T(a[0]);
            retb(a[2] == 0 ? vmml::equals(x, T(a[1])) : a[2] == 1 ? vmml::equals(x, int(a[1])) : vmml::equals(short(a[0]), T(a[1])));
            return true;
        }
        if (op == "sq") { if (!fits<T>(LD(a[0]) * a[0], 1)) return false; ret(math::squared(T(a[0]))); return true; }
        if (op == "pyth")
        {
            if (!isFloat<T>()) return false;
            const int e = isF32<T>() ? int(a[2]) / 9 : int(a[2]);
            ret(T(std::ldexp(math::pythag(T(std::ldexp(T(a[0]), e)), T(std::ldexp(T(a[1]), e))), -e)));
            return true;
        }
        if (op == "sign") { ret(math::sign(T(a[0]), T(a[1]))); return true; }
        if (op == "absc") { math::abs_less<T> l; math::abs_greater<T> g; retb(l(T(a[0]), T(a[1]))); retb(g(T(a[0]), T(a[1]))); return true; }
        if (op == "type")
        {
#define S_(X) Shape<X>::get
#define B_(X, Y) (std::is_same<X, Y>::value ? &Shape<X>::get : &none)
            typedef void (*F)(Ints&);
            static const F f[] = { B_(Matrix3d, mat3d), B_(Matrix4d, mat4d), B_(Matrix3f, mat3f), B_(Matrix4f, mat4f), S_(Vector2i), S_(Vector3i), S_(Vector4i),
                S_(Vector2ui), S_(Vector3ui), S_(Vector4ui), B_(Vector3d, vec3d), B_(Vector4d, vec4d), B_(Vector2f, vec2f), B_(Vector3f, vec3f),
                B_(Vector4f, vec4f), S_(Vector3ub), S_(Vector4ub), B_(Quaternionf, quaternionf), B_(Quaterniond, quaterniond), S_(AABBf), S_(AABBd),
                B_(Frustumf, frustumf), B_(Frustumd, frustumd) };
            f[d](r);
            return true;
        }
        return false;
    }
    static void none(Ints& o) { o.clear(); }
};

// Forward-mode derivative over long double, and vectors of it: the reference for values and Jacobians.
#pragma once
#include <cmath>
using ld = long double;
struct Du
{
    ld v, d;
    Du(ld a = 0, ld b = 0) : v(a), d(b) {}
};
inline Du operator+(Du a, Du b) { return {a.v + b.v, a.d + b.d}; }
inline Du operator-(Du a, Du b) { return {a.v - b.v, a.d - b.d}; }
inline Du operator-(Du a) { return {-a.v, -a.d}; }
inline Du operator*(Du a, Du b) { return {a.v * b.v, a.v * b.d + a.d * b.v}; }
inline Du operator/(Du a, Du b) { return {a.v / b.v, (a.d * b.v - a.v * b.d) / (b.v * b.v)}; }
inline Du sqrt(Du a) { ld s = sqrtl(a.v); return {s, a.d / (2 * s)}; }
inline ld val(ld a) { return a; }
inline ld val(Du a) { return a.v; }
template <class S> struct V3
{
    S a[3];
    V3() : a{S(0), S(0), S(0)} {}
    V3(S x, S y, S z) : a{x, y, z} {}
    S& operator[](int i) { return a[i]; }
    const S& operator[](int i) const { return a[i]; }
    S dot(const V3& o) const { return a[0] * o[0] + a[1] * o[1] + a[2] * o[2]; }
    S norm() const { return sqrt(dot(*this)); }
    V3 cross(const V3& o) const { return {a[1] * o[2] - a[2] * o[1], a[2] * o[0] - a[0] * o[2], a[0] * o[1] - a[1] * o[0]}; }
};
template <class S> V3<S> operator+(const V3<S>& a, const V3<S>& b) { return {a[0] + b[0], a[1] + b[1], a[2] + b[2]}; }
template <class S> V3<S> operator-(const V3<S>& a, const V3<S>& b) { return {a[0] - b[0], a[1] - b[1], a[2] - b[2]}; }
template <class S> V3<S> operator*(const V3<S>& a, S s) { return {a[0] * s, a[1] * s, a[2] * s}; }
template <class S> struct M3
{
    S m[3][3];
    M3() { for (auto& r : m) for (S& x : r) x = S(0); }
    static M3 I() { M3 o; for (int i = 0; i < 3; ++i) o.m[i][i] = S(1); return o; }
    M3 T() const { M3 o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.m[i][j] = m[j][i]; return o; }
    V3<S> operator*(const V3<S>& v) const { V3<S> o; for (int i = 0; i < 3; ++i) o[i] = m[i][0] * v[0] + m[i][1] * v[1] + m[i][2] * v[2]; return o; }
    M3 operator*(const M3& b) const { M3 o; for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.m[i][j] = m[i][0] * b.m[0][j] + m[i][1] * b.m[1][j] + m[i][2] * b.m[2][j]; return o; }
};
template <class S> M3<S> skw(const V3<S>& w)
{
    M3<S> o;
    o.m[0][1] = -w[2]; o.m[0][2] = w[1]; o.m[1][0] = w[2]; o.m[1][2] = -w[0]; o.m[2][0] = -w[1]; o.m[2][1] = w[0];
    return o;
}
// rotation matrix that maps body to reference, of the unit quaternion (w, x, y, z)
template <class S, class P> M3<S> rotm(const P* q)
{
    const ld w = q[0], x = q[1], y = q[2], z = q[3];
    const ld r[3][3] = {{1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)},
                        {2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)},
                        {2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)}};
    M3<S> o;
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) o.m[i][j] = S(r[i][j]);
    return o;
}
// a pose: attitude (maps own frame to parent) and position in the parent, moved by an infinitesimal twist on the own side
template <class S> struct Pose
{
    M3<S> R;
    V3<S> t;
    Pose moved(int k, S e) const   // k<3: rotation about own axis k, else translation along own axis k-3
    {
        Pose o = *this;
        V3<S> u; u[k % 3] = e;
        if (k < 3) { M3<S> d = skw(u); for (int i = 0; i < 3; ++i) d.m[i][i] = S(1); o.R = R * d; }
        else o.t = t + R * u;
        return o;
    }
};
template <class S, class DQ> Pose<S> refPose(const DQ& q)
{
    Pose<S> p;
    const double* d = q.data();
    p.R = rotm<S>(d);
    // translation: vector part of 2 * dual * conj(real)
    const ld w = d[0], x = d[1], y = d[2], z = d[3], e = d[4], f = d[5], g = d[6], h = d[7];
    p.t[0] = S(2 * (-e * x + f * w - g * z + h * y));
    p.t[1] = S(2 * (-e * y + f * z + g * w - h * x));
    p.t[2] = S(2 * (-e * z - f * y + g * x + h * w));
    return p;
}
template <class S, class E> V3<S> rv3(const E& v) { return {S((ld)v(0)), S((ld)v(1)), S((ld)v(2))}; }

// Reference rigid-body transforms in long double (matrix exponential by its power series), independent of common/math.
#pragma once
#include <Eigen/Core>
#include <Eigen/Dense>
namespace ref
{
typedef long double L;
typedef Eigen::Matrix<L, 3, 1> V3;
typedef Eigen::Matrix<L, 6, 1> V6;
typedef Eigen::Matrix<L, 3, 3> M3;
typedef Eigen::Matrix<L, 4, 4> M4;
typedef Eigen::Matrix<L, 6, 6> M6;
static const L PI = 3.14159265358979323846264338327950288L;
inline M3 sk(const V3& v) { M3 m; m << 0, -v(2), v(1), v(2), 0, -v(0), -v(1), v(0), 0; return m; }
template <int N> Eigen::Matrix<L, N, N> expm(const Eigen::Matrix<L, N, N>& A)   // scaling and squaring of the series
{
    typedef Eigen::Matrix<L, N, N> M;
    M B = A / 64, S = M::Identity(), t = M::Identity();
    for (int k = 1; k < 30; ++k) { t = (t * B / k).eval(); S += t; }
    for (int k = 0; k < 6; ++k) S = (S * S).eval();
    return S;
}
template <int N> Eigen::Matrix<L, N, N> phi(const Eigen::Matrix<L, N, N>& A)   // sum A^k / (k+1)!
{
    Eigen::Matrix<L, N, N> S = Eigen::Matrix<L, N, N>::Identity(), t = S;
    for (int k = 1; k < 70; ++k) { t = (t * A / (k + 1)).eval(); S += t; }
    return S;
}
inline M4 up(const V6& x) { M4 m = M4::Zero(); m.topLeftCorner<3, 3>() = sk(x.head<3>()); m.topRightCorner<3, 1>() = x.tail<3>(); return m; }
inline M6 ad(const V6& x)   // (angular, linear)
{
    M6 m = M6::Zero();
    m.topLeftCorner<3, 3>() = m.bottomRightCorner<3, 3>() = sk(x.head<3>());
    m.bottomLeftCorner<3, 3>() = sk(x.tail<3>());
    return m;
}
inline M4 rigid(const M3& R, const V3& t) { M4 m = M4::Identity(); m.topLeftCorner<3, 3>() = R; m.topRightCorner<3, 1>() = t; return m; }
inline M4 inv(const M4& m) { M3 R = m.topLeftCorner<3, 3>(); V3 t = m.topRightCorner<3, 1>(); return rigid(R.transpose(), -(R.transpose() * t)); }
}

// attitudes: the 24 of the cube, and generic ones
#pragma once
#include <vector>
#include "common/math/quat.h"
static std::vector<mc::math::Quat<double>> rots(int generic, bool cube = true)
{
    using Q = mc::math::Quat<double>;
    std::vector<Q> out;
    const double s = std::sqrt(0.5);
    for (int i = 0; i < 4; ++i) { double a[4] = {0}; a[i] = 1; out.push_back(Q(a[0], a[1], a[2], a[3])); }
    if (cube) for (int m = 0; m < 8; ++m) out.push_back(Q(0.5, m & 1 ? -0.5 : 0.5, m & 2 ? -0.5 : 0.5, m & 4 ? -0.5 : 0.5));
    if (cube) for (int i = 0; i < 4; ++i) for (int j = i + 1; j < 4; ++j) for (int g = -1; g < 2; g += 2) { double a[4] = {0}; a[i] = s; a[j] = g * s; out.push_back(Q(a[0], a[1], a[2], a[3])); }
    for (int i = 0; i < generic; ++i)
    {
        double a[4], n = 0;
        for (int k = 0; k < 4; ++k) { a[k] = std::sin(1.7 * i * (k + 1) + 0.6 * k + 0.4); n += a[k] * a[k]; }
        n = std::sqrt(n);
        out.push_back(Q(a[0] / n, a[1] / n, a[2] / n, a[3] / n));
    }
    return out;
}

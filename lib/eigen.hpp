// eigen.hpp -- eigenvalues of a real symmetric matrix with Jacobi rotations.
#ifndef EIGEN_ORACLE_HPP
#define EIGEN_ORACLE_HPP

#include <cmath>
#include <vector>

inline std::vector<long double> jacobi_eigenvalues(std::vector<long double> a, int n) {
    using R = long double;
    for (int sweep = 0; sweep < 60; ++sweep) {
        R off = 0, dia = 0;
        for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) (i == j ? dia : off) += a[i * n + j] * a[i * n + j];
        if (off <= dia * 1e-38L || off == 0) break;
        for (int p = 0; p < n; ++p) {
            for (int q = p + 1; q < n; ++q) {
                const R apq = a[p * n + q];
                if (apq == 0) continue;
                const R th = (a[q * n + q] - a[p * n + p]) / (2 * apq);
                const R t = (th >= 0 ? 1 : -1) / (std::fabs(th) + std::sqrt(th * th + 1));
                const R c = 1 / std::sqrt(t * t + 1), s = t * c;
                for (int k = 0; k < n; ++k) {
                    const R x = a[k * n + p], y = a[k * n + q];
                    a[k * n + p] = c * x - s * y;
                    a[k * n + q] = s * x + c * y;
                }
                for (int k = 0; k < n; ++k) {
                    const R x = a[p * n + k], y = a[q * n + k];
                    a[p * n + k] = c * x - s * y;
                    a[q * n + k] = s * x + c * y;
                }
            }
        }
    }
    std::vector<R> ev;
    for (int i = 0; i < n; ++i) ev.push_back(a[i * n + i]);
    return ev;
}

#endif

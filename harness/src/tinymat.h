// A deliberately plain dense complex matrix: the oracles share no code with the library's linear algebra.
#pragma once
#include "verif.h"
namespace verif {
    using cd = std::complex<double>;
    struct Mat {
        int n = 0, m = 0; std::vector<cd> v;
        Mat() = default;
        Mat(int r, int c) : n{r}, m{c}, v(static_cast<size_t>(r) * c) { }
        static Mat Zero(int r, int c) { return Mat(r, c); }
        static Mat Identity(int r, int c) { Mat x(r, c); for (int i = 0; i < std::min(r, c); ++i) x(i, i) = 1; return x; }
        int rows() const { return n; } int cols() const { return m; }
        cd& operator()(int i, int j) { return v[static_cast<size_t>(i) * m + j]; }
        const cd& operator()(int i, int j) const { return v[static_cast<size_t>(i) * m + j]; }
        Mat& operator+=(const Mat& o) { for (size_t i = 0; i < v.size(); ++i) v[i] += o.v[i]; return *this; }
        Mat& operator-=(const Mat& o) { for (size_t i = 0; i < v.size(); ++i) v[i] -= o.v[i]; return *this; }
        friend Mat operator+(Mat a, const Mat& b) { return a += b; }
        friend Mat operator-(Mat a, const Mat& b) { return a -= b; }
        friend Mat operator*(Mat a, cd f) { for (auto& x : a.v) x *= f; return a; }
        friend Mat operator*(cd f, Mat a) { for (auto& x : a.v) x *= f; return a; }
        friend Mat operator/(Mat a, cd f) { for (auto& x : a.v) x /= f; return a; }
        friend Mat operator*(const Mat& a, const Mat& b) {
            Mat o(a.n, b.m);
            for (int i = 0; i < a.n; ++i) for (int k = 0; k < a.m; ++k) {
                const cd f = a(i, k); if (f == cd{}) continue;
                const double fr = f.real(), fi = f.imag();
                for (int j = 0; j < b.m; ++j) {
                    const cd g = b(k, j);
                    o(i, j) += cd(fr * g.real() - fi * g.imag(), fr * g.imag() + fi * g.real());
                }
            }
            return o;
        }
        Mat adjoint() const { Mat o(m, n); for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) o(j, i) = std::conj((*this)(i, j)); return o; }
        cd trace() const { cd t; for (int i = 0; i < std::min(n, m); ++i) t += (*this)(i, i); return t; }
        double norm() const { double t = 0; for (auto& x : v) t += std::norm(x); return std::sqrt(t); }
        double maxabs() const { double t = 0; for (auto& x : v) t = std::max(t, std::abs(x)); return t; }
    };
    inline cd trace_product(const Mat& a, const Mat& b) { cd t; for (int i = 0; i < a.n; ++i) for (int k = 0; k < a.m; ++k) t += a(i, k) * b(k, i); return t; }
    inline Mat kron(const Mat& a, const Mat& b) {
        Mat o(a.n * b.n, a.m * b.m);
        for (int i = 0; i < a.n; ++i) for (int j = 0; j < a.m; ++j) for (int k = 0; k < b.n; ++k) for (int l = 0; l < b.m; ++l) o(i * b.n + k, j * b.m + l) = a(i, j) * b(k, l);
        return o;
    }
    inline cd cgauss(Rng& r) { const double a = r.gauss(); const double b = r.gauss(); return {a, b}; }
    inline Mat random_matrix(Rng& r, int n, int m) { Mat x(n, m); for (auto& z : x.v) z = cgauss(r); return x; }
    inline Mat random_unitary(Rng& r, int d) {
        Mat x = random_matrix(r, d, d);
        for (int j = 0; j < d; ++j) {   // modified Gram-Schmidt on columns, twice
            for (int rep = 0; rep < 2; ++rep) for (int k = 0; k < j; ++k) {
                cd ip; for (int i = 0; i < d; ++i) ip += std::conj(x(i, k)) * x(i, j);
                for (int i = 0; i < d; ++i) x(i, j) -= ip * x(i, k);
            }
            double nn = 0; for (int i = 0; i < d; ++i) nn += std::norm(x(i, j));
            nn = std::sqrt(nn); for (int i = 0; i < d; ++i) x(i, j) /= nn;
        }
        return x;
    }
    inline Mat random_density(Rng& r, int d) {
        Mat x = random_matrix(r, d, 1 + static_cast<int>(r.below(d))); Mat rho = x * x.adjoint();
        return rho / rho.trace();
    }
    /** Is Hermitian matrix a positive semidefinite up to tol (Cholesky with shift)? */
    inline bool is_psd(Mat a, double tol = 1e-7) {
        const int d = a.n; const double s = tol * std::max(1.0, a.maxabs());
        for (int i = 0; i < d; ++i) a(i, i) += s;
        for (int j = 0; j < d; ++j) {
            double p = a(j, j).real(); for (int k = 0; k < j; ++k) p -= std::norm(a(j, k));
            if (!(p > 0)) return false;
            p = std::sqrt(p); a(j, j) = p;
            for (int i = j + 1; i < d; ++i) {
                cd t = a(i, j); for (int k = 0; k < j; ++k) t -= a(i, k) * std::conj(a(j, k));
                a(i, j) = t / p;
            }
        }
        return true;
    }
    /** Rank by Gaussian elimination with full pivoting. */
    inline int rank_of(Mat a, double tol = 1e-8) {
        int rank = 0; const double scale = std::max(1.0, a.maxabs());
        std::vector<bool> used_r(a.n), used_c(a.m);
        while (true) {
            int pi = -1, pj = -1; double best = tol * scale;
            for (int i = 0; i < a.n; ++i) if (!used_r[i]) for (int j = 0; j < a.m; ++j) if (!used_c[j] && std::abs(a(i, j)) > best) { best = std::abs(a(i, j)); pi = i; pj = j; }
            if (pi < 0) return rank;
            used_r[pi] = used_c[pj] = true; ++rank;
            for (int i = 0; i < a.n; ++i) if (!used_r[i]) { const cd f = a(i, pj) / a(pi, pj); if (f != cd{}) for (int j = 0; j < a.m; ++j) a(i, j) -= f * a(pi, j); }
        }
    }
}

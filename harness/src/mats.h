// Hand-made symbolic matrices.
#pragma once
#include "symb.h"
#include "tensor/square_matrix.h"

namespace verif {
    inline Monomial conj_of(const Tab& t, Monomial m) {
        m.factor = std::conj(m.factor);
        const auto& s = t.sym()[m.id];
        if (s.is_hermitian()) return m;
        if (s.is_antihermitian()) { m.factor = -m.factor; return m; }
        m.conjugated = !m.conjugated; return m;
    }
    /** Monomial whose conjugated flag is only used for genuinely complex symbols (as matrices hold them). */
    inline Monomial fixed(const Tab& t, Monomial m) {
        const auto& s = t.sym()[m.id];
        if (m.id == 0) return Monomial{0, 0.0, false};
        if (m.conjugated && s.is_hermitian()) m.conjugated = false;
        else if (m.conjugated && s.is_antihermitian()) { m.conjugated = false; m.factor = -m.factor; }
        return m;
    }
    inline std::unique_ptr<MonomialMatrix> random_mm(Rng& r, Tab& t, size_t d, bool herm, Tab::Coef cf) {
        std::vector<Monomial> data(d * d, Monomial{0, 0.0, false});
        for (size_t j = 0; j < d; ++j) for (size_t i = 0; i < d; ++i) {
            if (herm && i > j) continue;
            Monomial m = fixed(t, t.mono(r, cf));
            if (herm && i == j) { // must be real
                for (int k = 0; k < 40; ++k) { if (t.sym()[m.id].is_hermitian()) { m.factor = m.factor.real(); break; } if (t.sym()[m.id].is_antihermitian()) { m.factor = cf == Tab::ComplexC || cf == Tab::Gaussian ? cd{0, m.factor.real()} : cd{0}; if (cf != Tab::ComplexC && cf != Tab::Gaussian) { m = fixed(t, t.mono(r, cf)); continue; } break; } m = fixed(t, t.mono(r, cf)); }
                auto& s = t.sym()[m.id];
                if (!(s.is_hermitian() && !s.is_antihermitian()) || std::abs(m.factor) == 0 || m.factor.imag() != 0) m = Monomial{1, 1.0, false};
            }
            data[j * d + i] = m; if (herm) data[i * d + j] = i == j ? m : conj_of(t, m);
        }
        return std::make_unique<MonomialMatrix>(t.ms->Context(), t.msym(), t.fac().zero_tolerance, std::make_unique<Moment::SquareMatrix<Monomial>>(d, std::move(data)), herm);
    }
    inline std::unique_ptr<PolynomialMatrix> random_pm(Rng& r, Tab& t, size_t d, bool herm, Tab::Coef cf) {
        std::vector<Polynomial> data(d * d);
        for (size_t j = 0; j < d; ++j) for (size_t i = 0; i <= j || (!herm && i < d); ++i) {
            Polynomial p = t.poly(r, 4, cf);
            if (herm) {
                Polynomial::storage_t cj; for (auto& m : p) cj.push_back(conj_of(t, m));
                if (i == j) { for (auto& m : p) cj.push_back(m); p = t.fac()(std::move(cj)); data[j * d + i] = p; }
                else { data[j * d + i] = p; data[i * d + j] = t.fac()(std::move(cj)); }
            } else data[j * d + i] = p;
        }
        return std::make_unique<PolynomialMatrix>(t.ms->Context(), t.msym(), t.fac().zero_tolerance, std::make_unique<Moment::SquareMatrix<Polynomial>>(d, std::move(data)));
    }
}

// Sets of moment equations, and their solution sets computed independently.
#pragma once
#include "symb.h"
#include "symbolic/rules/moment_rule.h"
#include "symbolic/rules/moment_rulebook.h"

namespace verif {
    using Moment::MomentRulebook;
    using Moment::MomentRule;
    /** The real linear system equivalent to a set of polynomial equations: unknowns are real then imaginary parts (identity excluded, being 1). */
    struct Lin {
        const Tab& t; size_t nre, nim, n;
        std::vector<std::vector<double>> rows; // n coefficients and a constant: sum + const == 0
        explicit Lin(const Tab& t) : t{t}, nre{t.sym().Basis.RealSymbolCount()}, nim{t.sym().Basis.ImaginarySymbolCount()}, n{nre - 1 + nim} { }
        void add(const Polynomial& p) {
            std::vector<double> re(n + 1), im(n + 1);
            for (auto& m : p) {
                if (m.id == 0) continue;
                auto k = t.sym()[m.id].basis_key(); const double s = m.conjugated ? -1 : 1;
                if (m.id == 1) { re[n] += m.factor.real(); im[n] += m.factor.imag(); continue; }
                if (k.first >= 0) { re[k.first - 1] += m.factor.real(); im[k.first - 1] += m.factor.imag(); }
                if (k.second >= 0) { re[nre - 1 + k.second] -= s * m.factor.imag(); im[nre - 1 + k.second] += s * m.factor.real(); }
            }
            rows.push_back(re); rows.push_back(im);
        }
        // after solve():
        size_t rank = 0; bool consistent = true, doubtful = false; std::vector<int> pivot_of; // per column: row or -1
        void solve() {
            auto& a = rows; rank = 0; pivot_of.assign(n, -1); consistent = true; doubtful = false;
            auto tiny = [&](double x) { x = std::abs(x); if (x > 1e-11 && x < 2e-3) doubtful = true; return x <= 1e-7; };
            for (size_t col = n; col-- > 0 && rank < a.size();) {
                size_t best = rank; for (size_t i = rank; i < a.size(); ++i) if (std::abs(a[i][col]) > std::abs(a[best][col])) best = i;
                if (tiny(a[best][col])) continue;
                std::swap(a[best], a[rank]);
                const double f = a[rank][col]; for (auto& x : a[rank]) x /= f;
                for (size_t i = 0; i < a.size(); ++i) if (i != rank && a[i][col] != 0) { const double g = a[i][col]; for (size_t k = 0; k <= n; ++k) a[i][k] -= g * a[rank][k]; }
                pivot_of[col] = (int)rank++;
            }
            for (size_t i = rank; i < a.size(); ++i) if (!tiny(a[i][n])) consistent = false;
        }
        /** A random solution, as values of the symbols. */
        std::vector<cd> solution(Rng& r) const {
            std::vector<double> x(n);
            for (size_t i = 0; i < n; ++i) if (pivot_of[i] < 0) x[i] = r.sym() * 2;
            for (size_t i = 0; i < n; ++i) if (pivot_of[i] >= 0) { double s = -rows[pivot_of[i]][n]; for (size_t k = 0; k < n; ++k) if (pivot_of[k] < 0) s -= rows[pivot_of[i]][k] * x[k]; x[i] = s; }
            return values(x);
        }
        std::vector<cd> values(const std::vector<double>& x) const {
            std::vector<cd> v(t.size());
            for (size_t i = 1; i < t.size(); ++i) { if (i == 1) { v[1] = 1; continue; } auto k = t.sym()[i].basis_key(); v[i] = {k.first >= 0 ? x[k.first - 1] : 0, k.second >= 0 ? x[nre - 1 + k.second] : 0}; }
            return v;
        }
    };
    /** A random equation (== 0) over a table. */
    inline Polynomial random_equation(Rng& r, const Tab& t, Tab::Coef cf) {
        auto any = [&] { return static_cast<Moment::symbol_name_t>(t.size() > 2 ? 2 + r.below(t.size() - 2) : 1); };
        Polynomial::storage_t d;
        switch (r.below(9)) {
            case 0: d.push_back(Monomial{any(), 1.0, r.coin()}); break;                                                         // X = 0
            case 1: d.push_back(Monomial{any(), 1.0, r.coin()}); d.push_back(Monomial{1, Tab::coef(r, cf), false}); break;     // X = c
            case 2: d.push_back(Monomial{any(), 1.0, r.coin()}); d.push_back(Monomial{any(), Tab::coef(r, cf), r.coin()}); break; // X = cY
            case 3: { auto x = any(); const cd a = Tab::coef(r, cf); const cd b = a * (r.coin() ? cd{1} : r.coin() ? cd{-1} : r.coin() ? cd{0, 1} : std::polar(1.0, r.sym() * 3.1)); // partial
                d.push_back(Monomial{x, a, false}); d.push_back(Monomial{x, b, true}); for (size_t k = r.below(3); k > 0; --k) d.push_back(t.mono(r, cf)); break; }
            case 4: { auto x = any(); d.push_back(Monomial{x, Tab::coef(r, cf), false}); d.push_back(Monomial{x, Tab::coef(r, cf), true}); for (size_t k = r.below(3); k > 0; --k) d.push_back(t.mono(r, cf)); break; }
            default: d = t.terms(r, 1 + r.below(5), cf);
        }
        return t.fac()(std::move(d));
    }
    struct Equations { std::vector<Polynomial> eqs; std::string text; bool forced; };
    /** Random set; usually made consistent by choosing constants. */
    inline Equations random_equations(Rng& r, const Tab& t, size_t max_eqs) {
        Equations e; e.forced = r.chance(5, 6);
        const auto cf = all_coefs[r.below(5)];
        auto v0 = t.values(r); for (auto& x : v0) x = {std::round(x.real() * 4) / 4, std::round(x.imag() * 4) / 4};
        if (v0.size() > 1) v0[1] = 1;
        for (size_t k = 1 + r.below(max_eqs); k > 0; --k) {
            Polynomial p = random_equation(r, t, cf);
            if (!e.eqs.empty() && r.chance(1, 6)) { p = r.pick(e.eqs); p = t.fac().scale(p, Tab::coef(r, cf)); if (r.coin()) p = t.fac().sum(p, r.pick(e.eqs)); }
            if (e.forced) { const cd x = Tab::eval(p, v0); if (std::abs(x) > 1e-12) { Polynomial::storage_t d; for (auto& m : p) d.push_back(m); d.push_back(Monomial{1, -x, false}); p = t.fac()(std::move(d)); } }
            e.eqs.push_back(p);
        }
        for (auto& p : e.eqs) e.text += "{" + Tab::text(p) + "} ";
        return e;
    }
}

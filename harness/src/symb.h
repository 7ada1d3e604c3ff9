// Symbol tables of every shape, with assignments of values to symbols, for monitors over symbolic expressions.
#pragma once
#include "sys.h"
#include "scenarios/imported/imported_context.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "symbolic/monomial_comparator_by_hash.h"

namespace verif {
    /** A matrix system whose symbols have arbitrary (real/imaginary/complex) kinds, with a term ordering. */
    struct Tab {
        std::unique_ptr<Sys> sys;                                         // symbols with words
        std::unique_ptr<MatrixSystem> imp;                                 // symbols without
        std::unique_ptr<Moment::PolynomialFactory> own_factory;
        MatrixSystem* ms = nullptr;
        bool by_hash = false;
        std::string desc;
        const SymbolTable& sym() const { return const_cast<const MatrixSystem*>(ms)->Symbols(); }
        SymbolTable& msym() { return ms->Symbols(); }
        const Moment::PolynomialFactory& fac() const { return own_factory ? *own_factory : ms->polynomial_factory(); }
        size_t size() const { return sym().size(); }
        static std::unique_ptr<Tab> random(Rng& r, size_t max_symbols = 12, int force_imported = -1, double tol = 1.0, bool may_imag = true, bool system_factory = false) {
            auto t = std::make_unique<Tab>();
            const bool imported = force_imported >= 0 ? force_imported != 0 : r.chance(2, 3);
            if (imported) {
                if (tol == 1.0) t->imp = std::make_unique<Moment::Imported::ImportedMatrixSystem>(false); else t->imp = std::make_unique<MatrixSystem>(std::make_unique<Moment::Imported::ImportedContext>(false), tol);
                t->ms = t->imp.get();
                t->desc = "imported[";
                const size_t n = 1 + r.below(max_symbols);
                const int style = static_cast<int>(r.below(4)); // mixed, real, complex, mixed
                for (size_t i = 0; i < n;) {
                    const size_t k = style == 1 ? 0 : style == 2 ? 1 : may_imag ? r.below(3) : r.below(2);
                    const size_t cnt = std::min<size_t>(n - i, r.chance(1, 4) ? 1 + r.below(3) : 1);
                    if (cnt == 1) t->msym().create(k != 2, k != 0); else t->msym().create(cnt, k != 2, k != 0);
                    for (size_t j = 0; j < cnt; ++j) t->desc += k == 0 ? 'r' : k == 1 ? 'c' : 'i';
                    i += cnt;
                }
                t->desc += "]";
            } else {
                t->sys = random_sys(r, -1, 6, tol);
                t->ms = t->sys->ms.get();
                t->sys->ms->MomentMatrix(std::min<size_t>(2, t->sys->level_cap(12, 2)));
                if (r.coin()) { auto w = t->sys->random_nonzero(r, 3); if (!w.empty()) t->sys->ms->LocalizingMatrix(Moment::LocalizingMatrixIndex{0, t->sys->make(w)}); }
                t->desc = t->sys->desc();
            }
            if (system_factory) return t;
            t->by_hash = r.coin();
            if (t->by_hash) t->own_factory = std::make_unique<Moment::ByHashPolynomialFactory>(t->sym(), tol);
            else t->own_factory = std::make_unique<Moment::ByIDPolynomialFactory>(t->sym(), tol);
            t->desc += t->by_hash ? " by hash" : " by id";
            return t;
        }
        /** Assignment respecting exactly the flags of each symbol. */
        std::vector<cd> values(Rng& r) const {
            std::vector<cd> v;
            for (size_t i = 0; i < size(); ++i) {
                if (i == 0) { v.emplace_back(0); continue; }
                if (i == 1) { v.emplace_back(1); continue; }
                auto k = sym()[i].basis_key();
                v.emplace_back(k.first >= 0 ? r.sym() * 2 : 0.0, k.second >= 0 ? r.sym() * 2 : 0.0);
            }
            return v;
        }
        static cd eval(const Monomial& m, const std::vector<cd>& v) { if (m.id == 0) return 0; const cd x = v.at(m.id); return m.factor * (m.conjugated ? std::conj(x) : x); }
        static cd eval(const Polynomial& p, const std::vector<cd>& v) { cd s; for (auto& m : p) s += eval(m, v); return s; }
        static Mat eval(const SymbolicMatrix& m, const std::vector<cd>& v) {
            const int d = static_cast<int>(m.Dimension()); Mat o(d, d);
            if (auto* mm = dynamic_cast<const MonomialMatrix*>(&m)) { for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o(i, j) = eval(mm->SymbolMatrix(i, j), v); }
            else { auto& pm = dynamic_cast<const PolynomialMatrix&>(m); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o(i, j) = eval(pm.SymbolMatrix(i, j), v); }
            return o;
        }
        enum Coef { One, Dyadic, RealC, ComplexC, Gaussian };
        static cd coef(Rng& r, Coef s) {
            switch (s) {
                case One: return r.coin() ? 1.0 : -1.0;
                case Dyadic: { int k = 0; while (!k) k = static_cast<int>(r.range(-8, 8)); return k / 4.0; }
                case RealC: { const double a = r.sym(); return a + (a < 0 ? -.1 : .1); }
                case Gaussian: { int a = 0, b = 0; while (!a && !b) { a = static_cast<int>(r.range(-4, 4)); b = static_cast<int>(r.range(-4, 4)); } return {a / 2.0, b / 2.0}; }
                default: { const double a = r.sym(), b = r.sym(); return {a + (a < 0 ? -.1 : .1), b}; }
            }
        }
        Monomial mono(Rng& r, Coef s = Dyadic, bool may_zero = true) const {
            size_t id = r.below(size()); if (!id && !(may_zero && r.chance(1, 3))) id = 1 + r.below(size() - 1);
            return Monomial{static_cast<Moment::symbol_name_t>(id), coef(r, s), r.chance(2, 5)};
        }
        Polynomial::storage_t terms(Rng& r, size_t n, Coef s = Dyadic) const {
            Polynomial::storage_t d; std::vector<Monomial> used;
            for (size_t i = 0; i < n; ++i) {
                Monomial m = mono(r, s);
                if (!used.empty() && r.chance(1, 4)) { // cancel, repeat or conjugate a term
                    m = r.pick(used); const auto how = r.below(5);
                    if (how == 0) m.factor = -m.factor; else if (how == 1) m.conjugated = !m.conjugated; else if (how == 2) { m.conjugated = !m.conjugated; m.factor = std::conj(m.factor); } else if (how == 3) { m.conjugated = !m.conjugated; m.factor = -m.factor; } 
                }
                used.push_back(m); d.push_back(m);
            }
            return d;
        }
        static cd eval(const Polynomial::storage_t& d, const std::vector<cd>& v) { cd s; for (auto& m : d) s += eval(m, v); return s; }
        Polynomial poly(Rng& r, size_t max_terms, Coef s = Dyadic) const { return fac()(terms(r, r.below(max_terms + 1), s)); }
        static std::string text(const Monomial& m) { std::stringstream ss; ss << m.factor << "#" << m.id << (m.conjugated ? "*" : ""); return ss.str(); }
        static std::string text(const Polynomial& p) { std::string o; for (auto& m : p) o += text(m) + " "; return o.empty() ? "0" : o; }
        static std::string text(const Polynomial::storage_t& p) { std::string o; for (auto& m : p) o += text(m) + " "; return o.empty() ? "0" : o; }
        /** Polynomial is in canonical form for its factory; empty string if fine. */
        std::string canonical(const Polynomial& p) const {
            for (size_t i = 0; i < p.size(); ++i) {
                auto& m = p[i];
                if (m.id == 0) return "contains symbol 0";
                if (m.id < 0 || static_cast<size_t>(m.id) >= size()) return "unknown symbol";
                if (std::abs(m.factor) < 1e-17) return "zero term";
                if (m.conjugated && (sym()[m.id].is_hermitian() || sym()[m.id].is_antihermitian())) return "conjugated (anti)Hermitian symbol";
                if (i && !fac().less(p[i - 1], m)) return "terms out of order or duplicated";
            }
            return {};
        }
    };
    inline const Tab::Coef all_coefs[] = {Tab::One, Tab::Dyadic, Tab::RealC, Tab::ComplexC, Tab::Gaussian};
}

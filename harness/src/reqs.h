// Requests for matrices of any scenario, and comparison of systems which should hold the same moments.
#pragma once
#include "sys.h"

namespace verif {
    using Moment::LocalizingMatrixIndex; using Moment::OperatorMatrix;
    struct Req { int kind; size_t level, nb; Word w; int phase; std::vector<std::pair<Word, cd>> poly; };
    inline Req random_req(Rng& r, const Sys& s, double cap) {
        Req q; q.kind = static_cast<int>(r.below(s.kind == Sys::Pauli ? 6 : 3)); q.nb = s.kind == Sys::Pauli && q.kind > 2 ? 0 : 0;
        q.level = r.below(s.level_cap(q.kind == 0 ? cap : cap / 2, 3) + 1); q.w = s.random_nonzero(r, 3); q.phase = r.chance(1, 3) ? static_cast<int>(r.below(4)) : 0;
        for (size_t i = 1 + r.below(3); i > 0; --i) q.poly.emplace_back(s.random_nonzero(r, 2), cd{std::round(r.sym() * 4) + 0.5, r.coin() ? 0 : std::round(r.sym() * 3)});
        return q;
    }
    inline RawPolynomial raw_of(const Sys& s, const Req& q) { RawPolynomial p; for (auto& [w, f] : q.poly) p.emplace_back(s.make(w), f); return p; }
    inline const SymbolicMatrix& ask(Sys& s, const Req& q, MTP mt) {
        switch (q.kind) {
            case 0: return s.ms->MomentMatrix(q.level, mt);
            case 1: return s.ms->LocalizingMatrix(LocalizingMatrixIndex{q.level, s.make(q.w, q.phase)}, mt);
            case 2: return s.ms->create_and_register_localizing_matrix(q.level, raw_of(s, q), mt).second;
            case 3: return s.pauli().CommutatorMatrices(Moment::Pauli::CommutatorMatrixIndex{q.level, q.nb, s.make(q.w, q.phase)}, mt);
            case 4: return s.pauli().AnticommutatorMatrices(Moment::Pauli::AnticommutatorMatrixIndex{q.level, q.nb, s.make(q.w, q.phase)}, mt);
            default: return s.pauli().create_and_register_commutator_matrix(Moment::Pauli::NearestNeighbourIndex{q.level, q.nb}, raw_of(s, q), mt).second;
        }
    }
    inline std::string text(const Req& q) { static const char* n[] = {"mm", "lm", "plm", "comm", "anticomm", "polycomm"}; std::string t = std::string(n[q.kind]) + std::to_string(q.level) + " i^" + std::to_string(q.phase) + wstr(q.w); if (q.kind == 2 || q.kind == 5) for (auto& [w, f] : q.poly) { std::stringstream ss; ss << "+" << f << wstr(w); t += ss.str(); } return t + "; "; }

    inline void compare(Ctx& c, const Sys& a, const SymbolicMatrix& m, const Sys& b, const SymbolicMatrix& n, const std::string& what) {
        CHECK(m.Dimension() == n.Dimension(), "dimension", what << ": " << m.Dimension() << " vs " << n.Dimension());
        if (m.Dimension() != n.Dimension()) return;
        CHECK(m.is_monomial() == n.is_monomial(), "monomial", what);
        Mat x = a.values(m), y = b.values(n);
        for (size_t i = 0; i < m.Dimension(); ++i) for (size_t j = 0; j < m.Dimension(); ++j)
            if (!CHECK(close(x(i, j), y(i, j)), "entry", what << " entry (" << i << "," << j << "): threads " << entry_text(m, i, j) << " value " << x(i, j) << ", single " << entry_text(n, i, j) << " value " << y(i, j))) return;
        CHECK(m.Hermitian() == n.Hermitian(), "hermitian", what << ": threads " << m.Hermitian() << " single " << n.Hermitian());
        CHECK(m.HasComplexBasis() == n.HasComplexBasis() && m.HasComplexCoefficients() == n.HasComplexCoefficients(), "complex-flags", what);
        CHECK(m.RealBasisIndices().size() == n.RealBasisIndices().size() && m.ImaginaryBasisIndices().size() == n.ImaginaryBasisIndices().size() && m.IncludedSymbols().size() == n.IncludedSymbols().size(), "basis-size", what);
        CHECK(m.has_unaliased_operator_matrix() == n.has_unaliased_operator_matrix() && m.has_aliased_operator_matrix() == n.has_aliased_operator_matrix(), "operator-matrices", what);
        auto ops = [&](const OperatorMatrix& o, const OperatorMatrix& p) {
            for (size_t i = 0; i < m.Dimension(); ++i) for (size_t j = 0; j < m.Dimension(); ++j) { auto u = norm_of(o(std::array<size_t, 2>{i, j})), v = norm_of(p(std::array<size_t, 2>{i, j})); if (!CHECK(u == v, "operator-entry", what << " (" << i << "," << j << "): threads " << u.text() << " single " << v.text())) return; }
            CHECK(o.is_hermitian() == p.is_hermitian(), "operator-hermitian", what);
        };
        if (m.has_unaliased_operator_matrix() && n.has_unaliased_operator_matrix()) ops(m.unaliased_operator_matrix(), n.unaliased_operator_matrix());
        if (m.has_aliased_operator_matrix() && n.has_aliased_operator_matrix()) ops(m.aliased_operator_matrix(), n.aliased_operator_matrix());
        c.count("entries", m.Dimension() * m.Dimension());
        c.nontrivial(what);
    }
    /** Same set of moments on both sides. */
    inline void compare_symbols(Ctx& c, const Sys& a, const Sys& b, const std::string& what) {
        check_symbols(c, a, "threads");
        CHECK(a.symbols().size() == b.symbols().size(), "symbol-count", what << ": threads " << a.symbols().size() << " single " << b.symbols().size());
        for (size_t i = 2; i < b.symbols().size(); ++i) {
            auto& sym = b.symbols()[i]; auto got = a.symbols().where(sym.sequence());
            if (!CHECK(got.found(), "symbol-set", what << ": threads lack symbol " << norm_of(sym.sequence()).text())) return;
            auto k = sym.basis_key(), l = got->basis_key();
            CHECK((k.first >= 0) == (l.first >= 0) && (k.second >= 0) == (l.second >= 0), "symbol-parts", what << " " << norm_of(sym.sequence()).text());
        }
    }
}

// Matrix systems of every scenario with a reference notion of "which moment is this", for monitors over matrices and symbols.
#pragma once
#include "numeric.h"
#include "dictionary/raw_polynomial.h"
#include "matrix/monomial_matrix.h"
#include "matrix/polynomial_matrix.h"
#include "matrix/operator_matrix/operator_matrix.h"
#include "matrix_system/matrix_system.h"
#include "matrix_system/indices/localizing_matrix_index.h"
#include "matrix_system/indices/polynomial_localizing_matrix_index.h"
#include "matrix_system/matrix_system_errors.h"
#include "scenarios/algebraic/algebraic_context.h"
#include "scenarios/algebraic/algebraic_matrix_system.h"
#include "scenarios/algebraic/algebraic_precontext.h"
#include "scenarios/algebraic/operator_rule.h"
#include "scenarios/algebraic/operator_rulebook.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/inflation/inflation_matrix_system.h"
#include "scenarios/locality/locality_matrix_system.h"
#include "scenarios/pauli/pauli_matrix_system.h"
#include "symbolic/polynomial.h"
#include "symbolic/polynomial_factory.h"
#include "symbolic/symbol_table.h"
#include "symbolic/symbol_lookup_result.h"
#include "multithreading/multithreading.h"

namespace verif {
    using Moment::Monomial;
    using Moment::Polynomial;
    using Moment::MatrixSystem;
    using Moment::SymbolicMatrix;
    using Moment::MonomialMatrix;
    using Moment::PolynomialMatrix;
    using Moment::SymbolTable;
    using Moment::RawPolynomial;
    using MTP = Moment::Multithreading::MultiThreadPolicy;

    /** Algebraic scenario; normal forms are those of the (completed) context, which C03 judges. */
    struct AlgScen : Scen {
        using Mode = Moment::Algebraic::AlgebraicPrecontext::ConjugateMode;
        Mode mode = Mode::SelfAdjoint; size_t raw = 1;
        Norm normal(const Word& w, int phase) const override { return norm_of(make(w, phase)); }
        long conj_op(long o) const {
            if (mode == Mode::SelfAdjoint) return o;
            if (mode == Mode::Interleaved) return o ^ 1;
            return (o + static_cast<long>(raw)) % static_cast<long>(2 * raw);
        }
        Norm adjoint(const Word& w, int phase) const override {
            Word a; for (auto it = w.rbegin(); it != w.rend(); ++it) a.push_back(conj_op(*it));
            return normal(a, (4 - phase) & 3);
        }
        /** Null if the rules could not be completed or collapse. */
        static std::unique_ptr<AlgScen> random(Rng& r, size_t max_ops = 3, bool allow_phase = true) {
            using namespace Moment::Algebraic;
            auto s = std::make_unique<AlgScen>();
            s->mode = r.coin() ? Mode::SelfAdjoint : r.coin() ? Mode::Bunched : Mode::Interleaved;
            s->raw = 1 + r.below(s->mode == Mode::SelfAdjoint ? max_ops : (max_ops + 1) / 2);
            AlgebraicPrecontext apc(static_cast<oper_name_t>(s->raw), s->mode);
            const size_t n = apc.num_operators;
            std::vector<OperatorRule> rules; std::string text;
            const bool phases = allow_phase && r.chance(1, 2);
            for (size_t k = r.below(4); k > 0; --k) {
                Word l; for (size_t i = 1 + r.below(3); i > 0; --i) l.push_back(r.below(n));
                Word q; for (size_t i = r.below(l.size()); i > 0; --i) q.push_back(r.below(n));
                int ph = phases ? (r.coin() ? 2 : 0) : 0;
                if (phases && r.chance(1, 2) && l.size() == 2 && l[0] != l[1]) { q = {l[1], l[0]}; if (l < q) std::swap(l, q); ph = 2; } // anticommutation
                const bool zero = r.chance(1, 4);
                text += wstr(l) + "->" + (zero ? "0 " : "i^" + std::to_string(ph) + wstr(q) + " ");
                rules.emplace_back(Moment::HashedSequence{to_storage(l), apc.hasher}, zero ? Moment::HashedSequence{true} : Moment::HashedSequence{to_storage(q), apc.hasher, sign_of(ph)});
            }
            const bool com = !phases && r.chance(1, 4), nor = r.chance(1, 4);
            auto ctx = std::make_unique<AlgebraicContext>(apc, com, nor, rules);
            s->desc = "algebraic(" + std::to_string(n) + (s->mode == Mode::SelfAdjoint ? " hermitian " : s->mode == Mode::Bunched ? " bunched " : " interleaved ") + (com ? "commutative " : "") + (nor ? "normal " : "") + text + ")";
            ctx->attempt_completion(25);
            if (!ctx->is_complete()) return nullptr;
            for (auto& [h, rule] : ctx->rulebook().rules()) if (rule.LHS().empty()) return nullptr;
            s->ctx = ctx.get(); s->owned = std::move(ctx);
            return s;
        }
    };

    /** A matrix system with its reference model. */
    struct Sys {
        enum Kind { Generic, Locality, Inflation, Pauli, Algebraic } kind;
        std::unique_ptr<Scen> scen;
        std::unique_ptr<MatrixSystem> ms;
        uint64_t salt = 1;
        std::vector<std::vector<std::vector<int>>> source_perms; // inflation: per element, per source: copy map
        size_t col = 0, row = 0; bool wrap = false, symmetric = false; // Pauli lattice
        mutable std::map<Word, std::pair<Word, Norm>> rep_cache;
        const std::string& desc() const { return scen->desc; }
        MatrixSystem& sys() { return *ms; }
        const SymbolTable& symbols() const { return ms->Symbols(); }
        size_t ops() const { return scen->ops(); }
        OperatorSequence make(const Word& w, int phase = 0) const { return scen->make(w, phase); }

        /** Take over the scenario's context. */
        template<class S, class Ctx> void adopt(double tol = 1.0) {
            auto* raw = static_cast<Ctx*>(scen->owned.release());
            ms = std::make_unique<S>(std::unique_ptr<Ctx>(raw), tol);
        }
        static std::unique_ptr<Sys> of(Kind k, std::unique_ptr<Scen> s, Rng& r, double tol = 1.0) {
            auto o = std::make_unique<Sys>(); o->kind = k; o->scen = std::move(s); o->salt = r.next();
            switch (k) {
                case Generic: o->adopt<MatrixSystem, Moment::Context>(tol); break;
                case Locality: o->adopt<Moment::Locality::LocalityMatrixSystem, Moment::Locality::LocalityContext>(tol); break;
                case Inflation: o->adopt<Moment::Inflation::InflationMatrixSystem, Moment::Inflation::InflationContext>(tol); o->make_perms(); break;
                case Pauli: {
                    auto* p = static_cast<PauliScen*>(o->scen.get())->pctx;
                    o->symmetric = p->translational_symmetry == Moment::Pauli::SymmetryType::Translational;
                    o->wrap = p->wrap == Moment::Pauli::WrapType::Wrap;
                    o->col = p->is_lattice() ? p->col_height : 1; o->row = p->is_lattice() ? p->row_width : p->qubit_size;
                    o->adopt<Moment::Pauli::PauliMatrixSystem, Moment::Pauli::PauliContext>(tol); break;
                }
                case Algebraic: o->adopt<Moment::Algebraic::AlgebraicMatrixSystem, Moment::Algebraic::AlgebraicContext>(tol); break;
            }
            return o;
        }
        Moment::Locality::LocalityMatrixSystem& locality() { return static_cast<Moment::Locality::LocalityMatrixSystem&>(*ms); }
        Moment::Inflation::InflationMatrixSystem& inflation() { return static_cast<Moment::Inflation::InflationMatrixSystem&>(*ms); }
        Moment::Pauli::PauliMatrixSystem& pauli() { return static_cast<Moment::Pauli::PauliMatrixSystem&>(*ms); }
        const LocalityScen& lscen() const { return static_cast<const LocalityScen&>(*scen); }
        const InflationScen& iscen() const { return static_cast<const InflationScen&>(*scen); }
        const PauliScen& pscen() const { return static_cast<const PauliScen&>(*scen); }

        void make_perms() {
            const auto& net = iscen().net;
            std::vector<std::vector<int>> perms; std::vector<int> p(net.inflation);
            for (size_t i = 0; i < p.size(); ++i) p[i] = static_cast<int>(i);
            do perms.push_back(p); while (std::next_permutation(p.begin(), p.end()));
            std::vector<size_t> idx(net.sources.size(), 0);
            while (true) {
                std::vector<std::vector<int>> e; for (auto i : idx) e.push_back(perms[i]);
                source_perms.push_back(e);
                size_t i = 0; while (i < idx.size() && ++idx[i] == perms.size()) idx[i++] = 0;
                if (i == idx.size()) break;
            }
        }
        /** All words naming the same moment (without adjoints). */
        std::set<Norm> orbit(const Norm& n) const {
            std::set<Norm> out{n};
            if (n.zero) return out;
            if (kind == Inflation) {
                const auto& s = iscen();
                for (auto& e : source_perms) {
                    Word w;
                    for (auto o : n.letters) {
                        auto cp = s.copy[o]; const auto& srcs = s.obs_sources[s.obs[o]];
                        for (size_t j = 0; j < cp.size(); ++j) cp[j] = e[srcs[j]][cp[j]];
                        w.push_back(s.lookup.at({s.obs[o], cp, s.outcome[o]}));
                    }
                    out.insert(scen->normal(w, n.phase));
                }
            } else if (kind == Pauli && symmetric) {
                for (size_t dr = 0; dr < col; ++dr) for (size_t dc = 0; dc < row; ++dc) {
                    if (wrap) { out.insert(shift(n, dr, dc, false)); }
                    else for (int sr : {1, -1}) for (int sc : {1, -1}) {
                        bool ok = true;
                        for (auto o : n.letters) { const long q = o / 3, rr = q % (long)col + sr * (long)dr, cc = q / (long)col + sc * (long)dc; if (rr < 0 || cc < 0 || rr >= (long)col || cc >= (long)row) { ok = false; break; } }
                        if (!ok) continue;
                        Word w; for (auto o : n.letters) { const long q = o / 3, rr = q % (long)col + sr * (long)dr, cc = q / (long)col + sc * (long)dc; w.push_back(3 * (cc * (long)col + rr) + o % 3); }
                        out.insert(scen->normal(w, n.phase));
                    }
                }
            }
            return out;
        }
        Norm shift(const Norm& n, size_t dr, size_t dc, bool) const {
            Word w; for (auto o : n.letters) { const size_t q = o / 3; w.push_back(static_cast<long>(3 * ((q / col + dc) % row * col + (q % col + dr) % col) + o % 3)); }
            return scen->normal(w, n.phase);
        }
        Word relabel(const Word& w) const {
            const auto& s = iscen(); if (!s.net.inflation) return w;
            std::map<std::pair<int, int>, int> name; std::map<int, int> used; Word out;
            for (auto o : w) {
                auto cp = s.copy[o]; const auto& srcs = s.obs_sources[s.obs[o]];
                for (size_t j = 0; j < cp.size(); ++j) { auto [it, fresh] = name.emplace(std::make_pair(srcs[j], cp[j]), used[srcs[j]]); if (fresh) ++used[srcs[j]]; cp[j] = it->second; }
                out.push_back(s.lookup.at({s.obs[o], cp, s.outcome[o]}));
            }
            std::sort(out.begin(), out.end());
            return out;
        }
        static bool shortlex_less(const Word& a, const Word& b) { return a.size() != b.size() ? a.size() < b.size() : a < b; }
        /** Representative letters of the class of a canonical word (phase must be stripped), ignoring adjoint. */
        Word rep_letters(const Word& w) const {
            if (kind == Inflation) { // as the library promises: copies labelled in order of first appearance, until stable
                Word cur = w;
                while (true) { Word next = relabel(cur); if (next == cur) return cur; cur = next; }
            }
            Word best = w;
            for (auto& n : orbit({false, 0, w})) if (shortlex_less(n.letters, best)) best = n.letters;
            return best;
        }
        /** (representative, normal form of adjoint's representative) for a canonical positive word. */
        const std::pair<Word, Norm>& rep(const Word& w) const {
            auto it = rep_cache.find(w);
            if (it != rep_cache.end()) return it->second;
            Word r0 = rep_letters(w);
            Norm adj = scen->adjoint(w, 0);
            if (!adj.zero) adj.letters = rep_letters(adj.letters);
            return rep_cache.emplace(w, std::make_pair(r0, adj)).first->second;
        }
        cd raw_value(const Word& w) const {
            uint64_t h = salt; for (auto x : w) h = (h ^ static_cast<uint64_t>(x + 1)) * 0x9E3779B97F4A7C15ULL + 0x7f4a7c15;
            Rng q(h); const double a = q.sym(), b = q.sym(); return {a + (a < 0 ? -0.2 : 0.2), b + (b < 0 ? -0.2 : 0.2)};
        }
        /** Generic value of a moment, respecting exactly the identifications of the scenario. */
        cd value(const Norm& n) const {
            if (n.zero) return 0.0;
            if (n.letters.empty()) return ipow(n.phase);
            auto& [r0, adj] = rep(n.letters);
            if (adj.zero) return 0.0;
            cd v;
            if (adj.letters == r0) { // conj(v) = i^k v
                v = raw_value(r0).real() * std::polar(1.0, -0.78539816339744830962 * adj.phase);
            } else if (shortlex_less(r0, adj.letters)) v = raw_value(r0);
            else v = std::conj(ipow(adj.phase) * raw_value(adj.letters));
            return ipow(n.phase) * v;
        }
        cd value(const OperatorSequence& s) const { return value(norm_of(s)); }
        cd value(const Word& w, int phase = 0) const { return value(scen->normal(w, phase)); }
        /** How the library must flag a word: (real part possible, imaginary part possible). */
        std::pair<bool, bool> parts(const Word& letters) const {
            if (letters.empty()) return {true, false};
            auto& [r0, adj] = rep(letters);
            if (adj.zero) return {false, false};
            if (adj.letters != r0) return {true, true};
            return {adj.phase != 2, adj.phase != 0};
        }
        cd value(const Moment::Symbol& s) const {
            if (s.has_sequence() || kind != Inflation) return value(s.sequence());
            cd v = 1.0; // product of moments that is itself no moment
            for (auto f : static_cast<const Moment::Inflation::InflationMatrixSystem&>(*ms).Factors()[s.Id()].canonical.symbols) v *= value(symbols()[f].sequence());
            return v;
        }
        cd value(const Monomial& m) const {
            if (m.id == 0) return 0.0;
            cd v = value(symbols()[m.id]);
            return m.factor * (m.conjugated ? std::conj(v) : v);
        }
        cd value(const Polynomial& p) const { cd v; for (auto& m : p) v += value(m); return v; }
        cd value(const RawPolynomial& p) const { cd v; for (auto& m : p) v += m.weight * value(m.sequence); return v; }
        /** Values of every entry. */
        Mat values(const SymbolicMatrix& m) const {
            const int d = static_cast<int>(m.Dimension()); Mat o(d, d);
            if (auto* mm = dynamic_cast<const MonomialMatrix*>(&m)) { for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o(i, j) = value(mm->SymbolMatrix(i, j)); }
            else { auto& pm = dynamic_cast<const PolynomialMatrix&>(m); for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o(i, j) = value(pm.SymbolMatrix(i, j)); }
            return o;
        }
        /** Value of adj(a) X b. */
        Norm sandwich(const Word& a, const Word& x, int phase, const Word& b) const {
            Word w;
            if (kind == Algebraic) { auto* as = static_cast<const AlgScen*>(scen.get()); for (auto it = a.rbegin(); it != a.rend(); ++it) w.push_back(as->conj_op(*it)); }
            else w.assign(a.rbegin(), a.rend());
            w.insert(w.end(), x.begin(), x.end()); w.insert(w.end(), b.begin(), b.end());
            return scen->normal(w, phase);
        }
        Norm canonical(Norm n) const { if (!n.zero) n.letters = rep_letters(n.letters); return n; }
        std::vector<Word> level_words(size_t level) const {
            std::vector<Word> v; for (auto& s : ms->Context().operator_sequence_generator(level)) v.push_back(to_word(s)); return v;
        }
        /** Highest level whose word list has at most cap entries (by a power bound), at most top. */
        size_t level_cap(double cap, size_t top) const {
            size_t l = 0; double n = 1; const double b = std::max<double>(1, static_cast<double>(ops()));
            while (l < top && n * b <= cap) { n *= b; ++l; }
            return l;
        }
        Word random_letters(Rng& r, size_t maxlen) const { return random_word(r, ops(), maxlen); }
        /** A word with nonzero normal form. */
        Word random_nonzero(Rng& r, size_t maxlen) const {
            for (int i = 0; i < 30; ++i) { auto n = scen->normal(random_letters(r, maxlen), 0); if (!n.zero) return n.letters; }
            return {};
        }
    };
    inline std::unique_ptr<Moment::Pauli::PauliContext> random_pauli_context(Rng& r, size_t max_q, bool may_sym = true) {
        using namespace Moment::Pauli;
        const auto W = r.coin() ? WrapType::Wrap : WrapType::None; const auto S = may_sym && r.coin() ? SymmetryType::Translational : SymmetryType::None;
        if (r.chance(1, 3)) for (int i = 0; i < 50; ++i) { const size_t h = 1 + r.below(3), w = 1 + r.below(3); if (h * w <= max_q) return std::make_unique<PauliContext>(h, w, W, S); }
        return std::make_unique<PauliContext>(1 + r.below(max_q), W, S);
    }
    inline std::unique_ptr<Sys> random_sys(Rng& r, int kind = -1, size_t size = 10, double tol = 1.0) {
        if (kind < 0) kind = static_cast<int>(r.below(5));
        switch (kind) {
            case Sys::Generic: return Sys::of(Sys::Generic, std::make_unique<GenericScen>(1 + r.below(4)), r, tol);
            case Sys::Locality: return Sys::of(Sys::Locality, std::make_unique<LocalityScen>(LocalityScen::random_spec(r, 3, 3, 3, size, r.chance(1, 6) ? 1 : 2)), r, tol);
            case Sys::Inflation: return Sys::of(Sys::Inflation, std::make_unique<InflationScen>(random_network(r, 3, 3, 3, 3, size)), r, tol);
            case Sys::Pauli: return Sys::of(Sys::Pauli, std::make_unique<PauliScen>(random_pauli_context(r, 5)), r, tol);
            default: while (true) { auto s = AlgScen::random(r); if (s) return Sys::of(Sys::Algebraic, std::move(s), r, tol); }
        }
    }

    /** C05's invariant over a whole symbol table; used as a monitor by other checks too. */
    inline void check_symbols(Ctx& c, const Sys& s, const char* when) {
        const auto& tab = s.symbols();
        const auto& ctx = s.ms->Context();
        CHECK(tab.size() >= 2, "reserved-symbols", s.desc() << " " << when);
        std::map<Word, long> seen; // representative (up to adjoint) -> id
        size_t re = 0, im = 0;
        for (size_t i = 0; i < tab.size(); ++i) {
            const auto& sym = tab[i];
            auto where = [&] { std::stringstream ss; ss << s.desc() << " " << when << " symbol " << i; if (sym.has_sequence()) ss << " " << norm_of(sym.sequence()).text(); return ss.str(); };
            CHECK(sym.Id() == static_cast<Moment::symbol_name_t>(i), "symbol-id", where());
            if (!sym.has_sequence()) { CHECK(false, "symbol-without-word", where()); continue; }
            const auto n = norm_of(sym.sequence());
            auto key = sym.basis_key();
            CHECK(key == tab.Basis(i), "basis-view", where());
            if (i == 0) { CHECK(n.zero && key.first == -1 && key.second == -1 && sym.is_hermitian() && sym.is_antihermitian(), "symbol-zero", where()); continue; }
            CHECK(!n.zero, "zero-word-symbol", where());
            if (i == 1) CHECK(n == Norm{} && key.first == 0 && key.second == -1, "symbol-identity", where());
            CHECK(n.phase == 0, "signed-symbol", where());
            if (n.phase != 0) continue;
            CHECK(n == s.scen->normal(n.letters, 0), "symbol-word-not-canonical", where());
            auto& [r0, adj] = s.rep(n.letters);
            Word cls = (!adj.zero && Sys::shortlex_less(adj.letters, r0)) ? adj.letters : r0;
            auto [it, fresh] = seen.emplace(cls, static_cast<long>(i));
            CHECK(fresh, "one-symbol-per-moment", where() << " same moment as symbol " << it->second << " " << norm_of(tab[it->second].sequence()).text());
            // flags
            auto [has_re, has_im] = s.parts(n.letters);
            CHECK((key.first >= 0) == has_re && (key.second >= 0) == has_im, "parts", where() << " real index " << key.first << " imaginary index " << key.second << ", should have real " << has_re << " imaginary " << has_im);
            CHECK(sym.is_hermitian() == !has_im && sym.is_antihermitian() == !has_re, "flags", where() << " hermitian " << sym.is_hermitian() << " antihermitian " << sym.is_antihermitian());
            // adjoint word
            CHECK(c.section.empty() || close(s.value(sym.sequence_conj()), std::conj(s.value(sym.sequence()))), "conj-word", where() << " conj " << norm_of(sym.sequence_conj()).text());
            // dense bijection with basis
            if (key.first >= 0) { CHECK(static_cast<size_t>(key.first) == re && re < tab.Basis.RealSymbolCount() && static_cast<size_t>(tab.Basis.RealSymbols()[re]) == i, "real-numbering", where()); ++re;
                CHECK(tab.Basis.imaginary_from_real(key.first) == key.second, "re-to-im", where()); }
            if (key.second >= 0) { CHECK(static_cast<size_t>(key.second) == im && im < tab.Basis.ImaginarySymbolCount() && static_cast<size_t>(tab.Basis.ImaginarySymbols()[im]) == i, "im-numbering", where()); ++im;
                CHECK(tab.Basis.real_from_imaginary(key.second) == key.first, "im-to-re", where()); }
            // look-ups
            auto look = [&](const OperatorSequence& q, const char* k) {
                auto res = tab.where(q);
                CHECK(res.found() && res->Id() == sym.Id(), k, where() << " looked up as " << norm_of(q).text() << (res.found() ? " found symbol " + std::to_string(res->Id()) : std::string(" not found")));
                if (!res.found()) return;
                cd v = s.value(sym.sequence()); if (res.is_conjugated) v = std::conj(v);
                CHECK(close(v * res.factor() * ipow(sign_int(q.get_sign())), s.value(q)) , "lookup-conjugation", where() << " looked up as " << norm_of(q).text() << " conjugated " << res.is_conjugated);
            };
            look(sym.sequence(), "lookup-word");
            auto adjn = s.scen->adjoint(n.letters, 0);
            if (!adjn.zero) look(s.make(adjn.letters, 0), "lookup-adjoint");
            int budget = 6;
            for (auto& o : s.orbit(n)) { if (!budget) break; if (s.rep_letters(o.letters) != r0) continue; --budget; look(s.make(o.letters, 0), "lookup-alias"); }
            auto m = tab.to_symbol(sym.sequence());
            CHECK(m.id == static_cast<long>(i) && !m.conjugated, "to-symbol", where());
            auto [idx, cj] = tab.hash_to_index(sym.hash());
            CHECK(idx == static_cast<ptrdiff_t>(i) && !cj, "hash-to-index", where());
        }
        CHECK(re == tab.Basis.RealSymbolCount() && im == tab.Basis.ImaginarySymbolCount(), "basis-count", s.desc() << " " << when << ": " << re << "/" << tab.Basis.RealSymbolCount() << " real, " << im << "/" << tab.Basis.ImaginarySymbolCount() << " imaginary");
        (void)ctx;
        c.count("symbols", tab.size());
    }
    inline std::string entry_text(const SymbolicMatrix& m, size_t i, size_t j) {
        std::stringstream ss;
        if (auto* mm = dynamic_cast<const MonomialMatrix*>(&m)) { auto& e = mm->SymbolMatrix(i, j); ss << e.factor << "#" << e.id << (e.conjugated ? "*" : ""); }
        else if (auto* pm = dynamic_cast<const PolynomialMatrix*>(&m)) for (auto& e : pm->SymbolMatrix(i, j)) ss << e.factor << "#" << e.id << (e.conjugated ? "*" : "") << " + ";
        return ss.str();
    }
    /** Properties every symbolic matrix must report about its own entries. */
    inline void check_properties(Ctx& c, const SymbolTable& table, const SymbolicMatrix& m, const std::string& what) {
        const size_t d = m.Dimension();
        std::set<Moment::symbol_name_t> ids, re, im; bool complex_coefs = false;
        auto take = [&](const Monomial& e) {
            ids.insert(e.id);
            if (e.id == 0) return;
            if (std::abs(e.factor.imag()) > 1e-12) complex_coefs = true;
        };
        for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
            if (auto* mm = dynamic_cast<const MonomialMatrix*>(&m)) take(mm->SymbolMatrix(i, j));
            else for (auto& e : dynamic_cast<const PolynomialMatrix&>(m).SymbolMatrix(i, j)) take(e);
        }
        if (m.is_monomial()) { for (auto id : ids) { auto k = table[id].basis_key(); if (k.first >= 0) re.insert(k.first); if (k.second >= 0) im.insert(k.second); } }
        else { // only the parts that occur: X + X* has no imaginary part
            auto& pm = dynamic_cast<const PolynomialMatrix&>(m);
            for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
                std::map<Moment::symbol_name_t, std::pair<cd, cd>> f;
                for (auto& e : pm.SymbolMatrix(i, j)) (e.conjugated ? f[e.id].second : f[e.id].first) += e.factor;
                for (auto& [id, ab] : f) {
                    auto k = table[id].basis_key(); const bool both = k.first >= 0 && k.second >= 0;
                    if (k.first >= 0 && (!both || std::abs(ab.first + ab.second) > 1e-9)) re.insert(k.first);
                    if (k.second >= 0 && (!both || std::abs(ab.first - ab.second) > 1e-9)) im.insert(k.second);
                }
            }
        }
        auto inc = m.IncludedSymbols(); inc.erase(0); auto want = ids; want.erase(0);
        CHECK(inc == want, "included-symbols", what << ": lists {" << join(inc) << "}, entries have {" << join(want) << "}");
        CHECK(std::set<Moment::symbol_name_t>(m.RealBasisIndices()) == re, "real-basis-set", what << ": {" << join(m.RealBasisIndices()) << "} want {" << join(re) << "}");
        CHECK(std::set<Moment::symbol_name_t>(m.ImaginaryBasisIndices()) == im, "im-basis-set", what << ": {" << join(m.ImaginaryBasisIndices()) << "} want {" << join(im) << "}");
        CHECK(m.HasComplexBasis() == !im.empty(), "complex-basis-flag", what);
        CHECK(m.HasComplexCoefficients() == complex_coefs, "complex-coefficients-flag", what << " flag " << m.HasComplexCoefficients());
        for (auto id : want) { auto it = m.BasisKey().find(id); CHECK(it != m.BasisKey().end() && it->second == table[id].basis_key(), "basis-key", what << " symbol " << id); }
    }
    inline void check_properties(Ctx& c, const Sys& s, const SymbolicMatrix& m, const std::string& what, bool check_hermitian = true) {
        check_properties(c, s.symbols(), m, what);
        if (check_hermitian) {
            Mat v = s.values(m); bool herm = true;
            for (int i = 0; i < v.n && herm; ++i) for (int j = 0; j <= i; ++j) if (!close(v(i, j), std::conj(v(j, i)))) { herm = false; break; }
            CHECK(m.Hermitian() == herm, "hermitian-flag", what << ": flagged " << m.Hermitian() << ", entries say " << herm);
        }
    }
}

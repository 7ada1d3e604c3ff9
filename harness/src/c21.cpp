// C21: matrix requests are idempotent, descriptions and indices stay consistent, and failing requests leave the system usable.
#include "reqs.h"
#include "symm.h"
#include "matrix/substituted_matrix.h"
#include "scenarios/imported/imported_matrix_system.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "symbolic/rules/moment_rulebook.h"
using namespace verif;
using namespace Moment;

namespace {
    uint64_t mix(uint64_t h, uint64_t x) { return (h ^ x) * 0x9E3779B97F4A7C15ULL + 0x1234567; }
    uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
    uint64_t mix(uint64_t h, const Monomial& e) { return mix(mix(mix(mix(h, static_cast<uint64_t>(e.id)), e.conjugated), bits(e.factor.real() + 0.0)), bits(e.factor.imag() + 0.0)); }
    /** All content of a matrix. */
    uint64_t print(const SymbolicMatrix& m, bool entries_only = false) {
        uint64_t h = m.Dimension(); const size_t d = m.Dimension();
        if (auto* mm = dynamic_cast<const MonomialMatrix*>(&m)) { for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) h = mix(h, entries_only ? Monomial{mm->SymbolMatrix(i, j).id, std::abs(mm->SymbolMatrix(i, j).factor), false} : mm->SymbolMatrix(i, j)); }
        else if (auto* pm = dynamic_cast<const PolynomialMatrix*>(&m)) for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) for (auto& e : pm->SymbolMatrix(i, j)) h = mix(h, e);
        if (entries_only) return mix(h, m.Hermitian()); // (imports can make a known symbol real, and so rewrite conjugates and change which parts are listed: C19)
        h = mix(h, m.Hermitian()); h = mix(h, m.HasComplexBasis()); h = mix(h, m.HasComplexCoefficients());
        for (auto x : m.IncludedSymbols()) h = mix(h, static_cast<uint64_t>(x));
        for (auto x : m.RealBasisIndices()) h = mix(h, static_cast<uint64_t>(x));
        for (auto x : m.ImaginaryBasisIndices()) h = mix(h, static_cast<uint64_t>(x));
        return h;
    }
    /** One description, and every way to ask about it. */
    struct Handle {
        std::function<std::pair<size_t, const SymbolicMatrix*>(MTP)> create; std::function<const SymbolicMatrix*(MTP)> call;
        std::function<ptrdiff_t()> index; std::function<bool()> contains; std::function<const SymbolicMatrix*()> find, look;
    };
    template<class MI> typename MI::MatrixSystemType& mi_system(MI&);
    template<class MI, class I> Handle handle(MatrixSystem& ms, MI& mi, I idx) {
        Handle h;
        h.create = [&mi, idx](MTP mt) { auto [i, m] = mi.create(idx, mt); return std::pair<size_t, const SymbolicMatrix*>{static_cast<size_t>(i), &m}; };
        h.call = [&mi, idx](MTP mt) -> const SymbolicMatrix* { return &mi(idx, mt); };
        h.index = [&mi, idx] { return mi.find_index(idx); };
        h.contains = [&mi, idx] { return mi.contains(idx); };
        if constexpr (requires { idx.to_string(mi_system(mi)); } || std::is_same_v<I, size_t>) {
            h.find = [&ms, &mi, idx]() -> const SymbolicMatrix* { auto lock = ms.get_read_lock(); return &mi.find(lock, idx); };
            h.look = [&mi, idx]() -> const SymbolicMatrix* { return &std::as_const(mi)(idx); };
        } else h.find = h.look = [&ms, &mi, idx]() -> const SymbolicMatrix* { auto lock = ms.get_read_lock(); const auto i = mi.find_index(idx); return &std::as_const(ms)[i]; };
        return h;
    }

    struct Known { std::string key; ptrdiff_t index; const SymbolicMatrix* m; uint64_t h; Handle ask; bool described = true, gone = false; };
    /** A system and everything it has promised so far. */
    struct Side {
        MatrixSystem* ms; std::vector<Known> known; std::map<std::string, size_t> by_key; std::vector<const MomentRulebook*> books; std::vector<size_t> book_sizes; std::string hist; bool parts_made = false, entries_only = false;
        const Known* get(const std::string& key) const { auto it = by_key.find(key); return it == by_key.end() ? nullptr : &known[it->second]; }
        void watch(Ctx& c, const std::string& when) {
            std::set<ptrdiff_t> used;
            for (auto& k : known) {
                auto where = [&] { return hist + " | " + when + ": " + k.key; };
                CHECK(used.insert(k.index).second, "index-shared", where() << " shares index " << k.index);
                if (k.gone) { CHECK(verif::throws([&] { (void) (*ms)[k.index]; }) && verif::throws([&] { (void) ms->get(k.index); }), "deleted-readable", where()); continue; }
                if (!CHECK(k.index >= 0 && static_cast<size_t>(k.index) < ms->size(), "index-range", where() << " index " << k.index << " of " << ms->size())) return;
                CHECK(&(*ms)[k.index] == k.m && &ms->get(k.index) == k.m, "index-object", where() << " index " << k.index);
                if (!CHECK(print(*k.m, entries_only) == k.h, "content-changed", where())) return;
                if (!k.described) continue;
                CHECK(k.ask.index() == k.index && k.ask.contains(), "description-index", where() << " found at " << k.ask.index() << ", made at " << k.index);
                CHECK(k.ask.find() == k.m && k.ask.look() == k.m, "description-object", where());
            }
            for (size_t i = 0; i < books.size(); ++i) { CHECK(&ms->Rulebook(i) == books[i], "book-object", hist << " " << when << " book " << i); CHECK(books[i]->size() == book_sizes[i], "book-changed", hist << " " << when << " book " << i << ": " << books[i]->size() << " rules, had " << book_sizes[i]); }
            c.count("observations", known.size());
        }
        /** Ask; style picks the entry point. */
        const Known* request(Ctx& c, const std::string& key, const Handle& h, Rng& r, bool repeat_ok = true) {
            // Polynomial matrices make (and register) matrices for their words, so those may be known already.
            const bool part = !key.rfind("LM", 0) || !key.rfind("pLM", 0) || !key.rfind("comm", 0) || !key.rfind("anti", 0) || !key.rfind("MM", 0);
            const auto* old = get(key); const size_t before = ms->size(); const auto mt = r.chance(1, 3) ? MTP::Always : MTP::Never;
            if (!old && !(part && parts_made)) CHECK(h.index() < 0 && !h.contains(), "known-before-request", hist << " | " << key << " at " << h.index());
            const SymbolicMatrix* m; ptrdiff_t at;
            if (r.coin()) { auto [i, p] = h.create(mt); at = static_cast<ptrdiff_t>(i); m = p; } else { m = h.call(mt); at = h.index(); }
            if (old) {
                CHECK(m == old->m && at == old->index, "repeat-differs", hist << " | " << key << " index " << at << " was " << old->index);
                CHECK(ms->size() == before, "repeat-creates", hist << " | " << key << ": " << before << " matrices became " << ms->size());
                c.count("repeats"); return old;
            }
            if (m->is_monomial() == false || !key.rfind("PLM", 0) || !key.rfind("pPLM", 0) || !key.rfind("poly", 0) || !key.rfind("ext", 0)) parts_made = true;
            (void) repeat_ok; if (!adopt(c, key, at, m, h)) return nullptr;
            CHECK(ms->size() > before || (part && parts_made), "not-stored", hist << " | " << key);
            return get(key);
        }
        size_t used(const SymbolicMatrix* m) const { size_t n = 0; for (auto& k : known) n += k.m == m; return n; }
        bool adopt(Ctx& c, const std::string& key, ptrdiff_t at, const SymbolicMatrix* m, const Handle& h, bool described = true) {
            (void) c; by_key[key] = known.size(); known.push_back({key, at, m, print(*m, entries_only), h, described}); return true;
        }
    };

    /** One valid request of a scenario, described so that it can be made to two systems with different symbol numbers. */
    struct Plan { int kind; size_t level = 0, nb = 0; Norm word; std::vector<std::pair<Word, cd>> poly; std::string source; size_t book = 0; };
    std::string text(const Plan& p) {
        static const char* n[] = {"MM", "LM", "PLM", "subst", "pMM", "pLM", "pPLM", "comm", "anti", "polycomm", "polyanti", "ext"};
        std::string s = std::string(n[p.kind]) + std::to_string(p.level); if (p.kind == 3) return s + "(" + p.source + "; book " + std::to_string(p.book) + ")";
        if (p.kind >= 4 && p.kind <= 10 && p.nb) s += "/" + std::to_string(p.nb);
        if (p.kind == 1 || p.kind == 5 || p.kind == 7 || p.kind == 8) s += p.word.text();
        for (auto& [w, f] : p.poly) { std::stringstream ss; ss << "+" << f << wstr(w); s += ss.str(); }
        return s;
    }
    Polynomial poly_of(Sys& s, const Plan& p) {
        RawPolynomial raw; for (auto& [w, f] : p.poly) raw.emplace_back(s.make(w), f);
        auto lock = s.ms->get_write_lock(); return s.ms->polynomial_factory().register_and_construct(s.ms->Symbols(), raw);
    }
    /** Key by what is described, not by how it was written. */
    std::string key_of(Sys& s, const Plan& p) {
        Plan q = p;
        if (q.kind == 4 && !q.nb) q.kind = 0;
        if (q.kind == 5 && !q.nb) q.kind = 1;
        if (q.kind == 6 && !q.nb) q.kind = 2;
        if (q.poly.empty()) return text(q);
        auto poly = poly_of(s, p); q.poly.clear(); std::string t = text(q); for (auto& m : poly) { std::stringstream ss; ss << "+" << m.factor << "#" << m.id << (m.conjugated ? "*" : ""); t += ss.str(); }
        return t;
    }
    std::set<symbol_name_t> ext_of(Sys& s, const Plan& p) { std::set<symbol_name_t> e; auto lock = s.ms->get_read_lock(); for (auto& [w, f] : p.poly) { auto found = s.ms->Symbols().where(s.make(w)); if (found.found()) e.insert(found->Id()); } return e; }
    std::string ext_key(Sys& s, const Plan& p) { return "ext" + std::to_string(p.level) + "{" + join(ext_of(s, p)) + "}"; }
    Handle handle_of(Sys& s, Side& side, const Plan& p) {
        auto& ms = *s.ms; Pauli::NearestNeighbourIndex nn{p.level, p.nb};
        auto word = [&] { return s.make(p.word.letters, p.word.phase); };
        switch (p.kind) {
            case 0: return handle(ms, ms.MomentMatrix, p.level);
            case 1: return handle(ms, ms.LocalizingMatrix, LocalizingMatrixIndex{p.level, word()});
            case 2: return handle(ms, ms.PolynomialLocalizingMatrix, PolynomialLocalizingMatrixIndex{p.level, poly_of(s, p)});
            case 3: return handle(ms, ms.SubstitutedMatrix, SubstitutedMatrixIndex{side.get(p.source)->index, static_cast<ptrdiff_t>(p.book)});
            case 4: return handle(ms, s.pauli().PauliMomentMatrices, Pauli::MomentMatrixIndex{p.level, p.nb});
            case 5: return handle(ms, s.pauli().PauliLocalizingMatrices, Pauli::LocalizingMatrixIndex{nn, word()});
            case 6: return handle(ms, s.pauli().PauliPolynomialLocalizingMatrices, Pauli::PolynomialLocalizingMatrixIndex{nn, poly_of(s, p)});
            case 7: return handle(ms, s.pauli().CommutatorMatrices, Pauli::CommutatorMatrixIndex{nn, word()});
            case 8: return handle(ms, s.pauli().AnticommutatorMatrices, Pauli::AnticommutatorMatrixIndex{nn, word()});
            case 9: return handle(ms, s.pauli().PolynomialCommutatorMatrices, Pauli::PolynomialCommutatorMatrixIndex{nn, poly_of(s, p)});
            case 10: return handle(ms, s.pauli().PolynomialAnticommutatorMatrices, Pauli::PolynomialAnticommutatorMatrixIndex{nn, poly_of(s, p)});
            default: return handle(ms, s.inflation().ExtendedMatrices, Inflation::ExtendedMatrixIndex{p.level, ext_of(s, p)});
        }
    }
    Plan random_plan(Rng& r, Sys& s, double cap) {
        Plan p; const bool pauli = s.kind == Sys::Pauli;
        p.kind = pauli ? (r.chance(1, 3) ? static_cast<int>(r.below(3)) : 4 + static_cast<int>(r.below(7))) : s.kind == Sys::Inflation && r.chance(1, 4) ? 11 : static_cast<int>(r.below(3));
        const bool big = p.kind == 0 || p.kind == 4; p.level = r.below(s.level_cap(big ? cap : cap / 2, 3) + 1);
        if (pauli && p.kind >= 4 && r.coin()) p.nb = s.pscen().pctx->is_lattice() ? (p.level <= 2 ? 1 : 0) : 1 + r.below(3);
        p.word = s.scen->normal(s.random_nonzero(r, 3), r.chance(1, 3) ? static_cast<int>(r.below(4)) : 0);
        if (p.kind == 2 || p.kind == 6 || p.kind == 9 || p.kind == 10) for (size_t k = 1 + r.below(3); k > 0; --k) p.poly.emplace_back(s.random_nonzero(r, 2), cd{std::round(r.sym() * 4) + 0.5, r.coin() ? 0 : std::round(r.sym() * 3)});
        if (p.kind == 11) { p.level = std::min<size_t>(p.level, 1); for (size_t k = 1 + r.below(2); k > 0; --k) p.poly.emplace_back(s.random_nonzero(r, 1), 1.0); }
        return p;
    }

    void history(Ctx& c, Rng& r, int kind, double cap, int steps) {
        Rng twin = r; auto a = random_sys(r, kind, 8), b = random_sys(twin, kind, 8); Rng bad(r.next() ^ 0x5bd1e995);
        Side A{a->ms.get()}, B{b->ms.get()}; A.hist = B.hist = a->desc(); auto& ms = *a->ms;
        std::vector<Plan> pool; std::vector<Word> book_words; size_t clones = 0, failures = 0; std::vector<std::string> raw;
        auto fail = [&](const std::string& what, auto&& f) {
            const size_t n = ms.size(); ++failures; A.hist += " !" + what; c.note(A.hist);
            CHECK(verif::throws(f), "failure-not-reported", A.hist);
            CHECK(ms.size() == n, "failure-changed-size", A.hist << ": " << n << " matrices became " << ms.size());
            A.watch(c, "after failed " + what); c.count("failed_requests");
        };
        for (int step = 0; step < steps && c.violations.empty(); ++step) {
            const auto size = static_cast<ptrdiff_t>(ms.size());
            switch (r.below(9)) {
                case 0: case 1: case 2: case 3: { // a request, or one made before
                    Plan p = !pool.empty() && r.chance(1, 4) ? pool[r.below(pool.size())] : random_plan(r, *a, cap);
                    if (p.kind == 11) { if (!A.get("MM" + std::to_string(p.level))) { p.kind = 0; p.poly.clear(); } }
                    if (p.kind == 11 && ext_of(*a, p).size() != ext_of(*b, p).size()) break; // a failed request may have given words to factors
                    if (!p.poly.empty() && p.kind != 11) { if (poly_of(*a, p).empty() || poly_of(*b, p).empty()) break; }
                    A.hist += " " + text(p); c.note(A.hist); B.hist = A.hist;
                    const std::string ka = p.kind == 11 ? ext_key(*a, p) : key_of(*a, p), kb = p.kind == 11 ? ext_key(*b, p) : key_of(*b, p);
                    Rng other = r; auto* x = A.request(c, ka, handle_of(*a, A, p), r); auto* y = B.request(c, kb, handle_of(*b, B, p), other);
                    if (x && y) compare(c, *a, *x->m, *b, *y->m, A.hist + " : " + ka);
                    pool.push_back(p);
                    break;
                }
                case 4: { // same words, same matrix content, but nothing to find it by: always a new matrix
                    Req q = random_req(r, *a, cap); if (q.kind < 2) break; if (q.kind != 2 && q.kind != 5) break;
                    A.hist += " raw " + text(q); c.note(A.hist); B.hist = A.hist; const auto& m = ask(*a, q, MTP::Never); const auto& n = ask(*b, q, MTP::Never); A.parts_made = B.parts_made = true;
                    const std::string k = "raw" + std::to_string(raw.size()); A.adopt(c, k, static_cast<ptrdiff_t>(ms.size()) - 1, &m, {}, false); B.adopt(c, k, static_cast<ptrdiff_t>(b->ms->size()) - 1, &n, {}, false); raw.push_back(k);
                    compare(c, *a, m, *b, n, A.hist); break;
                }
                case 5: { // clone of something known
                    if (A.known.empty()) break; auto& k = A.known[r.below(A.known.size())]; const auto* o = B.get(k.key); if (k.gone || !o) break;
                    A.hist += " clone(" + k.key + ")"; c.note(A.hist); B.hist = A.hist; const std::string key = "clone" + std::to_string(clones++);
                    auto put = [&](MatrixSystem& s, Side& side, const SymbolicMatrix& m, uint64_t h) { auto copy = m.clone(r.coin() ? MTP::Always : MTP::Never); const auto* p = copy.get(); CHECK(print(*p) == h, "clone-differs", A.hist); ptrdiff_t at; { auto lock = s.get_write_lock(); at = s.push_back(lock, std::move(copy)); } side.adopt(c, key, at, p, {}, false); };
                    const auto *km = k.m; const auto kh = k.h, oh = o->h; const auto* om = o->m; put(ms, A, *km, kh); put(*b->ms, B, *om, oh); raw.push_back(key); break;
                }
                case 6: { // delete something no description refers to
                    if (raw.empty()) break; const std::string key = raw[r.below(raw.size())]; A.hist += " delete(" + key + ")"; c.note(A.hist); B.hist = A.hist;
                    bool in_use = false; (void) in_use;
                    for (Side* s : {&A, &B}) { auto& k = s->known[s->by_key.at(key)]; const bool was = k.gone; auto lock = s->ms->get_write_lock(); const size_t n = s->ms->size(); CHECK(s->ms->delete_matrix(lock, k.index) == !was, "delete-result", s->hist); CHECK(s->ms->size() == n, "delete-size", s->hist); k.gone = true; }
                    c.count("deletions"); break;
                }
                case 7: { // a rulebook, or a substitution
                    if (kind == Sys::Inflation) { if (r.coin()) break; }
                    if (A.books.size() < 3 && r.coin()) {
                        Word w = a->scen->normal(a->random_nonzero(r, 2), 0).letters; if (w.empty()) break; const cd v{0.25 * static_cast<double>(1 + r.below(3)), 0};
                        auto put = [&](Sys& s, Side& side) { std::unique_ptr<MomentRulebook> book; { auto lock = s.ms->get_write_lock(); book = std::make_unique<MomentRulebook>(*s.ms); RawPolynomial p; p.emplace_back(s.make(w), 1.0); p.emplace_back(s.make({}), -v); std::vector<Polynomial> in; in.push_back(s.ms->polynomial_factory().register_and_construct(s.ms->Symbols(), p)); book->add_raw_rules(std::move(in)); if (!book->complete()) return false; } auto [id, ref] = s.ms->Rulebook.add(std::move(book)); CHECK(id == side.books.size(), "book-index", side.hist << " got " << id); side.books.push_back(&ref); side.book_sizes.push_back(ref.size()); return true; };
                        A.hist += " book " + wstr(w) + "=" + std::to_string(v.real()); c.note(A.hist); B.hist = A.hist; bool oka = false, okb = false;
                        try { oka = put(*a, A); } catch (const std::exception&) {} try { okb = put(*b, B); } catch (const std::exception&) {}
                        if (!CHECK(oka == okb, "book-outcome", A.hist)) return;
                    } else if (!A.books.empty() && !A.known.empty()) {
                        auto& k = A.known[r.below(A.known.size())]; const auto* o = B.get(k.key); if (!o || k.gone) break;
                        Plan p{3}; p.source = k.key; p.book = r.below(A.books.size()); if (p.source.size() > 400) break;
                        A.hist += " " + text(p); c.note(A.hist); B.hist = A.hist; const std::string kk = text(p); auto src = A.get(k.key); (void) src;
                        Rng other = r; auto* x = A.request(c, kk, handle_of(*a, A, p), r); auto* y = B.request(c, kk, handle_of(*b, B, p), other);
                        for (Side* s : {&A, &B}) for (size_t i = 0; i < s->books.size(); ++i) s->book_sizes[i] = s->books[i]->size();
                        if (x && y) compare(c, *a, *x->m, *b, *y->m, A.hist); pool.push_back(p);
                    }
                    break;
                }
                default: break;
            }
            for (Side* s : {&A, &B}) for (size_t i = 0; i < s->books.size(); ++i) if (kind == Sys::Inflation) s->book_sizes[i] = s->books[i]->size(); // factorised symbols may extend rules
            if (!c.violations.empty()) return;
            A.watch(c, "after request"); B.watch(c, "twin after request");
            if (!bad.coin()) continue;
            // Failing requests, made to A only.
            const ptrdiff_t far[] = {-1, size, size + 1, size + 1000, std::numeric_limits<ptrdiff_t>::max(), std::numeric_limits<ptrdiff_t>::min()};
            const ptrdiff_t now = static_cast<ptrdiff_t>(ms.size()); ptrdiff_t f = far[bad.below(6)]; if (f >= 0 && f < now) f = now; std::vector<const Known*> gone; for (auto& k : A.known) if (k.gone) gone.push_back(&k);
            if (!gone.empty() && bad.coin()) f = gone[bad.below(gone.size())]->index;
            switch (bad.below(8)) {
                case 0: fail("read matrix " + std::to_string(f), [&] { (void) ms.get(f); }); break;
                case 1: fail("read matrix " + std::to_string(f) + " as constant", [&] { (void) std::as_const(ms)[f]; }); break;
                case 2: { A.hist += " !delete " + std::to_string(f); c.note(A.hist); { auto lock = ms.get_write_lock(); CHECK(!ms.delete_matrix(lock, f), "bad-delete-accepted", A.hist); } A.watch(c, "after failed delete"); c.count("failed_requests"); ++failures; break; }
                case 3: { const bool bad_matrix = A.books.empty() || now == 0 || bad.coin(); const ptrdiff_t m = bad_matrix ? f : static_cast<ptrdiff_t>(bad.below(static_cast<uint64_t>(now))); const ptrdiff_t bk = bad_matrix && !A.books.empty() && bad.coin() ? 0 : static_cast<ptrdiff_t>(A.books.size() + bad.below(3)); SubstitutedMatrixIndex idx{m, bk}; if (ms.SubstitutedMatrix.contains(idx)) break; // (made while its source still existed)
                    fail("substitute matrix " + std::to_string(m) + " with book " + std::to_string(bk), [&] { if (bad.coin()) ms.SubstitutedMatrix.create(idx, bad.coin() ? MTP::Always : MTP::Never); else (void) ms.SubstitutedMatrix(idx); }); CHECK(!ms.SubstitutedMatrix.contains(idx) && ms.SubstitutedMatrix.find_index(idx) < 0, "failed-request-recorded", A.hist); break; }
                case 4: fail("find book", [&] { (void) ms.Rulebook.find(A.books.size() + bad.below(3)); }); if (bad.coin()) fail("merge into missing book", [&] { MomentRulebook book(ms); (void) ms.Rulebook.merge_in(A.books.size() + bad.below(3), std::move(book)); }); break;
                case 5: { Plan p = random_plan(bad, *a, cap); p.level += 7; if (p.kind == 11 || !p.poly.empty()) { p.kind = 0; p.poly.clear(); } auto h = handle_of(*a, A, p); fail("look for " + text(p), [&] { (void) h.find(); }); fail("look for " + text(p) + " as constant", [&] { (void) h.look(); }); CHECK(h.index() == -1 && !h.contains(), "unrequested-found", A.hist); break; }
                case 6: { const auto n = static_cast<symbol_name_t>(ms.Symbols().size()); const symbol_name_t id = bad.coin() ? n + (kind == Sys::Inflation ? 1000 : 0) /* a request may register factors */ + static_cast<symbol_name_t>(bad.below(3)) : -1 - static_cast<symbol_name_t>(bad.below(2));
                    if (kind == Sys::Inflation && bad.coin()) { std::set<symbol_name_t> e{id}; Inflation::ExtendedMatrixIndex idx{0, e}; if (!ms.MomentMatrix.contains(0)) break; fail("extend by unknown symbol " + std::to_string(id), [&] { (void) a->inflation().ExtendedMatrices.create(idx, bad.coin() ? MTP::Always : MTP::Never); }); CHECK(!a->inflation().ExtendedMatrices.contains(idx), "failed-request-recorded", A.hist); break; }
                    break; }
                default: if (kind == Sys::Pauli && a->pscen().pctx->is_lattice()) { Pauli::NearestNeighbourIndex nn{2, 2 + bad.below(2)}; Pauli::MomentMatrixIndex idx{nn.moment_matrix_level, nn.neighbours}; fail("too far neighbours", [&] { (void) a->pauli().PauliMomentMatrices.create(idx, MTP::Never); }); CHECK(!a->pauli().PauliMomentMatrices.contains(idx), "failed-request-recorded", A.hist); } break;
            }
        }
        if (A.known.size() > 2 && failures) c.nontrivial(A.hist);
        c.count("matrices", A.known.size());
    }
}
SECTION(history_generic) { c.for_cases(c.n(120, 2500), [&](Rng& r, uint64_t) { history(c, r, Sys::Generic, 30, 16); }); }
SECTION(history_locality) { c.for_cases(c.n(120, 2500), [&](Rng& r, uint64_t) { history(c, r, Sys::Locality, 30, 16); }); }
SECTION(history_algebraic) { c.for_cases(c.n(120, 2500), [&](Rng& r, uint64_t) { history(c, r, Sys::Algebraic, 30, 16); }); }
SECTION(history_inflation) { c.for_cases(c.n(100, 2000), [&](Rng& r, uint64_t) { history(c, r, Sys::Inflation, 24, 14); }); }
SECTION(history_pauli) { c.for_cases(c.n(120, 2500), [&](Rng& r, uint64_t) { history(c, r, Sys::Pauli, 30, 18); }); }

/** Systems derived by a symmetry: requests to either side, in any order. */
SECTION(derived) {
    c.for_cases(c.n(90, 2000), [&](Rng& r, uint64_t) {
        auto s = random_sym(r); auto elems = closure(s.gens, 24); if (elems.size() < 2) return;
        auto& sys = *s.sys; auto& ms = *sys.ms; const size_t len = 1 + r.below(std::max<size_t>(1, sys.level_cap(110, 4)));
        ms.generate_dictionary(len);
        Side base{&ms}; base.hist = s.desc + " length " + std::to_string(len);
        Symmetrized::SymmetrizedMatrixSystem sms(std::shared_ptr<MatrixSystem>(&ms, [](MatrixSystem*) {}),
            std::make_unique<Symmetrized::Group>(ms.Context(), std::make_unique<Symmetrized::Representation>(1, Symmetrized::Group::dimino_generation(sparse_all(s.gens)))), len, std::make_unique<Derived::LUMapCoreProcessor>());
        Side der{&sms}; der.hist = base.hist; size_t failures = 0; base.parts_made = der.parts_made = true;
        auto say = [&](const std::string& t) { base.hist += " " + t; der.hist = base.hist; c.note(base.hist); };
        auto fail = [&](const std::string& what, auto&& f, auto&& known) {
            const size_t n = sms.size(); ++failures; say("!" + what);
            CHECK(verif::throws(f), "failure-not-reported", der.hist); CHECK(sms.size() == n && !known(), "failure-recorded", der.hist);
            base.watch(c, "after failed " + what); der.watch(c, "after failed " + what); c.count("failed_requests");
        };
        for (int step = 0; step < 10 && c.violations.empty(); ++step) {
            const size_t level = r.below(len / 2 + 2);
            switch (r.below(6)) {
                case 0: if (level * 2 > len) fail("derived MM" + std::to_string(level), [&] { (void) sms.MomentMatrix(level); }, [&] { return sms.MomentMatrix.contains(level); });
                        else { say("derived MM" + std::to_string(level)); der.request(c, "MM" + std::to_string(level), handle(sms, sms.MomentMatrix, level), r); } break;
                case 1: { Word w = sys.random_nonzero(r, len); LocalizingMatrixIndex idx{std::min<size_t>(level, 1), sys.make(w)}; const std::string t = "LM" + std::to_string(idx.Level) + norm_of(idx.Word).text();
                        if (idx.Level * 2 + idx.Word.size() > len) fail("derived " + t, [&] { (void) sms.LocalizingMatrix(idx); }, [&] { return sms.LocalizingMatrix.contains(idx); });
                        else { say("derived " + t); der.request(c, t, handle(sms, sms.LocalizingMatrix, idx), r); } break; }
                case 2: { if (level * 2 > len) break; say("base MM" + std::to_string(level)); base.request(c, "MM" + std::to_string(level), handle(ms, ms.MomentMatrix, level), r); break; }
                case 3: { Word w = sys.random_nonzero(r, len); if (w.size() > len) break; LocalizingMatrixIndex idx{0, sys.make(w)}; const std::string t = "LM0" + norm_of(idx.Word).text(); say("base " + t); base.request(c, t, handle(ms, ms.LocalizingMatrix, idx), r); break; }
                case 4: { if (!ms.size()) break; const auto at = static_cast<ptrdiff_t>(r.below(ms.size())); say("derive " + std::to_string(at)); const bool aliased = sms.DerivedMatrices.contains(at); auto h = handle(sms, sms.DerivedMatrices, at); const std::string k = "derived" + std::to_string(at);
                        if (!der.get(k) && aliased) { const auto was = h.index(); const size_t n = sms.size(); auto* m = h.call(MTP::Never); CHECK(m == &sms[was] && sms.size() == n, "alias-repeat", der.hist); c.count("aliases"); } else der.request(c, k, h, r); break; }
                default: { const ptrdiff_t bad[] = {-1, static_cast<ptrdiff_t>(ms.size()), static_cast<ptrdiff_t>(ms.size() + 5), std::numeric_limits<ptrdiff_t>::max(), std::numeric_limits<ptrdiff_t>::min()}; const auto at = bad[r.below(5)];
                        fail("derive " + std::to_string(at), [&] { (void) sms.DerivedMatrices(at); }, [&] { return sms.DerivedMatrices.contains(at); }); break; }
            }
            if (!c.violations.empty()) return;
            base.watch(c, "after request"); der.watch(c, "after request");
        }
        c.count("matrices", der.known.size() + base.known.size()); if (der.known.size() > 1 && failures) c.nontrivial(der.hist);
    });
}

/** Imported systems cannot generate anything, but must survive being asked. */
SECTION(imported) {
    c.for_cases(c.n(300, 6000), [&](Rng& r, uint64_t) {
        const bool real = r.coin(); Imported::ImportedMatrixSystem ims(real); Side s{&ims}; s.entries_only = true; s.hist = std::string("imported") + (real ? " real" : ""); size_t failures = 0, made = 0;
        auto fail = [&](const std::string& what, auto&& f) { const size_t n = ims.size(), k = ims.Symbols().size(); ++failures; s.hist += " !" + what; c.note(s.hist); CHECK(verif::throws(f), "failure-not-reported", s.hist); CHECK(ims.size() == n && ims.Symbols().size() == k, "failure-changed-size", s.hist); s.watch(c, "after failed " + what); c.count("failed_requests"); };
        auto random = [&](size_t d, bool herm) { std::vector<Monomial> v(d * d); for (size_t i = 0; i < d; ++i) for (size_t j = i; j < d; ++j) { Monomial m{static_cast<symbol_name_t>(i == j ? 1 : 2 + r.below(5)), std::round(r.sym() * 4) + 0.5, false}; v[j * d + i] = m; if (herm && !real && i != j) m.conjugated = true; v[i * d + j] = m; } return std::make_unique<SquareMatrix<Monomial>>(d, std::move(v)); };
        for (int step = 0; step < 8 && c.violations.empty(); ++step) switch (r.below(7)) {
            case 0: case 1: { const size_t d = 1 + r.below(4); const bool herm = r.coin(); s.hist += " import" + std::to_string(d) + (herm ? " hermitian" : ""); c.note(s.hist); auto raw = random(d, herm);
                try { auto [at, m] = ims.import_matrix(std::move(raw), !real && herm, herm); s.adopt(c, "import" + std::to_string(made++), static_cast<ptrdiff_t>(at), &m, {}, false); s.watch(c, "after import"); } catch (const std::exception&) { s.hist += " refused"; s.watch(c, "after refused import"); ++failures; } break; }
            case 2: fail("MM", [&] { (void) ims.MomentMatrix(r.below(3)); }); CHECK(!ims.MomentMatrix.contains(0) && !ims.MomentMatrix.contains(1) && !ims.MomentMatrix.contains(2), "failed-request-recorded", s.hist); break;
            case 3: { LocalizingMatrixIndex idx{r.below(2), OperatorSequence::Identity(ims.Context())}; fail("LM", [&] { (void) ims.LocalizingMatrix(idx); }); CHECK(!ims.LocalizingMatrix.contains(idx), "failed-request-recorded", s.hist); break; }
            case 4: { Polynomial p{Monomial{static_cast<symbol_name_t>(r.below(ims.Symbols().size())), 2.0, false}}; PolynomialLocalizingMatrixIndex idx{0, p}; fail("PLM", [&] { (void) ims.PolynomialLocalizingMatrix(idx); }); CHECK(!ims.PolynomialLocalizingMatrix.contains(idx), "failed-request-recorded", s.hist); break; }
            case 5: if (real) fail("complex import", [&] { auto m = random(2, true); (void) ims.import_matrix(std::move(m), true, true); }); break;
            default: { if (s.known.empty()) break; auto& k = s.known[r.below(s.known.size())]; auto lock = ims.get_write_lock(); s.hist += " delete " + k.key; c.note(s.hist); CHECK(ims.delete_matrix(lock, k.index) == !k.gone, "delete-result", s.hist); k.gone = true; break; }
        }
        s.watch(c, "finally"); if (failures && made) c.nontrivial(s.hist); c.count("matrices", made);
    });
}

namespace {
    struct Injected : std::runtime_error { Injected() : std::runtime_error{"injected fault"} {} };
    /** A scenario whose operations fail at a chosen call; words may alias (operator 1 measured is as operator 0). */
    struct FaultContext : Moment::Context {
        const bool alias; mutable std::atomic<long> countdown{-1}; mutable std::atomic<long> calls{0}; int where = 0;
        FaultContext(size_t n, bool alias_in) : Context{n}, alias{alias_in} {}
        void tick(int from) const { if (from != where) return; ++calls; if (countdown.load() >= 0 && countdown.fetch_sub(1) == 0) throw Injected{}; }
        bool can_have_aliases() const noexcept override { return alias; }
        OperatorSequence multiply(const OperatorSequence& l, const OperatorSequence& r) const override { tick(0); return Context::multiply(l, r); }
        OperatorSequence simplify_as_moment(OperatorSequence&& seq) const override { tick(1); if (!alias || seq.zero()) return std::move(seq); sequence_storage_t w; for (auto o : seq) w.push_back(o == 1 ? 0 : o); return OperatorSequence{std::move(w), *this, seq.get_sign()}; }
        bool can_be_simplified_as_moment(const OperatorSequence& seq) const override { if (alias) for (auto o : seq) if (o == 1) return true; return false; }
    };
    std::string words(const SymbolTable& tab, const SymbolicMatrix& m) {
        std::stringstream ss; ss << m.Hermitian(); const size_t d = m.Dimension();
        auto one = [&](const Monomial& e) { ss << e.factor + std::complex<double>{0.0, 0.0} << norm_of(e.conjugated ? tab[e.id].sequence_conj() : tab[e.id].sequence()).text() << ";"; };
        if (auto* mm = dynamic_cast<const MonomialMatrix*>(&m)) { for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) one(mm->SymbolMatrix(i, j)); }
        else if (auto* pm = dynamic_cast<const PolynomialMatrix*>(&m)) for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) { std::vector<std::string> t; for (auto& e : pm->SymbolMatrix(i, j)) { std::stringstream s; s << e.factor + std::complex<double>{0.0, 0.0} << norm_of(e.conjugated ? tab[e.id].sequence_conj() : tab[e.id].sequence()).text(); t.push_back(s.str()); } std::sort(t.begin(), t.end()); for (auto& x : t) ss << x << "+"; ss << ";"; }
        return ss.str();
    }
    void faults(Ctx& c, Rng& r, bool threads) {
        const size_t n = 2 + r.below(2); const bool alias = r.coin();
        auto make = [&] { return std::make_unique<MatrixSystem>(std::make_unique<FaultContext>(n, alias)); };
        auto a = make(), b = make(); auto& ctx = dynamic_cast<FaultContext&>(a->Context()); const auto mt = threads ? MTP::Always : MTP::Never;
        Side s{a.get()}; s.hist = "faulty(" + std::to_string(n) + (alias ? " aliases" : "") + ")" + (threads ? " threads" : ""); s.parts_made = true; size_t struck = 0;
        struct Ask { int kind; size_t level; Word w; std::vector<std::pair<Word, double>> poly; };
        auto raw = [](const MatrixSystem& ms, const Ask& q) { RawPolynomial p; for (auto& [w, f] : q.poly) p.emplace_back(OperatorSequence{to_storage(w), ms.Context()}, f); return p; };
        auto ask = [&](MatrixSystem& ms, const Ask& q, MTP m) -> const SymbolicMatrix& {
            if (q.kind == 0) return ms.MomentMatrix(q.level, m);
            if (q.kind == 1) return ms.LocalizingMatrix(LocalizingMatrixIndex{q.level, OperatorSequence{to_storage(q.w), ms.Context()}}, m);
            return ms.create_and_register_localizing_matrix(q.level, raw(ms, q), m).second;
        };
        for (int step = 0; step < 5 && c.violations.empty(); ++step) {
            Ask q; q.kind = static_cast<int>(r.below(3)); q.level = r.below(q.kind == 0 ? 4 : 3); q.w = random_word(r, n, 3); for (size_t k = 1 + r.below(2); k > 0; --k) q.poly.emplace_back(random_word(r, n, 2), 1.5);
            std::string t = std::vector<std::string>{"MM", "LM", "PLM"}[static_cast<size_t>(q.kind)] + std::to_string(q.level); if (q.kind == 1) t += wstr(q.w); if (q.kind == 2) for (auto& p : q.poly) t += wstr(p.first);
            const bool had = s.get(t) != nullptr; const size_t size = a->size();
            if (!had && r.chance(3, 4)) { // make it fail first
                ctx.where = alias && q.kind != 2 && r.coin() ? 1 : 0; /* look-ups of words (noexcept) simplify too: out of scope */ const double top = std::pow(static_cast<double>(n), static_cast<double>(2 * q.level)) * 3; const long at = static_cast<long>(r.below(static_cast<uint64_t>(r.coin() ? 4 : std::max(2.0, top)))); ctx.calls = 0; ctx.countdown = at;
                s.hist += " " + t + " failing in " + (ctx.where ? "alias" : "product") + " " + std::to_string(at); c.note(s.hist);
                bool hit = false, other = false; const SymbolicMatrix* got = nullptr;
                try { got = &ask(*a, q, mt); } catch (const Injected&) { hit = true; } catch (const std::exception& e) { other = true; s.hist += std::string(" raised ") + e.what(); }
                const bool fired = ctx.calls > at; ctx.countdown = -1;
                CHECK(!other, "fault-changed-kind", s.hist); CHECK(hit == fired, "fault-lost", s.hist << ": " << ctx.calls << " calls, " << (hit ? "raised" : "not raised"));
                if (hit) { ++struck; c.count("faults"); if (q.kind == 0) CHECK(!a->MomentMatrix.contains(q.level), "failed-request-recorded", s.hist); if (q.kind == 1) CHECK(!a->LocalizingMatrix.contains(LocalizingMatrixIndex{q.level, OperatorSequence{to_storage(q.w), a->Context()}}), "failed-request-recorded", s.hist); if (q.kind != 2) CHECK(a->size() == size, "failure-changed-size", s.hist); s.watch(c, "after fault"); }
                (void) got;
            }
            if (!s.known.empty() && r.coin()) { // multiplying all entries of a known matrix, failing midway: the failure is reported, or the answer whole
                auto& k = s.known[r.below(s.known.size())]; auto& om = k.m->unaliased_operator_matrix(); const OperatorSequence by{to_storage(random_word(r, n, 2)), a->Context()}; const size_t d = om.Dimension(); const bool pre = r.coin(), simplify = alias && r.chance(1, 3);
                const auto good = [&] { return simplify ? om.simplify_as_moments(MTP::Never) : pre ? om.pre_multiply(by, MTP::Never) : om.post_multiply(by, MTP::Never); }();
                ctx.where = simplify ? 1 : 0; const long at = static_cast<long>(r.below(d * d)); ctx.calls = 0; ctx.countdown = at; s.hist += " transform " + k.key + " failing " + std::to_string(at); c.note(s.hist); bool hit = false; std::unique_ptr<OperatorMatrix> got;
                try { got = simplify ? om.simplify_as_moments(mt) : pre ? om.pre_multiply(by, mt) : om.post_multiply(by, mt); } catch (const Injected&) { hit = true; }
                const bool fired = ctx.calls > at; ctx.countdown = -1; if (hit) { ++struck; c.count("faults"); }
                CHECK(hit == fired, "transform-fault-lost", s.hist << ": " << (fired ? "a product failed" : "no product failed") << " but " << (hit ? "raised" : "not raised"));
                if (got && !fired) CHECK(std::equal(got->begin(), got->end(), good->begin(), good->end()), "transform-differs", s.hist);
            }
            s.hist += " " + t; c.note(s.hist); auto& m = ask(*a, q, r.coin() ? mt : MTP::Never); auto& o = ask(*b, q, MTP::Never);
            CHECK(words(a->Symbols(), m) == words(b->Symbols(), o), "differs-from-twin", s.hist << ": " << words(a->Symbols(), m).substr(0, 300) << " vs " << words(b->Symbols(), o).substr(0, 300));
            if (q.kind == 0 && !s.get(t)) s.adopt(c, t, a->MomentMatrix.find_index(q.level), &m, handle(*a, a->MomentMatrix, q.level));
            s.watch(c, "after request");
        }
        if (struck) c.nontrivial(s.hist);
    }
}
SECTION(fault) { c.for_cases(c.n(400, 8000), [&](Rng& r, uint64_t) { faults(c, r, false); }); }
SECTION(mt_fault) { c.for_cases(c.n(150, 3000), [&](Rng& r, uint64_t) { faults(c, r, true); }); }

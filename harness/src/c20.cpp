// C20: concurrent users of one system that follow the locking protocol.
#include "reqs.h"
#include "symm.h"
#include "tens.h"
#include "matrix/substituted_matrix.h"
#include "scenarios/inflation/extended_matrix.h"
#include "scenarios/inflation/factor_table.h"
#include "scenarios/pauli/pauli_dictionary.h"
#include "symbolic/rules/moment_rulebook.h"
#include <atomic>
#include <thread>
using namespace verif;
using namespace Moment;

namespace {
    /** Run bodies from several threads at once; every event is ticketed so that the schedule that occurred is known. */
    struct Crew {
        std::atomic<size_t> ready{0}, ticket{0}; std::mutex mx; std::vector<std::pair<size_t, size_t>> events; std::vector<std::string> bad;
        static constexpr size_t max_pause = 60;
        void event(size_t who) { const size_t t = ticket.fetch_add(1, std::memory_order_relaxed); std::lock_guard g{mx}; events.emplace_back(t, who); }
        void fault(std::string s) { std::lock_guard g{mx}; bad.push_back(std::move(s)); }
        static void pause(Rng& r) { switch (r.below(6)) { case 0: std::this_thread::yield(); break; case 1: std::this_thread::sleep_for(std::chrono::microseconds(r.below(max_pause))); break; default: break; } }
        template<class Body> void run(Rng& seed, size_t n, Body&& body) {
            std::vector<std::thread> th; std::vector<Rng> rngs; for (size_t i = 0; i < n; ++i) rngs.emplace_back(seed.next());
            for (size_t i = 0; i < n; ++i) th.emplace_back([&, i] {
                ready.fetch_add(1); while (ready.load() < n) std::this_thread::yield();
                try { body(i, rngs[i]); } catch (const std::exception& e) { fault(std::string("thread raised: ") + e.what()); }
            });
            for (auto& t : th) t.join();
        }
        std::string schedule() { std::sort(events.begin(), events.end()); std::string s; for (auto& [t, w] : events) s += static_cast<char>('a' + w); return s; }
        void report(Ctx& c, const std::string& what) { for (auto& b : bad) CHECK(false, "thread-fault", what << ": " << b); c.count("events", events.size()); c.nontrivial(what + schedule()); }
    };
    uint64_t mix(uint64_t h, uint64_t x) { return (h ^ x) * 0x9E3779B97F4A7C15ULL + 0x1234567; }
    uint64_t bits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
    uint64_t mix(uint64_t h, const Monomial& e) { return mix(mix(mix(mix(h, static_cast<uint64_t>(e.id)), e.conjugated), bits(e.factor.real() + 0.0)), bits(e.factor.imag() + 0.0)); }
    /** All content of a matrix. */
    uint64_t print(const SymbolicMatrix& m) {
        uint64_t h = m.Dimension(); const size_t d = m.Dimension();
        if (auto* mm = dynamic_cast<const MonomialMatrix*>(&m)) { for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) h = mix(h, mm->SymbolMatrix(i, j)); }
        else if (auto* pm = dynamic_cast<const PolynomialMatrix*>(&m)) for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) for (auto& e : pm->SymbolMatrix(i, j)) h = mix(h, e);
        h = mix(h, m.Hermitian()); h = mix(h, m.HasComplexBasis()); h = mix(h, m.HasComplexCoefficients());
        for (auto x : m.IncludedSymbols()) h = mix(h, static_cast<uint64_t>(x));
        for (auto x : m.RealBasisIndices()) h = mix(h, static_cast<uint64_t>(x));
        for (auto x : m.ImaginaryBasisIndices()) h = mix(h, static_cast<uint64_t>(x));
        return h;
    }
    std::vector<Norm> listing(const OperatorSequenceGenerator& g) { std::vector<Norm> o; for (auto& s : g) o.push_back(norm_of(s)); return o; }
    bool same_listing(const OSGPair& p, const std::vector<Norm>& a, const std::vector<Norm>& b) {
        const auto& f = p(); if (f.size() != a.size()) return false; size_t i = 0; for (auto& s : f) if (!(norm_of(s) == a[i++])) return false;
        const auto& k = p.conjugate(); if (k.size() != b.size()) return false; i = 0; for (auto& s : k) if (!(norm_of(s) == b[i++])) return false;
        return true;
    }

    void dictionary(Ctx& c, Rng& r, int kind) {
        Rng twin = r; auto a = random_sys(r, kind, 8), b = random_sys(twin, kind, 8);
        const size_t top = a->level_cap(120, 12); const std::string what = a->desc() + " up to " + std::to_string(top) + " "; c.note(what);
        struct Key { bool nn; size_t level, nb; bool wrap; }; std::vector<Key> keys;
        for (size_t l = 0; l <= top; ++l) keys.push_back({false, l, 0, false});
        if (kind == Sys::Pauli) for (size_t l = 0; l <= std::min<size_t>(top, 3); ++l) for (size_t nb = 1; nb < (a->pscen().pctx->is_lattice() ? 2 : 4); ++nb) keys.push_back({true, l, nb, false});
        auto look = [](const Sys& s, const Key& k) -> const OSGPair& {
            if (!k.nn) return s.ms->Context().dictionary().Level(k.level);
            return dynamic_cast<const Pauli::PauliDictionary&>(s.ms->Context().dictionary()).NearestNeighbour(Pauli::NearestNeighbourIndex{k.level, k.nb});
        };
        std::vector<std::pair<std::vector<Norm>, std::vector<Norm>>> want;
        for (auto& k : keys) { auto& p = look(*b, k); want.emplace_back(listing(p()), listing(p.conjugate())); }
        const size_t n = 2 + r.below(5); std::vector<std::vector<const OSGPair*>> got(n, std::vector<const OSGPair*>(keys.size(), nullptr));
        const bool ordered = r.coin(); std::vector<size_t> order; for (size_t i = 0; i < keys.size(); ++i) order.push_back(i); r.shuffle(order);
        Crew crew; crew.run(r, n, [&](size_t me, Rng& q) {
            auto mine = order; if (!ordered) q.shuffle(mine);
            for (size_t rep = 0; rep < 2; ++rep) for (auto k : mine) {
                Crew::pause(q); crew.event(me);
                auto& p = look(*a, keys[k]);
                if (got[me][k] && got[me][k] != &p) crew.fault("asked twice, got different lists");
                got[me][k] = &p;
                if (!same_listing(p, want[k].first, want[k].second)) crew.fault("wrong words at level " + std::to_string(keys[k].level) + " neighbours " + std::to_string(keys[k].nb));
                const size_t e = mine[q.below(mine.size())]; // something obtained earlier
                if (got[me][e] && !same_listing(*got[me][e], want[e].first, want[e].second)) crew.fault("earlier list changed");
                if (!keys[k].nn) { if (a->ms->Context().dictionary().WordCount(keys[k].level) != want[k].first.size()) crew.fault("word count"); if (&a->ms->Context().operator_sequence_generator(keys[k].level) != &p()) crew.fault("context gives another list"); }
            }
        });
        crew.report(c, what);
        for (size_t k = 0; k < keys.size(); ++k) for (size_t t = 1; t < n; ++t) CHECK(got[t][k] == got[0][k], "dictionary-object", what << " level " << keys[k].level << " neighbours " << keys[k].nb << " differs between threads");
    }

    void matrices(Ctx& c, Rng& r, int kind, double cap) {
        Rng twin = r; auto a = random_sys(r, kind, 8), b = random_sys(twin, kind, 8);
        std::vector<Req> pool; for (size_t k = 3 + r.below(5); k > 0; --k) { auto q = random_req(r, *a, cap); bool dup = false; for (auto& p : pool) dup |= text(p) == text(q); if (!dup) pool.push_back(q); }
        std::string what = a->desc() + " "; for (auto& q : pool) what += text(q); c.note(what);
        const size_t n = 2 + r.below(4), dict = a->level_cap(60, 3); const bool use_dict = r.chance(1, 3);
        struct Seen { size_t req; const SymbolicMatrix* m; uint64_t h; };
        std::vector<std::vector<Seen>> got(n);
        const bool ordered = r.coin();
        Crew crew; crew.run(r, n, [&](size_t me, Rng& q) {
            std::vector<size_t> order; for (size_t k = 0; k < pool.size(); ++k) order.push_back(k);
            if (!ordered) q.shuffle(order);
            auto& mine = got[me];
            for (size_t step = 0; step < order.size(); ++step) {
                const size_t k = order[step]; Crew::pause(q); crew.event(me);
                if (use_dict && q.chance(1, 6)) a->ms->generate_dictionary(dict);
                if ((pool[k].kind == 2 || pool[k].kind == 5) && me % 2) { Crew::pause(q); } // these make a new matrix each time
                else { const auto& m = ask(*a, pool[k], q.chance(1, 3) ? MTP::Always : MTP::Never); auto lock = a->ms->get_read_lock(); mine.push_back({k, &m, print(m)}); }
                for (size_t t = q.below(3); t > 0; --t) { // readers
                    auto lock = a->ms->get_read_lock();
                    switch (q.below(4)) {
                        case 0: if (!mine.empty()) { auto& e = mine[q.below(mine.size())]; if (print(*e.m) != e.h) crew.fault("matrix changed: " + text(pool[e.req])); } break;
                        case 1: { const auto& tab = a->ms->Symbols(); const auto id = static_cast<symbol_name_t>(q.below(tab.size())); const auto& s = tab[id]; if (s.Id() != id) crew.fault("symbol id"); if (s.has_sequence() && s.sequence().hash() != s.hash()) crew.fault("symbol hash"); auto w = tab.where(s.sequence()); if (!w.found() || w->Id() != id) crew.fault("symbol look-up"); break; }
                        case 2: { const auto at = q.below(a->ms->size() + 1); if (at < a->ms->size()) (void) (*a->ms)[static_cast<ptrdiff_t>(at)].Dimension(); break; }
                        default: { const auto& p = pool[q.below(pool.size())]; if (p.kind == 0 && a->ms->MomentMatrix.contains(p.level)) { auto& m = a->ms->MomentMatrix.find(lock, p.level); if (static_cast<const void*>(&m) != static_cast<const void*>(&(*a->ms)[a->ms->MomentMatrix.find_index(p.level)])) crew.fault("find disagrees with index"); } break; }
                    }
                }
            }
        });
        crew.report(c, what);
        std::map<size_t, const SymbolicMatrix*> first;
        for (size_t t = 0; t < n; ++t) for (auto& e : got[t]) {
            CHECK(print(*e.m) == e.h, "matrix-changed", what << ": " << text(pool[e.req]));
            auto [it, fresh] = first.emplace(e.req, e.m);
            if (!fresh && pool[e.req].kind != 2 && pool[e.req].kind != 5) CHECK(it->second == e.m, "matrix-object", what << ": threads obtained different objects for " << text(pool[e.req]));
        }
        std::set<const SymbolicMatrix*> held, distinct; for (size_t i = 0; i < a->ms->size(); ++i) held.insert(&(*a->ms)[static_cast<ptrdiff_t>(i)]);
        for (size_t t = 0; t < n; ++t) for (auto& e : got[t]) { CHECK(held.count(e.m), "matrix-lost", what << ": " << text(pool[e.req]) << " is not in the system"); distinct.insert(e.m); }
        if (use_dict) { a->ms->generate_dictionary(dict); b->ms->generate_dictionary(dict); }
        std::set<const SymbolicMatrix*> alone; for (auto& [k, m] : first) { auto& o = ask(*b, pool[k], MTP::Never); alone.insert(&o); compare(c, *a, *m, *b, o, what + " request " + text(pool[k])); if (!c.violations.empty()) return; }
        compare_symbols(c, *a, *b, what);
        c.count("matrices", distinct.size());
    }

    /** Tensors refreshed and read while matrices are made. */
    void tensors(Ctx& c, Rng& r, bool infl) {
        Rng twin = r;
        auto make = [&](Rng& q) {
            if (infl) while (true) { auto net = random_network(q, 3, 2, 2, 3, 6); auto d = Dist::inflation(q, net); if (d->cg_elements() <= 400) return d; }
            while (true) { auto s = LocalityScen::random_spec(q, 3, 2, 3, 8, 2); auto d = Dist::locality(q, s); if (d->cg_elements() <= 300) return d; }
        };
        auto a = make(r), b = make(twin); auto& ms = dynamic_cast<MaintainsTensors&>(a->sys->sys());
        const bool fc = ms.CanHaveFullCorrelator(); const size_t n = 2 + r.below(4);
        std::vector<Word> words; for (int k = 0; k < 8; ++k) words.push_back(a->cg_word(a->random_cg(r)));
        const size_t level = a->sys->level_cap(30, 2); std::string what = a->desc() + " level " + std::to_string(level) + " "; for (auto& w : words) what += "[" + wstr(w) + "] "; c.note(what);
        std::vector<std::array<const void*, 3>> objects(n, {nullptr, nullptr, nullptr});
        Crew crew; crew.run(r, n, [&](size_t me, Rng& q) {
            std::vector<std::pair<size_t, symbol_name_t>> known;
            auto entries = [&](const CollinsGisin& cg) {
                for (int k = 0; k < 6; ++k) { const size_t at = q.below(cg.ElementCount); const auto e = cg.at(at); if (e->symbol_id >= 0) known.emplace_back(at, e->symbol_id); }
                if (!known.empty()) { auto& [at, id] = known[q.below(known.size())]; if (cg.at(at)->symbol_id != id) crew.fault("Collins-Gisin entry changed"); auto& s = a->sys->symbols()[id]; if (norm_of(s.sequence()).letters.empty() != (at == 0)) crew.fault("Collins-Gisin entry has wrong symbol"); }
            };
            auto keep = [&](int which, const void* p) { auto& o = objects[me][which]; if (o && o != p) crew.fault("tensor " + std::to_string(which) + " replaced"); o = p; };
            for (int step = 0; step < 6; ++step) {
                Crew::pause(q); crew.event(me);
                switch (q.below(5)) {
                    case 0: a->sys->ms->LocalizingMatrix(LocalizingMatrixIndex{0, a->sys->make(q.pick(words))}, MTP::Never); break;
                    case 1: a->sys->ms->MomentMatrix(q.below(level + 1), q.coin() ? MTP::Always : MTP::Never); break;
                    case 2: if (q.coin()) { ms.RefreshCollinsGisin(); auto lock = ms.get_read_lock(); keep(0, &ms.CollinsGisin()); entries(ms.CollinsGisin()); } else { auto lock = ms.get_read_lock(); ms.RefreshCollinsGisin(lock); if (!ms.is_locked_read_lock(lock)) crew.fault("lock lost"); keep(0, &ms.CollinsGisin()); entries(ms.CollinsGisin()); } break;
                    case 3: { auto lock = ms.get_read_lock(); ms.RefreshProbabilityTensor(lock); keep(1, &ms.ProbabilityTensor()); keep(0, &ms.CollinsGisin()); auto& pt = ms.ProbabilityTensor(); for (int k = 0; k < 4; ++k) { const auto e = pt.at(q.below(pt.ElementCount)); for (auto& m : e->cgPolynomial) if (m.id < 1 || m.id > static_cast<symbol_name_t>(ms.CollinsGisin().ElementCount)) crew.fault("probability refers outside the Collins-Gisin tensor"); } break; }
                    default: if (fc) { auto lock = ms.get_read_lock(); ms.RefreshFullCorrelator(lock); keep(2, &ms.FullCorrelator()); auto& t = ms.FullCorrelator(); (void) t.at(q.below(t.ElementCount))->cgPolynomial.size(); } break;
                }
            }
        });
        crew.report(c, what);
        for (int k = 0; k < 3; ++k) { const void* p = nullptr; for (auto& o : objects) if (o[k]) { if (!p) p = o[k]; CHECK(o[k] == p, "tensor-object", what << ": threads hold different tensors of kind " << k); } }
        for (auto* d : {a.get(), b.get()}) { for (auto& w : words) d->word_matrix(w); for (size_t l = 0; l <= level; ++l) d->sys->ms->MomentMatrix(l, MTP::Never); }
        auto& mb = dynamic_cast<MaintainsTensors&>(b->sys->sys());
        CHECK(ms.RefreshCollinsGisin() == mb.RefreshCollinsGisin() && ms.RefreshProbabilityTensor() == mb.RefreshProbabilityTensor(), "tensor-complete", what);
        auto &ca = ms.CollinsGisin(), &cb = mb.CollinsGisin(); auto &pa = ms.ProbabilityTensor(), &pb = mb.ProbabilityTensor();
        for (auto& o : objects) { if (o[0]) CHECK(o[0] == &ca, "tensor-object", what); if (o[1]) CHECK(o[1] == &pa, "tensor-object", what); }
        for (size_t i = 0; i < ca.ElementCount; ++i) { auto x = ca.at(i), y = cb.at(i); CHECK(x->sequence == y->sequence && (x->symbol_id >= 0) == (y->symbol_id >= 0) && (x->symbol_id < 0 || verif::close(a->symbol(Monomial{x->symbol_id, 1.0}), b->symbol(Monomial{y->symbol_id, 1.0}))), "cg-entry", what << " entry " << i); }
        for (size_t i = 0; i < std::min<size_t>(pa.ElementCount, 600); ++i) { auto x = pa.at(i), y = pb.at(i); CHECK(x->cgPolynomial == y->cgPolynomial && x->hasSymbolPoly == y->hasSymbolPoly && (!x->hasSymbolPoly || verif::close(a->symbols(x->symbolPolynomial), b->symbols(y->symbolPolynomial))), "pt-entry", what << " entry " << i); }
        if (fc) { CHECK(ms.RefreshFullCorrelator() == mb.RefreshFullCorrelator(), "tensor-complete", what); auto &fa = ms.FullCorrelator(), &fb = mb.FullCorrelator(); for (auto& o : objects) if (o[2]) CHECK(o[2] == &fa, "tensor-object", what); for (size_t i = 0; i < fa.ElementCount; ++i) { auto x = fa.at(i), y = fb.at(i); CHECK(x->cgPolynomial == y->cgPolynomial && x->hasSymbolPoly == y->hasSymbolPoly, "fc-entry", what << " entry " << i); } }
    }

    /** Books of rules added, merged and applied while matrices are made. */
    void rulebooks(Ctx& c, Rng& r, int kind) {
        auto s = random_sys(r, kind, 6, 1e6); auto& ms = *s->ms; const size_t level = std::min<size_t>(1, s->level_cap(12, 1));
        auto& base = ms.MomentMatrix(level, MTP::Never); const auto mat = ms.MomentMatrix.find_index(level); const size_t known = ms.Symbols().size(); (void) base;
        if (known < 4) return;
        const size_t n = 2 + r.below(4); const std::string what = s->desc() + " level " + std::to_string(level) + " "; c.note(what);
        struct Mine { size_t id; symbol_name_t sym; double v; const MomentRulebook* ref; };
        std::vector<std::vector<Mine>> made(n); std::vector<std::vector<std::pair<size_t, const SymbolicMatrix*>>> subs(n); std::vector<std::vector<uint64_t>> prints(n);
        Crew crew; crew.run(r, n, [&](size_t me, Rng& q) {
            for (int step = 0; step < 5; ++step) {
                Crew::pause(q); crew.event(me);
                switch (q.below(4)) {
                    case 0: { // a book setting one symbol to a number
                        const symbol_name_t sym = 2 + static_cast<symbol_name_t>(q.below(known - 2)); const double v = 0.25 * static_cast<double>(1 + q.below(3)) ; std::unique_ptr<MomentRulebook> book;
                        { auto lock = ms.get_read_lock(); if (!ms.Symbols()[sym].is_hermitian()) break; book = std::make_unique<MomentRulebook>(ms); std::map<symbol_name_t, double> in{{sym, v}}; book->add_raw_rules(in); book->complete(); }
                        try { auto [id, ref] = ms.Rulebook.add(std::move(book)); made[me].push_back({id, sym, v, &ref}); } catch (const std::exception&) { if (kind != Sys::Inflation) throw; }
                        break;
                    }
                    case 1: if (!made[me].empty()) { auto& m = made[me][q.below(made[me].size())]; auto& sub = ms.SubstitutedMatrix(SubstitutedMatrixIndex{mat, static_cast<ptrdiff_t>(m.id)}, q.coin() ? MTP::Always : MTP::Never); auto lock = ms.get_read_lock(); subs[me].emplace_back(m.id, &sub); prints[me].push_back(print(sub)); } break;
                    case 2: { // anyone's book
                        size_t count; { auto lock = ms.get_read_lock(); count = ms.Rulebook.size(); if (count) { const auto& b = std::as_const(ms).Rulebook(q.below(count)); (void) b.size(); if (b.name().empty()) crew.fault("nameless rulebook"); } }
                        if (count) { const size_t id = q.below(count); auto& sub = ms.SubstitutedMatrix(SubstitutedMatrixIndex{mat, static_cast<ptrdiff_t>(id)}, MTP::Never); auto lock = ms.get_read_lock(); subs[me].emplace_back(id, &sub); prints[me].push_back(print(sub)); }
                        break;
                    }
                    default: if (q.coin()) ms.LocalizingMatrix(LocalizingMatrixIndex{0, s->make(s->scen->normal(random_word(q, s->ops(), 3), 0).letters)}, MTP::Never); else { auto lock = ms.get_read_lock(); for (size_t k = 0; k < subs[me].size(); ++k) if (print(*subs[me][k].second) != prints[me][k]) crew.fault("substituted matrix changed"); } break;
                }
            }
        });
        crew.report(c, what);
        std::set<size_t> ids; size_t total = 0;
        for (auto& v : made) for (auto& m : v) { ++total; CHECK(ids.insert(m.id).second, "book-index-shared", what << " book " << m.id); CHECK(m.id < ms.Rulebook.size() && &ms.Rulebook(m.id) == m.ref, "book-lost", what << " book " << m.id);
            if (m.id < ms.Rulebook.size()) { auto p = m.ref->reduce(Monomial{m.sym, 1.0}); CHECK(p.size() == 1 && p[0].id == 1 && std::abs(p[0].factor - m.v) < 1e-9, "book-content", what << " book " << m.id << " does not map #" << m.sym << " to " << m.v); } }
        CHECK(total == ms.Rulebook.size(), "book-count", what << ": " << ms.Rulebook.size() << " books, threads made " << total);
        std::map<size_t, const SymbolicMatrix*> by; for (size_t t = 0; t < n; ++t) for (size_t k = 0; k < subs[t].size(); ++k) { auto [it, fresh] = by.emplace(subs[t][k].first, subs[t][k].second); CHECK(it->second == subs[t][k].second, "substituted-object", what << " book " << it->first); CHECK(print(*subs[t][k].second) == prints[t][k], "substituted-changed", what); }
        for (auto& [id, m] : by) { auto& b = ms.Rulebook(id); auto alone = b.create_substituted_matrix(const_cast<SymbolTable&>(ms.Symbols()), ms[mat], MTP::Never); CHECK(print(*alone) == print(*m), "substituted-content", what << " book " << id); }
        c.count("books", total); c.count("substituted", by.size());
    }

    /** Derived systems over one base, made and used while the base is used. */
    void derived(Ctx& c, Rng& r) {
        Rng twin = r; auto s = random_sym(r), t = random_sym(twin); if (closure(s.gens, 24).empty()) return;
        auto& base = *s.sys->ms; const size_t len = 2 * std::max<size_t>(1, s.sys->level_cap(12, 2)); const size_t n = 2 + r.below(4);
        const std::string what = s.desc + " words up to " + std::to_string(len) + " "; c.note(what);
        base.generate_dictionary(len); t.sys->ms->generate_dictionary(len);
        auto build = [&](Sym& x, MTP mt) {
            std::shared_ptr<MatrixSystem> b(x.sys->ms.get(), [](MatrixSystem*) {}); auto group = std::make_unique<Group>(x.sys->ms->Context(), std::make_unique<Representation>(1, Group::dimino_generation(sparse_all(x.gens))));
            return std::make_unique<SymmetrizedMatrixSystem>(std::move(b), std::move(group), len, std::make_unique<LUMapCoreProcessor>(), -1.0, mt);
        };
        auto shared = build(s, MTP::Never); auto ref = build(t, MTP::Never);
        std::vector<std::pair<int, const SymbolicMatrix*>> empty; std::vector<decltype(empty)> got(n); std::vector<std::unique_ptr<SymmetrizedMatrixSystem>> own(n);
        std::vector<Word> words; for (int k = 0; k < 3; ++k) { auto w = s.sys->random_nonzero(r, len); words.push_back(w); }
        std::map<symbol_name_t, size_t> polys; for (auto& x : s.sys->symbols()) polys[x.Id()] = x.sequence().size();
        const size_t dsize = s.sys->symbols().size(); if (dsize < 3) return;
        auto req = [&](MatrixSystem& m, const Sys& sy, int k, MTP mt) -> const SymbolicMatrix& {
            if (k < 10) return m.MomentMatrix(static_cast<size_t>(k), mt);
            if (k < 20) { const auto& w = words[static_cast<size_t>(k - 10) % words.size()]; return m.LocalizingMatrix(LocalizingMatrixIndex{(len - w.size()) / 2, sy.make(w)}, mt); }
            auto& f = sy.ms->polynomial_factory(); const auto id = static_cast<symbol_name_t>(1 + static_cast<size_t>(k) % (dsize - 1)); Polynomial p; // the base's symbols are all known beforehand
            { auto lock = sy.ms->get_read_lock(); p = f({Monomial{id, 2.0}, Monomial{1, -1.0}}); }
            return m.PolynomialLocalizingMatrix(PolynomialLocalizingMatrixIndex{(len - polys.at(id)) / 2, p}, mt);
        };
        base.MomentMatrix(0, MTP::Never); t.sys->ms->MomentMatrix(0, MTP::Never); // source 0
        Crew crew; crew.run(r, n, [&](size_t me, Rng& q) {
            for (int step = 0; step < 5; ++step) {
                Crew::pause(q); crew.event(me);
                const int k = q.coin() ? static_cast<int>(q.below(len / 2 + 1)) : q.coin() ? 10 + static_cast<int>(q.below(words.size())) : 20 + static_cast<int>(q.below(4));
                const MTP mt = q.chance(1, 4) ? MTP::Always : MTP::Never;
                switch (q.below(5)) {
                    case 0: (void) req(base, *s.sys, k, mt).Dimension(); break;
                    case 1: case 2: { auto& m = req(*shared, *s.sys, k, mt); got[me].emplace_back(k, &m); break; }
                    case 3: if (!own[me]) own[me] = build(s, mt); else (void) req(*own[me], *s.sys, k, mt); break;
                    default: { auto lock = shared->get_read_lock(); for (auto& [kk, m] : got[me]) (void) print(*m); auto& tab = shared->Symbols(); if (tab.size() != ref->Symbols().size()) crew.fault("derived symbols"); break; }
                }
            }
        });
        crew.report(c, what);
        std::map<int, const SymbolicMatrix*> by;
        for (auto& v : got) for (auto& [k, m] : v) { auto [it, fresh] = by.emplace(k, m); CHECK(it->second == m, "derived-object", what << " request " << k); }
        for (auto& [k, m] : by) { auto& o = req(*ref, *t.sys, k, MTP::Never); CHECK(print(o) == print(*m), "derived-content", what << " request " << k); c.count("derived-matrices"); }
        for (auto& d : own) if (d) CHECK(d->Symbols().size() == ref->Symbols().size(), "derived-symbols", what);
    }

    /** Extended inflation matrices. */
    void extended(Ctx& c, Rng& r) {
        Rng twin = r; auto a = random_sys(r, Sys::Inflation, 7), b = random_sys(twin, Sys::Inflation, 7); auto &ia = a->inflation(), &ib = b->inflation();
        const size_t level = a->level_cap(12, 1); ia.MomentMatrix(level, MTP::Never); ib.MomentMatrix(level, MTP::Never); const size_t known = ia.Symbols().size(); const size_t n = 2 + r.below(4);
        std::vector<std::vector<symbol_name_t>> exts; for (size_t k = 1 + r.below(3); k > 0; --k) { std::vector<symbol_name_t> e; for (size_t i = 1 + r.below(2); i > 0; --i) e.push_back(static_cast<symbol_name_t>(r.below(known))); std::sort(e.begin(), e.end()); e.erase(std::unique(e.begin(), e.end()), e.end()); exts.push_back(e); }
        std::string what = a->desc() + " level " + std::to_string(level) + " "; for (auto& e : exts) what += "{" + join(e) + "} "; c.note(what);
        std::vector<std::vector<std::pair<size_t, const SymbolicMatrix*>>> got(n); const size_t upper = a->level_cap(40, 2);
        auto get = [](Inflation::InflationMatrixSystem& m, size_t l, const std::vector<symbol_name_t>& e, MTP mt) -> const SymbolicMatrix& { return m.ExtendedMatrices(Inflation::ExtendedMatrixIndex{l, std::span<const symbol_name_t>(e)}, mt); };
        Crew crew; crew.run(r, n, [&](size_t me, Rng& q) {
            for (int step = 0; step < 5; ++step) {
                Crew::pause(q); crew.event(me); const MTP mt = q.chance(1, 3) ? MTP::Always : MTP::Never;
                switch (q.below(4)) {
                    case 0: (void) ia.MomentMatrix(q.below(upper + 1), mt).Dimension(); break;
                    case 1: case 2: { const size_t k = q.below(exts.size()); got[me].emplace_back(k, &get(ia, level, exts[k], mt)); break; }
                    default: { auto lock = ia.get_read_lock(); const auto& ft = ia.Factors(); if (ft.size() != ia.Symbols().size()) crew.fault("factor table and symbols differ in size"); const auto& e = ft[static_cast<symbol_name_t>(q.below(ft.size()))]; if (!e.canonical.symbols.empty() && !ft.find_index_by_factors(e.canonical.symbols)) crew.fault("factors not found"); break; }
                }
            }
        });
        crew.report(c, what);
        std::map<size_t, const SymbolicMatrix*> by;
        for (auto& v : got) for (auto& [k, m] : v) { auto [it, fresh] = by.emplace(k, m); CHECK(it->second == m, "extended-object", what); }
        for (auto& [k, m] : by) { auto& o = get(ib, level, exts[k], MTP::Never); CHECK(o.Dimension() == m->Dimension() && o.Hermitian() == m->Hermitian(), "extended-content", what);
            auto &x = dynamic_cast<const MonomialMatrix&>(o), &y = dynamic_cast<const MonomialMatrix&>(*m);
            for (size_t i = 0; i < x.Dimension(); ++i) for (size_t j = 0; j < x.Dimension(); ++j) { // same product of words
                auto word = [&](const Inflation::InflationMatrixSystem& s, const Monomial& e) { std::vector<Word> f; for (auto& q : s.Factors()[e.id].canonical.sequences) { auto z = norm_of(q); f.push_back(z.zero ? Word{-1} : z.letters); } std::sort(f.begin(), f.end()); return f; };
                if (!CHECK(word(ib, x.SymbolMatrix(i, j)) == word(ia, y.SymbolMatrix(i, j)), "extended-entry", what << " extension " << k << " entry (" << i << "," << j << ")")) return; } c.count("extended-matrices"); }
    }
    /** A system handed between a creator, readers waiting for each new matrix, and one deleting nothing: readers never see half-made matrices. */
    void growing(Ctx& c, Rng& r, int kind) {
        auto s = random_sys(r, kind, 6); auto& ms = *s->ms; const std::string what = s->desc(); c.note(what);
        const size_t steps = 6; std::atomic<bool> done{false}; std::vector<Req> reqs; for (size_t i = 0; i < steps; ++i) reqs.push_back(random_req(r, *s, 30));
        Crew crew; const size_t n = 2 + r.below(3); std::vector<std::map<size_t, uint64_t>> seen(n);
        crew.run(r, n, [&](size_t me, Rng& q) {
            if (me == 0) { struct Fin { std::atomic<bool>& d; ~Fin() { d = true; } } fin{done}; for (auto& x : reqs) { crew.event(0); ask(*s, x, q.coin() ? MTP::Always : MTP::Never); Crew::pause(q); } return; }
            size_t last = 0, syms = 0;
            while (!done) {
                { auto lock = ms.get_read_lock(); const size_t count = ms.size(), sc = ms.Symbols().size(); if (count < last || sc < syms) crew.fault("system shrank"); if (count != last) crew.event(me); last = count; syms = sc;
                  for (size_t i = 0; i < count; ++i) { const auto h = print(ms[static_cast<ptrdiff_t>(i)]); auto [it, fresh] = seen[me].emplace(i, h); if (it->second != h) crew.fault("matrix " + std::to_string(i) + " changed"); for (auto id : ms[static_cast<ptrdiff_t>(i)].IncludedSymbols()) if (id < 0 || static_cast<size_t>(id) >= sc) crew.fault("matrix refers to unknown symbol"); }
                  const auto& b = ms.Symbols().Basis; if (b.RealSymbolCount() + b.ImaginarySymbolCount() + 1 < sc) crew.fault("basis shorter than the table"); }
                std::this_thread::sleep_for(std::chrono::microseconds(20 + q.below(100)));
            }
        });
        crew.report(c, what);
        for (auto& m : seen) for (auto& [i, h] : m) CHECK(print(ms[static_cast<ptrdiff_t>(i)]) == h, "matrix-changed", what << " matrix " << i);
        check_symbols(c, *s, "after concurrent use");
    }
}
SECTION(mt_dictionary) { c.for_cases(c.n(1100, 40000), [&](Rng& r, uint64_t) { dictionary(c, r, static_cast<int>(r.below(5))); }); }
SECTION(mt_dictionary_pauli) { c.for_cases(c.n(600, 24000), [&](Rng& r, uint64_t) { dictionary(c, r, Sys::Pauli); }); }
SECTION(mt_matrices) { c.for_cases(c.n(800, 24000), [&](Rng& r, uint64_t) { matrices(c, r, static_cast<int>(r.below(5)), 40); }); }
SECTION(mt_matrices_pauli) { c.for_cases(c.n(400, 12000), [&](Rng& r, uint64_t) { matrices(c, r, Sys::Pauli, 40); }); }
SECTION(mt_matrices_large) { c.for_cases(c.n(120, 4000), [&](Rng& r, uint64_t) { matrices(c, r, static_cast<int>(r.below(5)), 120); }); }
SECTION(mt_growing) { c.for_cases(c.n(500, 16000), [&](Rng& r, uint64_t) { growing(c, r, static_cast<int>(r.below(5))); }); }
SECTION(mt_tensors_locality) { c.for_cases(c.n(600, 20000), [&](Rng& r, uint64_t) { tensors(c, r, false); }); }
SECTION(mt_tensors_inflation) { c.for_cases(c.n(500, 16000), [&](Rng& r, uint64_t) { tensors(c, r, true); }); }
SECTION(mt_rulebooks) { c.for_cases(c.n(750, 24000), [&](Rng& r, uint64_t) { rulebooks(c, r, 1 + static_cast<int>(r.below(4))); }); }
SECTION(mt_derived) { c.for_cases(c.n(500, 16000), [&](Rng& r, uint64_t) { derived(c, r); }); }
SECTION(mt_extended) { c.for_cases(c.n(500, 16000), [&](Rng& r, uint64_t) { extended(c, r); }); }

// C18: symmetrised systems are the group average of the original system.
#include "symm.h"

SECTION(dimino) {
    c.for_cases(c.n(260, 8000), [&](Rng& r, uint64_t) {
        std::vector<Dense> gens; std::string how;
        if (r.chance(1, 2)) { auto s = random_sym(r); gens = s.gens; how = s.desc; }
        else { // pure group theory
            const size_t n = 1 + r.below(5); const bool signs = r.coin();
            for (size_t k = 1 + r.below(4); k > 0; --k) gens.push_back(r.chance(1, 6) ? id(n + 1) : signed_perm(r, n, signs));
            if (r.chance(1, 4)) gens.push_back(gens[r.below(gens.size())]);
            for (auto& g : gens) how += text(g) + " ";
        }
        auto want = closure(gens, 500);
        if (want.empty()) return;
        c.note(how);
        auto got = Group::dimino_generation(sparse_all(gens), 500);
        CHECK(got.size() == want.size(), "group-order", how << ": generated " << got.size() << " elements, group has " << want.size());
        std::vector<Dense> dense; for (auto& m : got) dense.emplace_back(m);
        size_t missing = 0, twice = 0;
        for (size_t i = 0; i < dense.size(); ++i) for (size_t j = 0; j < i; ++j) twice += same(dense[i], dense[j]);
        for (auto& w : want) { bool f = false; for (auto& d : dense) if (same(d, w)) { f = true; break; } missing += !f; }
        CHECK(missing == 0, "group-element-missing", how << ": " << missing << " of " << want.size() << " elements missing");
        CHECK(twice == 0, "group-element-twice", how << ": " << twice << " repeated elements");
        CHECK(!dense.empty() && same(dense[0], Dense(Dense::Identity(dense[0].rows(), dense[0].cols()))), "group-identity-first", how);
        c.count("group_elements", got.size());
        if (want.size() > 1) c.nontrivial(how);
    });
    { auto e = Group::dimino_generation({}); CHECK(e.size() == 1 && e[0].rows() == 1 && e[0].coeff(0, 0) == 1.0, "group-no-generators", ""); }
}

SECTION(infinite_group) {
    // groups with no end must be refused when the limit is reached, whichever generator causes it
    c.for_cases(c.n(12, 100), [&](Rng& r, uint64_t) {
        Dense rot = id(3); const double th = 1.0 + r.unit(); rot(1, 1) = rot(2, 2) = std::cos(th); rot(2, 1) = std::sin(th); rot(1, 2) = -std::sin(th);
        Dense flip = id(3); flip(1, 1) = -1;
        Dense shear = id(3); shear(0, 1) = 1;
        std::vector<Dense> gens; const int style = static_cast<int>(r.below(4));
        if (style == 0) gens = {rot}; else if (style == 1) gens = {shear, flip}; else if (style == 2) gens = {flip, rot}; else gens = {flip, shear};
        std::string how = "infinite group style " + std::to_string(style);
        c.note(how);
        CHECK(raises([&] { auto g = Group::dimino_generation(sparse_all(gens), 20 + r.below(100)); }), "infinite-group-accepted", how);
        c.nontrivial(how);
    });
}

SECTION(build_list) {
    for (size_t n = 2; n <= c.n(600, 20000); ++n) {
        auto list = Group::decompose_build_list(n); std::set<size_t> done{1}; bool ok = true;
        for (auto w : list) {
            const size_t b = std::bit_floor(w), rest = w == b ? w / 2 : w - b;
            ok &= done.count(w == b ? w / 2 : b) && done.count(rest) && done.insert(w).second;
        }
        CHECK(ok && done.count(n), "build-list", "length " << n << ": " << join(std::vector<size_t>(list.begin(), list.end())));
        if (n < 50) c.nontrivial(std::to_string(n));
    }
    CHECK(Group::decompose_build_list(0).empty() && Group::decompose_build_list(1).empty(), "build-list", "0 and 1");
}

SECTION(action) {
    c.for_cases(c.n(140, 4000), [&](Rng& r, uint64_t) {
        auto s = random_sym(r); auto want = closure(s.gens, 48);
        if (want.empty()) return;
        c.note(s.desc);
        auto& ctx = s.sys->ms->Context();
        auto rep = std::make_unique<Representation>(1, Group::dimino_generation(sparse_all(s.gens)));
        std::vector<Dense> elems; for (auto& e : *rep) elems.emplace_back(e);
        Group group(ctx, std::move(rep));
        CHECK(group.size == want.size() && group.fundamental_dimension == s.sys->level_words(1).size(), "group-size", s.desc);
        Action act(*s.sys, elems);
        const size_t top = max_len(*s.sys, want.size() > 16 ? 90 : 260, 5);
        std::vector<size_t> order; for (size_t l = 1; l <= top; ++l) order.push_back(l); r.shuffle(order);
        CHECK(raises([&] { (void)group.create_representation(0); }), "rep-zero-length", s.desc);
        for (auto len : order) {
            if (r.chance(1, 4) && len > 1) continue;
            auto& rp = group.create_representation(len, r.coin() ? MTP::Always : r.coin() ? MTP::Never : MTP::Optional);
            auto words = s.sys->level_words(len);
            CHECK(rp.word_length == len && rp.dimension == words.size() && rp.size() == elems.size(), "rep-size", s.desc << " length " << len << ": dimension " << rp.dimension << " for " << words.size() << " words, " << rp.size() << " elements");
            CHECK(&group.representation(len) == &rp && &group.create_representation(len) == &rp, "rep-same-object", s.desc);
            Dense sum = Dense::Zero(words.size(), words.size());
            for (size_t g = 0; g < rp.size(); ++g) {
                Dense m(rp[g]); sum += m;
                for (size_t j = 0; j < words.size(); ++j) {
                    WPoly got; for (size_t i = 0; i < words.size(); ++i) if (std::abs(m(i, j)) > 1e-9) add(got, words[i], m(i, j));
                    auto should = act.act(g, words[j]);
                    if (!CHECK(same(got, should), "word-image", s.desc << " element " << text(elems[g]) << " maps [" << wstr(words[j]) << "] to " << text(got) << ", product of images is " << text(should))) return;
                }
            }
            CHECK((Dense(rp.sum_of()) - sum).cwiseAbs().maxCoeff() < 1e-7, "rep-sum", s.desc << " length " << len);
            c.count("word_images", words.size() * rp.size());
        }
        CHECK(raises([&] { (void)group.representation(top + 7); }), "rep-not-created", s.desc);
        CHECK(raises([&] { auto bad = std::make_unique<Representation>(1, std::vector<repmat_t>{sparse(id(elems[0].rows() + 1))}); Group g(ctx, std::move(bad)); }), "rep-bad-dimension", s.desc);
        if (want.size() > 1 && top > 1) c.nontrivial(s.desc);
    });
}

SECTION(mt_action) {
    c.for_cases(c.n(24, 400), [&](Rng& r, uint64_t) {
        auto s = random_sym(r); auto want = closure(s.gens, 64);
        if (want.size() < 2) return;
        c.note(s.desc);
        auto& ctx = s.sys->ms->Context();
        auto make = [&] { return std::make_unique<Group>(ctx, std::make_unique<Representation>(1, Group::dimino_generation(sparse_all(s.gens)))); };
        auto a = make(), b = make();
        const size_t top = max_len(*s.sys, 200, 6);
        if (r.chance(1, 2) && top > 2) { const size_t l = 2 + r.below(top - 1); a->create_representation(l, MTP::Always); b->create_representation(l, MTP::Never); }
        auto& x = a->create_representation(top, MTP::Always); auto& y = b->create_representation(top, MTP::Never);
        bool ok = x.size() == y.size() && x.size() == want.size();
        for (size_t g = 0; ok && g < x.size(); ++g) ok = Dense(x[g]) == Dense(y[g]);
        CHECK(ok, "mt-representation", s.desc << " length " << top);
        // several threads asking for the same representation get the same object
        auto d = make(); std::vector<const Representation*> got(4); std::vector<std::thread> th;
        for (size_t t = 0; t < got.size(); ++t) th.emplace_back([&, t] { for (size_t l = 1; l <= top; ++l) { const auto& rp = d->create_representation(l, t % 2 ? MTP::Always : MTP::Never); if (l == top) got[t] = &rp; } });
        for (auto& t : th) t.join();
        for (auto* p : got) CHECK(p == got[0] && p->size() == want.size(), "mt-same-object", s.desc);
        if (top > 1) c.nontrivial(s.desc);
    });
}

SECTION(average) {
    c.for_cases(c.n(160, 5000), [&](Rng& r, uint64_t) {
        auto s = random_sym(r); auto elems = closure(s.gens, 48);
        if (elems.empty()) return;
        auto& sys = *s.sys; auto& ms = *sys.ms;
        const size_t len = 1 + r.below(max_len(sys, elems.size() > 16 ? 70 : 130, 4));
        std::string how = s.desc + " length " + std::to_string(len);
        // symbols may be registered in any order before
        for (size_t k = r.below(3); k > 0; --k) { auto w = sys.random_nonzero(r, len); if (!w.empty()) { auto lock = ms.get_write_lock(); ms.LocalizingMatrix; const_cast<SymbolTable&>(ms.Symbols()).merge_in(sys.make(w)); how += " first [" + wstr(w) + "]"; } }
        if (len % 2 == 0 && r.coin()) { ms.MomentMatrix(len / 2); how += " MM"; }
        if (r.coin()) ms.generate_dictionary(std::max<size_t>(1, len - r.below(2)));
        ms.generate_dictionary(len);
        if (r.chance(1, 4)) { ms.generate_dictionary(len); how += " again"; }
        c.note(how);
        std::shared_ptr<MatrixSystem> base(&ms, [](MatrixSystem*) {});
        auto group = std::make_unique<Group>(ms.Context(), std::make_unique<Representation>(1, Group::dimino_generation(sparse_all(s.gens))));
        SymmetrizedMatrixSystem sms(std::move(base), std::move(group), len, std::make_unique<LUMapCoreProcessor>(), -1.0, r.coin() ? MTP::Always : MTP::Never);
        auto& map = sms.map(); auto& tab = sms.Symbols();
        Action act(sys, elems);
        const auto& origin = sys.symbols();
        CHECK(sms.longest_supported_word() == len, "longest-word", how);
        CHECK(map.fwd_size() == origin.size() && map.inv_size() == tab.size(), "map-sizes", how << ": " << map.fwd_size() << " for " << origin.size() << " and " << map.inv_size() << " for " << tab.size());

        auto y_values = [&] { std::vector<cd> y; for (size_t i = 0; i < map.inv_size(); ++i) y.push_back(sys.value(map.inverse(static_cast<Moment::symbol_name_t>(i)))); return y; };
        auto target = [&](const Polynomial& p, const std::vector<cd>& y) { cd v; for (auto& m : p) v += m.factor * (m.conjugated ? std::conj(y.at(m.id)) : y.at(m.id)); return v; };
        auto ptext = [&](const Polynomial& p) { std::stringstream ss; for (auto& m : p) ss << m.factor << "#" << m.id << (m.conjugated ? "*" : "") << " "; return ss.str(); };
        std::vector<WPoly> avgs(origin.size()); bool all_mono = true; size_t moved = 0;
        std::vector<size_t> known; // symbols of words within the supported length
        for (size_t i = 0; i < origin.size(); ++i) {
            auto n = norm_of(origin[i].sequence());
            if (i && n.letters.size() > len) continue;
            known.push_back(i);
            if (i) avgs[i] = act.average(n.letters);
        }
        for (int salt = 0; salt < 2; ++salt) {
            sys.salt += salt; auto y = y_values();
            CHECK(verif::close(y[0], 0.0) && verif::close(y[1], 1.0), "map-constants", how);
            for (auto i : known) {
                auto& p = map(static_cast<Moment::symbol_name_t>(i)); all_mono &= p.size() <= 1;
                const cd want = i ? act.value(avgs[i]) : cd{};
                if (!CHECK(verif::close(target(p, y), want, 1e-7), "average-value", how << ": symbol " << i << " [" << wstr(norm_of(origin[i].sequence()).letters) << "] maps to " << ptext(p) << " worth " << target(p, y) << ", average is " << text(avgs[i]) << " worth " << want)) return;
            }
            // flags of the new symbols
            for (size_t k = 2; k < tab.size(); ++k) if (!salt) {
                bool herm = true; auto keep = sys.salt;
                for (int t = 0; t < 3; ++t) { sys.salt = keep + 77 + t; cd v = sys.value(map.inverse(static_cast<Moment::symbol_name_t>(k))); herm &= std::abs(v.imag()) < 1e-9; }
                sys.salt = keep;
                CHECK(tab[k].is_hermitian() == herm, "new-symbol-flag", how << ": new symbol " << k << " = " << ptext(map.inverse(static_cast<Moment::symbol_name_t>(k))) << " flagged " << tab[k].is_hermitian());
                CHECK(!tab[k].is_antihermitian(), "new-symbol-flag", how);
            }
            // monomials and polynomials
            for (int t = 0; t < 6; ++t) {
                Polynomial::storage_t d; for (size_t k = 1 + r.below(4); k > 0; --k) { const auto id = known[r.below(known.size())]; if (id) d.emplace_back(static_cast<Moment::symbol_name_t>(id), cd{r.sym(), r.coin() ? r.sym() : 0.0}, !origin[id].is_hermitian() && r.coin()); }
                for (auto& m : d) CHECK(verif::close(target(map(m), y), act.average_value(m), 1e-7), "map-monomial", how << ": " << m.factor << "#" << m.id << (m.conjugated ? "*" : "") << " to " << ptext(map(m)));
                Polynomial p(std::move(d)); auto q = map(p);
                CHECK(verif::close(target(q, y), act.average_value(p), 1e-7), "map-polynomial", how << ": " << ptext(p) << " to " << ptext(q));
                for (auto it = q.begin(); it != q.end(); ++it) { auto nx = it; ++nx; if (nx == q.end()) break; CHECK(it->id < nx->id || (it->id == nx->id && !it->conjugated && nx->conjugated), "map-polynomial-order", how << ": " << ptext(q)); }
            }
            for (size_t k = 2; k < tab.size(); ++k) for (bool cj : {false, true}) {
                const cd f{0.5, -1.25}; Monomial m{static_cast<Moment::symbol_name_t>(k), f, cj};
                CHECK(verif::close(sys.value(map.inverse(m)), f * (cj ? std::conj(y[k]) : y[k]), 1e-7), "inverse-monomial", how << ": new symbol " << k << (cj ? "*" : ""));
            }
        }
        // identified iff equal averages; constants as constants
        if (!s.alias) for (auto i : known) {
            auto& p = map(static_cast<Moment::symbol_name_t>(i));
            bool constant = true; for (auto& [w, f] : avgs[i]) constant &= w.empty();
            bool pconst = true; for (auto& m : p) pconst &= m.id == 1;
            CHECK(constant == pconst, "constant-average", how << ": symbol " << i << " average " << text(avgs[i]) << " mapped to " << ptext(p));
            for (auto j : known) { if (j >= i) break;
                auto& q = map(static_cast<Moment::symbol_name_t>(j)); Polynomial::storage_t d; std::map<std::pair<long, bool>, cd> diff; for (auto& m : p) diff[{m.id, m.conjugated}] += m.factor; for (auto& m : q) diff[{m.id, m.conjugated}] -= m.factor;
                bool eq = true; for (auto& [k, f] : diff) eq &= std::abs(f) < 1e-7;
                bool aeq = same(avgs[i], avgs[j]);
                CHECK(eq == aeq, "identified", how << ": symbols " << i << " and " << j << " averages " << text(avgs[i]) << " / " << text(avgs[j]) << " mapped to " << ptext(p) << " / " << ptext(q));
                if (aeq) ++moved;
            }
        }
        CHECK(map.is_monomial_map() == all_mono || known.size() != origin.size(), "monomial-map-flag", how);
        if (!s.alias) {
            std::vector<WPoly> rows; for (auto i : known) { auto p = avgs[i]; p.erase(Word{}); rows.push_back(p); }
            CHECK(rank_of(rows) == tab.size() - 2, "new-symbol-count", how << ": " << tab.size() - 2 << " new symbols, rank " << rank_of(rows));
        }
        CHECK(raises([&] { (void)map(static_cast<Moment::symbol_name_t>(map.fwd_size())); }) && raises([&] { (void)map(static_cast<Moment::symbol_name_t>(-1)); }), "map-range", how);
        CHECK(raises([&] { (void)map.inverse(static_cast<Moment::symbol_name_t>(map.inv_size())); }) && raises([&] { (void)map.inverse(static_cast<Moment::symbol_name_t>(-1)); }), "inverse-range", how);
        c.count("symbols_mapped", known.size());
        if (elems.size() > 1) c.nontrivial(how);
    });
}

SECTION(matrices) {
    c.for_cases(c.n(120, 3500), [&](Rng& r, uint64_t) {
        auto s = random_sym(r); auto elems = closure(s.gens, 24);
        if (elems.size() < 2) return;
        auto& sys = *s.sys; auto& ms = *sys.ms;
        const size_t len = 1 + r.below(max_len(sys, 110, 4));
        std::string how = s.desc + " length " + std::to_string(len);
        const bool longer = r.chance(1, 4) && static_cast<double>(ms.Context().operator_sequence_generator(len + 1).size()) < 300;
        if (longer) { ms.generate_dictionary(len + 1); how += " longer words known"; } else ms.generate_dictionary(len);
        if (len >= 2 && r.coin()) { ms.MomentMatrix(len / 2); how += " MM"; }
        c.note(how);
        SymmetrizedMatrixSystem sms(std::shared_ptr<MatrixSystem>(&ms, [](MatrixSystem*) {}),
            std::make_unique<Group>(ms.Context(), std::make_unique<Representation>(1, Group::dimino_generation(sparse_all(s.gens)))), len, std::make_unique<LUMapCoreProcessor>());
        auto& map = sms.map(); Action act(sys, elems);
        std::map<const SymbolicMatrix*, std::string> made; std::map<ptrdiff_t, ptrdiff_t> by_base;
        auto judge = [&](const SymbolicMatrix& got, const SymbolicMatrix& from, const std::string& what) {
            const size_t d = from.Dimension();
            if (!CHECK(got.Dimension() == d, "matrix-dimension", what)) return;
            std::vector<cd> y; for (size_t i = 0; i < map.inv_size(); ++i) y.push_back(sys.value(map.inverse(static_cast<Moment::symbol_name_t>(i))));
            auto tv = [&](const Monomial& m) { return m.factor * (m.conjugated ? std::conj(y.at(m.id)) : y.at(m.id)); };
            Mat v(static_cast<int>(d), static_cast<int>(d));
            for (size_t i = 0; i < d; ++i) for (size_t j = 0; j < d; ++j) {
                cd have, want;
                if (auto* mm = dynamic_cast<const MonomialMatrix*>(&got)) have = tv(mm->SymbolMatrix(i, j)); else for (auto& m : dynamic_cast<const PolynomialMatrix&>(got).SymbolMatrix(i, j)) have += tv(m);
                if (auto* mm = dynamic_cast<const MonomialMatrix*>(&from)) want = act.average_value(mm->SymbolMatrix(i, j)); else want = act.average_value(dynamic_cast<const PolynomialMatrix&>(from).SymbolMatrix(i, j));
                v(static_cast<int>(i), static_cast<int>(j)) = have;
                if (!CHECK(verif::close(have, want, 1e-7), "matrix-entry", what << " (" << i << "," << j << "): " << entry_text(got, i, j) << " worth " << have << ", average of " << entry_text(from, i, j) << " is " << want)) return;
            }
            check_properties(c, sms.Symbols(), got, what);
            bool herm = true; for (int i = 0; i < v.n; ++i) for (int j = 0; j <= i; ++j) herm &= verif::close(v(i, j), std::conj(v(j, i)));
            if (got.Hermitian()) CHECK(herm, "matrix-hermitian", what);
            c.count("matrix_entries", d * d);
        };
        for (int step = 0; step < 5; ++step) {
            const int what = static_cast<int>(r.below(4));
            if (what == 0) {
                const size_t level = r.below(len / 2 + 2);
                std::string w = how + " MM" + std::to_string(level); c.note(w);
                if (level * 2 > len) { CHECK(raises([&] { sms.MomentMatrix(level); }), "too-long-accepted", w); CHECK(!sms.MomentMatrix.contains(level), "too-long-accepted", w); continue; }
                auto& m = sms.MomentMatrix(level); judge(m, ms.MomentMatrix(level), w);
                CHECK(&sms.MomentMatrix(level) == &m, "same-matrix", w);
                auto base = ms.MomentMatrix.find_index(level), mine = sms.MomentMatrix.find_index(level);
                auto [bi, fresh] = by_base.emplace(base, mine); 
                CHECK(bi->second == mine || !fresh, "same-index", w);
                CHECK(sms.DerivedMatrices.find_index(base) >= 0, "derived-alias", w);
            } else if (what == 1) {
                Word x = sys.random_nonzero(r, len); const size_t level = r.below((len - std::min(len, x.size())) / 2 + 2);
                LocalizingMatrixIndex idx{level, sys.make(x)};
                std::string w = how + " LM" + std::to_string(level) + "[" + wstr(x) + "]"; c.note(w);
                if (level * 2 + x.size() > len) { CHECK(raises([&] { sms.LocalizingMatrix(idx); }), "too-long-accepted", w); continue; }
                auto& m = sms.LocalizingMatrix(idx); judge(m, ms.LocalizingMatrix(idx), w);
                CHECK(&sms.LocalizingMatrix(idx) == &m, "same-matrix", w);
            } else if (what == 2) {
                Polynomial::storage_t d; size_t deg = 0;
                for (size_t k = 1 + r.below(3); k > 0; --k) { const auto id = 1 + r.below(sys.symbols().size() - 1); d.emplace_back(static_cast<Moment::symbol_name_t>(id), cd{std::round(8 * r.sym()) / 4 + 0.25, 0.0}, false); }
                Polynomial p = ms.polynomial_factory()(std::move(d));
                if (p.empty()) continue;
                for (auto& m : p) deg = std::max(deg, sys.symbols()[m.id].sequence().size());
                const size_t level = r.below((len - std::min(len, deg)) / 2 + 2);
                if (level > 1) continue;
                std::string w = how + " PLM" + std::to_string(level); c.note(w);
                PolynomialLocalizingMatrixIndex idx{level, p};
                if (level * 2 + deg > len) { CHECK(raises([&] { sms.PolynomialLocalizingMatrix(idx); }), "too-long-accepted", w); continue; }
                auto& m = sms.PolynomialLocalizingMatrix(idx); judge(m, ms.PolynomialLocalizingMatrix(idx), w);
            } else {
                if (r.chance(1, 3)) { ms.LocalizingMatrix(LocalizingMatrixIndex{0, sys.make(sys.random_nonzero(r, len))}); }
                if (longer && r.coin()) { Word x = sys.random_nonzero(r, len + 1); if (x.size() == len + 1) ms.LocalizingMatrix(LocalizingMatrixIndex{0, sys.make(x)}); }
                if (!ms.size()) continue;
                const auto base = static_cast<ptrdiff_t>(r.below(ms.size()));
                auto& from = ms[base]; bool fits = true;
                for (auto id : from.IncludedSymbols()) if (id && sys.symbols()[id].sequence().size() > len) fits = false;
                std::string w = how + " derived from base " + std::to_string(base) + " " + from.Description(); c.note(w);
                if (!fits) { CHECK(raises([&] { sms.DerivedMatrices(base); }), "unmapped-symbols-accepted", w); continue; }
                auto& m = sms.DerivedMatrices(base); judge(m, from, w);
                CHECK(&sms.DerivedMatrices(base) == &m, "same-matrix", w);
                auto at = sms.DerivedMatrices.find_index(base);
                CHECK(at >= 0 && &sms[at] == &m, "derived-index", w);
            }
        }
        CHECK(raises([&] { sms.DerivedMatrices(static_cast<ptrdiff_t>(ms.size())); }) && raises([&] { sms.DerivedMatrices(-1); }), "derived-range", how);
        c.nontrivial(how);
    });
}

SECTION(missing_symbols) {
    // a base system that does not know the words asked for must be refused, not misread
    c.for_cases(c.n(40, 600), [&](Rng& r, uint64_t) {
        auto s = random_sym(r); auto elems = closure(s.gens, 24);
        if (elems.empty()) return;
        auto& ms = *s.sys->ms; const size_t have = r.below(2), len = have + 1 + r.below(2);
        if (ms.Context().operator_sequence_generator(len).size() > 120) return;
        if (have) ms.generate_dictionary(have);
        c.note(s.desc + " knows " + std::to_string(have) + " needs " + std::to_string(len));
        bool all = true; for (auto& w : s.sys->level_words(len)) { auto q = s.sys->make(w); all &= ms.Symbols().where(q).found(); }
        auto go = [&] { SymmetrizedMatrixSystem sms(std::shared_ptr<MatrixSystem>(&ms, [](MatrixSystem*) {}),
            std::make_unique<Group>(ms.Context(), std::make_unique<Representation>(1, Group::dimino_generation(sparse_all(s.gens)))), len, std::make_unique<LUMapCoreProcessor>()); };
        if (all) go(); else CHECK(raises(go), "missing-symbols-accepted", s.desc << " knows " << have << " needs " << len);
        // and it works once they are known
        ms.generate_dictionary(len); go();
        c.nontrivial(s.desc);
    });
}

namespace {
    struct DenseFactory : Moment::Derived::DerivedMatrixSystem::STMFactory {
        Dense m; size_t len;
        DenseFactory(Dense m, size_t len) : m{std::move(m)}, len{len} { }
        std::unique_ptr<Moment::Derived::SymbolTableMap> operator()(SymbolTable& o, SymbolTable& t, MTP) final {
            o.OSGIndex.update_if_necessary(len); return std::make_unique<Moment::Derived::SymbolTableMap>(o, t, LUMapCoreProcessor{}, m);
        }
    };
    struct SparseFactory : Moment::Derived::DerivedMatrixSystem::STMFactory {
        Eigen::SparseMatrix<double> m; size_t len;
        SparseFactory(const Dense& d, size_t len) : m{d.sparseView()}, len{len} { }
        std::unique_ptr<Moment::Derived::SymbolTableMap> operator()(SymbolTable& o, SymbolTable& t, MTP) final {
            o.OSGIndex.update_if_necessary(len); return std::make_unique<Moment::Derived::SymbolTableMap>(o, t, LUMapCoreProcessor{}, m);
        }
    };
}

SECTION(linear_map) {
    // any linear map given on words, as a dense or a sparse matrix
    c.for_cases(c.n(200, 5000), [&](Rng& r, uint64_t) {
        std::unique_ptr<Sys> sp; do sp = random_sys(r, static_cast<int>(r.below(3) == 0 ? Sys::Locality : r.coin() ? Sys::Generic : Sys::Algebraic), 4); while (sp->level_words(1).size() < 2);
        auto& sys = *sp; auto& ms = *sys.ms; const size_t len = 1 + r.below(max_len(sys, 40, 3));
        ms.generate_dictionary(len);
        auto words = sys.level_words(len); const long n = static_cast<long>(words.size());
        // columns: zero, constants of either sign, copies and combinations of others
        Dense m = Dense::Zero(n, n); m(0, 0) = 1; const int style = static_cast<int>(r.below(4));
        for (long j = 1; j < n; ++j) switch (style == 0 ? r.below(2) : style == 1 ? 2 : r.below(5)) {
            case 0: break;
            case 1: m(0, j) = std::round(r.sym() * 4) / 2; break;
            case 2: m(1 + static_cast<long>(r.below(n - 1)), j) = r.coin() ? 1 : -0.5; break;
            case 3: m.col(j) = m.col(r.below(j)) * (r.coin() ? 1 : -2); if (r.coin()) m(0, j) += 0.25; break;
            default: for (int k = 0; k < 3; ++k) m(static_cast<long>(r.below(n)), j) += std::round(r.sym() * 4) / 2;
        }
        const bool dense = r.coin();
        std::string how = sys.desc() + " length " + std::to_string(len) + (dense ? " dense " : " sparse ") + text(m); c.note(how);
        std::shared_ptr<MatrixSystem> base(&ms, [](MatrixSystem*) {});
        std::unique_ptr<Moment::Derived::DerivedMatrixSystem> dms;
        if (dense) dms = std::make_unique<Moment::Derived::DerivedMatrixSystem>(std::move(base), DenseFactory{m, len}, -1.0);
        else dms = std::make_unique<Moment::Derived::DerivedMatrixSystem>(std::move(base), SparseFactory{m, len}, -1.0);
        auto& map = dms->map(); const auto& origin = sys.symbols();
        std::vector<cd> y; for (size_t i = 0; i < map.inv_size(); ++i) y.push_back(sys.value(map.inverse(static_cast<Moment::symbol_name_t>(i))));
        CHECK(map.inv_size() == dms->Symbols().size() && map.fwd_size() == origin.size(), "linear-sizes", how);
        std::vector<WPoly> rows;
        for (long j = 1; j < n; ++j) {
            auto q = sys.make(words[j]); auto at = origin.where(q);
            if (!CHECK(at.found(), "linear-symbol", how)) return;
            if (norm_of(at->sequence()).letters != words[j]) continue; // given by the adjoint
            WPoly p; for (long i = 0; i < n; ++i) if (m(i, j) != 0.0) add(p, words[i], m(i, j));
            cd want; for (auto& [w, f] : p) want += f * sys.value(w);
            auto& got = map(at->Id()); cd have; for (auto& e : got) have += e.factor * (e.conjugated ? std::conj(y.at(e.id)) : y.at(e.id));
            CHECK(verif::close(have, want, 1e-7), "linear-value", how << ": symbol " << at->Id() << " [" << wstr(words[j]) << "] should be worth " << want << ", mapped to " << have);
            bool constant = true; for (auto& [w, f] : p) constant &= w.empty();
            if (constant) for (auto& e : got) CHECK(e.id == 1, "linear-constant", how);
            p.erase(Word{}); rows.push_back(p);
        }
        CHECK(rank_of(rows) == map.inv_size() - 2, "linear-rank", how << ": rank " << rank_of(rows) << ", new symbols " << map.inv_size() - 2);
        // identity must go to the identity
        Dense bad = m; if (r.coin()) bad(0, 0) = 2; else bad(1, 0) = 1;
        CHECK(raises([&] {
            std::shared_ptr<MatrixSystem> b2(&ms, [](MatrixSystem*) {});
            if (dense) Moment::Derived::DerivedMatrixSystem d(std::move(b2), DenseFactory{bad, len}, -1.0); else Moment::Derived::DerivedMatrixSystem d(std::move(b2), SparseFactory{bad, len}, -1.0);
        }), "identity-not-kept", how);
        c.nontrivial(how);
    });
}

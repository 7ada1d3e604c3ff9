// C02: canonical forms denote the operator they came from.
#include "numeric.h"
#include "dictionary/raw_polynomial.h"
using namespace verif;
using namespace Moment;

namespace {
    /** all words up to length len over n letters */
    std::vector<Word> all_words(size_t n, size_t len) {
        std::vector<Word> out{{}}; size_t from = 0;
        for (size_t l = 0; l < len; ++l) { size_t to = out.size(); for (size_t i = from; i < to; ++i) for (size_t o = 0; o < n; ++o) { auto w = out[i]; w.push_back(o); out.push_back(w); } from = to; }
        return out;
    }
    /** Exhaustive over short words: canonical forms partition words exactly as the reference algebra does. */
    void partition(Ctx& c, const Scen& s, size_t len) {
        c.note("partition " + s.desc);
        std::map<Norm, Norm> ref_to_lib, lib_to_ref;
        for (auto& w : all_words(s.ops(), len)) {
            auto got = norm_of(s.make(w)); auto want = s.normal(w);
            CHECK(got == want, "canonical-form", s.desc << " " << wstr(w) << ": " << got.text() << " want " << want.text());
            auto [a, n1] = ref_to_lib.emplace(want, got); auto [b, n2] = lib_to_ref.emplace(got, want);
            CHECK(a->second == got && b->second == want, "partition", s.desc << " " << wstr(w));
            // a canonical form is a fixed point
            if (!got.zero) { auto again = norm_of(s.make(got.letters, got.phase)); CHECK(again == got, "idempotent", s.desc << " " << wstr(w)); }
            // adjoint
            CHECK(norm_of(s.make(w).conjugate()) == s.adjoint(w), "adjoint", s.desc << " " << wstr(w));
        }
        c.nontrivial(s.desc); c.count("words", 1);
        c.count("classes", ref_to_lib.size());
    }
    void laws(Ctx& c, const Scen& s, const MatrixRealisation* real, Rng& r, size_t maxlen) {
        for (int rep = 0; rep < 4; ++rep) {
            auto u = random_word(r, s.ops(), maxlen), v = random_word(r, s.ops(), maxlen), w = random_word(r, s.ops(), maxlen);
            const int pu = r.below(4), pv = r.coin() ? 0 : r.below(4);
            c.note(s.desc + " u=" + wstr(u) + " v=" + wstr(v) + " w=" + wstr(w));
            auto U = s.make(u, pu), V = s.make(v, pv), W = s.make(w);
            auto UV = U * V;
            CHECK((U * V) * W == U * (V * W), "associative", c.crumb);
            CHECK((U * V).conjugate() == V.conjugate() * U.conjugate(), "anti-homomorphism", c.crumb);
            CHECK(U.conjugate().conjugate() == U, "involution", c.crumb);
            Word uv = u; uv.insert(uv.end(), v.begin(), v.end());
            CHECK(norm_of(UV) == s.normal(uv, pu + pv), "product", c.crumb << " got " << norm_of(UV).text());
            if (real) {
                const Mat mu = real->word(u) * verif::ipow(pu); const Mat mv = real->word(v) * verif::ipow(pv);
                CHECK((real->word(UV) - mu * mv).norm() < 1e-8, "operator-product", c.crumb);
                CHECK((real->word(U) - mu).norm() < 1e-8, "operator-value", c.crumb << " " << norm_of(U).text());
                CHECK((real->word(U.conjugate()) - mu.adjoint()).norm() < 1e-8, "operator-adjoint", c.crumb);
                // zero exactly if the operator vanishes on a generic realisation
                CHECK(U.zero() == (mu.norm() < 1e-9), "zero-iff", c.crumb);
                // distinct canonical forms are distinct operators
                CHECK((U == V) == ((mu - mv).norm() < 1e-9 ), "equal-iff", c.crumb);
            }
            c.nontrivial(s.desc + wstr(u) + wstr(v));
        }
    }
}

SECTION(locality) {
    c.for_cases(c.n(120, 2500), [&](Rng& r, uint64_t) {
        LocalityScen s(LocalityScen::random_spec(r, 3, 3, 4, 10));
        LocalityReal real(s, r);
        c.note(s.desc);
        laws(c, s, real.dim <= 64 ? &real : nullptr, r, r.coin() ? 4 : 9);
    });
}
SECTION(locality_indexing) {
    // Operators are grouped by party, then measurement, then outcome: every index map agrees.
    c.for_cases(c.n(300, 4000), [&](Rng& r, uint64_t) {
        LocalityScen s(LocalityScen::random_spec(r, 5, 4, 5, 30, r.chance(1, 3) ? 1 : 2));
        c.note(s.desc);
        auto& ctx = *s.lctx;
        CHECK(ctx.size() == s.party.size(), "operator-count", s.desc);
        CHECK(ctx.Parties.size() == s.outcomes.size(), "party-count", s.desc);
        size_t gm = 0, op = 0;
        std::vector<size_t> all_out;
        for (size_t p = 0; p < s.outcomes.size(); ++p) {
            const auto& party = ctx.Parties[p];
            CHECK(party.id() == static_cast<party_name_t>(p), "party-id", s.desc);
            CHECK(party.Measurements.size() == s.outcomes[p].size(), "mmt-count", s.desc);
            CHECK(ctx.measurements_per_party()[p] == s.outcomes[p].size(), "mmts-per-party", s.desc);
            CHECK(static_cast<size_t>(party.global_offset()) == op, "party-offset", s.desc);
            size_t pops = 0, pout = 0;
            for (size_t m = 0; m < s.outcomes[p].size(); ++m, ++gm) {
                const size_t n = s.outcomes[p][m]; all_out.push_back(n); pout += n;
                CHECK(party.Measurements[m].num_outcomes == static_cast<oper_name_t>(n), "outcomes", s.desc);
                CHECK(ctx.get_global_mmt_index(static_cast<party_name_t>(p), static_cast<mmt_name_t>(m)) == gm, "global-mmt", s.desc << p << m);
                auto pm = ctx.global_index_to_PM(gm);
                CHECK(pm.party == static_cast<party_name_t>(p) && pm.mmt == static_cast<mmt_name_t>(m) && pm.global_mmt == gm, "global-to-pm", s.desc << " " << gm);
                Locality::PMIndex idx{ctx, static_cast<party_name_t>(p), static_cast<mmt_name_t>(m)};
                CHECK(idx.global_mmt == gm, "pm-index", s.desc);
                const auto& pmi = party.Measurements[m].Index();
                CHECK(pmi.party == static_cast<party_name_t>(p) && pmi.mmt == static_cast<mmt_name_t>(m) && pmi.global_mmt == gm, "mmt-index", s.desc);
                for (size_t o = 0; o + 1 < n; ++o, ++op, ++pops) {
                    CHECK(party.measurement_outcome(m, o) == static_cast<oper_name_t>(op), "measurement-outcome", s.desc << p << m << o);
                    CHECK(&party.measurement_of(static_cast<oper_name_t>(op)) == &party.Measurements[m], "measurement-of", s.desc << op);
                    CHECK(party[pops] == static_cast<oper_name_t>(op), "party-op", s.desc << op);
                    CHECK(&ctx.associated_party(static_cast<oper_name_t>(op)) == &party, "associated-party", s.desc << op);
                }
                CHECK(verif::throws([&] { (void)party.measurement_outcome(m, n - 1); }), "implicit-outcome-has-operator", s.desc);
            }
            CHECK(party.size() == pops && party.operators().size() == pops && ctx.operators_per_party()[p] == pops, "party-size", s.desc);
            CHECK(ctx.outcomes_per_party()[p] == pout, "outcomes-per-party", s.desc);
            for (auto a : party.operators()) for (auto b : party.operators())
                CHECK(party.mutually_exclusive(a, b) == (a != b && s.mmt[a] == s.mmt[b]), "mutually-exclusive", s.desc << a << "," << b);
        }
        CHECK(ctx.measurement_count() == gm, "total-mmts", s.desc);
        CHECK(ctx.outcomes_per_measurement() == all_out, "outcomes-per-mmt", s.desc);
        // partial selections
        std::vector<Locality::PMIndex> sel; std::vector<size_t> want_glob, want_out;
        for (size_t g = 0; g < gm; ++g) if (r.coin()) { auto pm = ctx.global_index_to_PM(g); sel.emplace_back(pm.party, pm.mmt); want_glob.push_back(g); want_out.push_back(all_out[g]); }
        CHECK(ctx.PM_to_global_index(sel) == want_glob, "pm-to-global", s.desc);
        CHECK(ctx.outcomes_per_measurement(sel) == want_out, "outcomes-of-selection", s.desc);
        ctx.populate_global_mmt_index(sel);
        for (size_t i = 0; i < sel.size(); ++i) CHECK(sel[i].global_mmt == want_glob[i], "populate", s.desc);
        c.nontrivial(s.desc);
    });
}
SECTION(locality_partition) {
    c.for_cases(c.n(30, 300), [&](Rng& r, uint64_t) {
        LocalityScen s(LocalityScen::random_spec(r, 3, 3, 4, 6));
        partition(c, s, s.ops() <= 3 ? 7 : s.ops() <= 4 ? 5 : 4);
    });
}
SECTION(inflation) {
    c.for_cases(c.n(250, 4000), [&](Rng& r, uint64_t) {
        InflationScen s(random_network(r)); c.note(s.desc);
        if (!CHECK(s.ops() == s.obs.size(), "operator-count", s.desc)) return;
        laws(c, s, nullptr, r, 6);
        // value on independent classical sources
        InflationReal real(s, r);
        for (int i = 0; i < 6; ++i) {
            auto w = random_word(r, s.ops(), 4);
            auto q = s.make(w);
            c.note(s.desc + " value of " + wstr(w));
            CHECK(close(real.expect(q), real.expect(w)), "value", s.desc << wstr(w) << " -> " << norm_of(q).text());
        }
        // numbering of operators
        for (size_t o = 0; o < s.ops(); ++o) {
            const auto& obs = s.ictx->Observables()[s.obs[o]];
            std::vector<oper_name_t> cp; for (auto x : s.copy[o]) cp.push_back(static_cast<oper_name_t>(x));
            if (s.obs_sources[s.obs[o]].empty()) continue;
            const auto& var = obs.variant(cp);
            CHECK(s.ictx->operator_number(static_cast<oper_name_t>(s.obs[o]), var.flat_index, static_cast<oper_name_t>(s.outcome[o])) == static_cast<oper_name_t>(o), "operator-number", s.desc << " " << o);
            CHECK(var.operator_offset + s.outcome[o] == static_cast<long>(o), "variant-offset", s.desc << " " << o);
        }
    });
}
SECTION(inflation_partition) {
    c.for_cases(c.n(40, 400), [&](Rng& r, uint64_t) {
        InflationScen s(random_network(r, 3, 2, 2, 3, 9));
        if (s.ops() != s.obs.size()) return;
        partition(c, s, s.ops() <= 4 ? 5 : s.ops() <= 6 ? 4 : 3);
    });
}
SECTION(pauli) {
    c.for_cases(c.n(150, 3000), [&](Rng& r, uint64_t) {
        const size_t q = 1 + r.below(4); PauliScen s(q); PauliReal real(q, r);
        laws(c, s, &real, r, r.coin() ? 4 : 12);
        PauliScen big(1 + r.below(90)); laws(c, big, nullptr, r, r.coin() ? 6 : 40);
    });
}
SECTION(pauli_partition) {
    c.run_case(0, [&](Rng&, uint64_t) { partition(c, PauliScen(1), 8); });
    c.run_case(1, [&](Rng&, uint64_t) { partition(c, PauliScen(2), c.n(5, 6)); });
    c.run_case(2, [&](Rng&, uint64_t) { partition(c, PauliScen(3), c.n(4, 5)); });
    c.run_case(3, [&](Rng&, uint64_t) { PauliScen s(4);
        for (oper_name_t q = 0; q < 4; ++q) for (int k = 0; k < 4; ++k) {
            CHECK(norm_of(s.pctx->sigmaX(q, sign_of(k))) == s.normal({3 * q}, k) && s.pctx->sigmaX(q, sign_of(k)) == s.make({3 * q}, k), "sigmaX", q);
            CHECK(norm_of(s.pctx->sigmaY(q, sign_of(k))) == s.normal({3 * q + 1}, k) && s.pctx->sigmaY(q, sign_of(k)) == s.make({3 * q + 1}, k), "sigmaY", q);
            CHECK(norm_of(s.pctx->sigmaZ(q, sign_of(k))) == s.normal({3 * q + 2}, k) && s.pctx->sigmaZ(q, sign_of(k)) == s.make({3 * q + 2}, k), "sigmaZ", q);
        } });
    c.run_case(4, [&](Rng&, uint64_t) {
        Pauli::PauliContext ctx(3, 5);
        for (oper_name_t col = 0; col < 5; ++col) for (oper_name_t row = 0; row < 3; ++row) {
            const oper_name_t q = col * 3 + row;
            CHECK(ctx.sigmaX(row, col) == ctx.sigmaX(q) && ctx.sigmaY(row, col) == ctx.sigmaY(q) && ctx.sigmaZ(row, col) == ctx.sigmaZ(q), "lattice-index", row << "," << col);
            CHECK(ctx.qubit_indices_to_offset(row, col) == static_cast<size_t>(q) && (ctx.qubit_offset_to_indices(q) == std::pair{static_cast<size_t>(row), static_cast<size_t>(col)}), "lattice-offset", q);
        } });
}
SECTION(raw_polynomials) {
    // Sums and products of operator polynomials, against matrices.
    c.for_cases(c.n(250, 4000), [&](Rng& r, uint64_t) {
        std::unique_ptr<Scen> sp; std::unique_ptr<MatrixRealisation> real;
        switch (r.below(3)) {
            case 0: { auto l = std::make_unique<LocalityScen>(LocalityScen::random_spec(r, 2, 2, 3, 6)); real = std::make_unique<LocalityReal>(*l, r); sp = std::move(l); break; }
            case 1: { const size_t q = 1 + r.below(3); sp = std::make_unique<PauliScen>(q); real = std::make_unique<PauliReal>(q, r); break; }
            default: { const size_t n = 1 + r.below(4); sp = std::make_unique<GenericScen>(n); real = std::make_unique<FreeReal>(n, r); }
        }
        const Scen& s = *sp;
        auto rand_poly = [&](Mat& value) {
            RawPolynomial p; value = Mat::Zero(real->dim, real->dim);
            const size_t terms = r.below(5);
            for (size_t i = 0; i < terms; ++i) {
                auto w = random_word(r, s.ops(), 3); const int ph = r.below(4);
                const cd f(static_cast<double>(r.range(-4, 4)) * 0.5, r.coin() ? 0.0 : static_cast<double>(r.range(-4, 4)) * 0.5);
                p.emplace_back(s.make(w, ph), f); value += f * verif::ipow(ph) * real->word(w);
            }
            return p;
        };
        auto value = [&](const RawPolynomial& p) { Mat m = Mat::Zero(real->dim, real->dim); for (auto& e : p) m += e.weight * real->word(e.sequence); return m; };
        auto canonical = [&](const RawPolynomial& p) {
            for (size_t i = 0; i < p.size(); ++i) {
                if (std::abs(p[i].weight) < 1e-12 || p[i].sequence.zero() || p[i].sequence.get_sign() != SequenceSignType::Positive) return false;
                if (i && !(p[i - 1].sequence.hash() < p[i].sequence.hash())) return false;
            }
            return true;
        };
        Mat va, vb; auto a = rand_poly(va), b = rand_poly(vb);
        c.note(s.desc + " polynomials of " + std::to_string(a.size()) + " and " + std::to_string(b.size()) + " terms: " + a.to_string(*s.ctx) + " | " + b.to_string(*s.ctx));
        CHECK((value(a) - va).norm() < 1e-9, "construct", c.crumb);
        auto sum = RawPolynomial::add(a, b), diff = RawPolynomial::subtract(a, b), prod = s.ctx->multiply(a, b);
        CHECK((value(sum) - va - vb).norm() < 1e-8 && canonical(sum), "add", c.crumb << " = " << sum.to_string(*s.ctx));
        CHECK((value(diff) - va + vb).norm() < 1e-8 && canonical(diff), "subtract", c.crumb << " = " << diff.to_string(*s.ctx));
        CHECK((value(prod) - va * vb).norm() < 1e-7 && canonical(prod), "multiply", c.crumb << " = " << prod.to_string(*s.ctx));
        auto cond = a; cond.condense();
        CHECK((value(cond) - va).norm() < 1e-9 && canonical(cond), "condense", c.crumb << " = " << cond.to_string(*s.ctx));
        bool scalar = true; for (auto& e : cond) scalar = scalar && e.sequence.empty();
        CHECK(cond.is_scalar() == scalar, "is-scalar", c.crumb);
        CHECK(RawPolynomial::subtract(a, a).empty(), "self-cancel", c.crumb);
        c.nontrivial(c.crumb);
    });
}

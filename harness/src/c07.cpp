// C07: creation and arithmetic with worker threads give the single-threaded answer.
#include "reqs.h"
#include <thread>
using namespace verif;
using namespace Moment;
namespace {
    template<class Body> void both(Ctx& c, Rng& r, int kind, double cap, size_t size, Body&& more) {
        Rng twin = r; auto a = random_sys(r, kind, size), b = random_sys(twin, kind, size);
        std::string hist = a->desc() + " ";
        std::vector<std::pair<const SymbolicMatrix*, const SymbolicMatrix*>> made;
        for (size_t k = 1 + r.below(3); k > 0; --k) {
            auto q = random_req(r, *a, cap); hist += text(q); c.note(hist);
            auto& n = ask(*b, q, MTP::Never); auto& m = ask(*a, q, MTP::Always);
            compare(c, *a, m, *b, n, hist); made.emplace_back(&m, &n);
            if (!c.violations.empty()) return;
        }
        more(*a, *b, made, hist);
        compare_symbols(c, *a, *b, hist);
    }
    void creation(Ctx& c, Rng& r, double cap, size_t size = 10) {
        both(c, r, static_cast<int>(r.below(5)), cap, size, [](auto&&...) {});
    }
    /** Multiplication and addition of matrices. */
    void arithmetic(Ctx& c, Rng& r, double cap) {
        both(c, r, static_cast<int>(r.below(5)), cap, 8, [&](Sys& a, Sys& b, auto& made, std::string hist) {
            auto [m, n] = made[r.below(made.size())];
            Word w = a.random_nonzero(r, 2); const int ph = r.chance(1, 3) ? static_cast<int>(r.below(4)) : 0; cd f{std::round(r.sym() * 3) + 0.5, r.chance(1, 3) ? 1.0 : 0.0};
            Req q = random_req(r, a, cap);
            const int op = static_cast<int>(r.below(6));
            auto run = [&](Sys& s, const SymbolicMatrix& x, MTP mt) -> std::unique_ptr<SymbolicMatrix> {
                auto& fac = s.ms->polynomial_factory(); auto& sym = s.ms->Symbols();
                auto lock = s.ms->get_write_lock();
                switch (op) {
                    case 0: return x.pre_multiply(s.make(w, ph), f, fac, sym, mt);
                    case 1: return x.post_multiply(s.make(w, ph), f, fac, sym, mt);
                    case 2: return x.pre_multiply(raw_of(s, q), fac, sym, mt);
                    case 3: return x.post_multiply(raw_of(s, q), fac, sym, mt);
                    case 4: { auto p = fac.register_and_construct(sym, raw_of(s, q)); return x.add(p, fac, mt); }
                    default: return x.clone(mt);
                }
            };
            hist += "op" + std::to_string(op) + " i^" + std::to_string(ph) + wstr(w) + text(q); c.note(hist);
            std::string ea, eb; std::unique_ptr<SymbolicMatrix> ma, mb;
            try { mb = run(b, *n, MTP::Never); } catch (std::exception& e) { eb = e.what(); }
            try { ma = run(a, *m, MTP::Always); } catch (std::exception& e) { ea = e.what(); }
            CHECK(ea == eb, "exception", hist << ": threads '" << ea << "' single '" << eb << "'");
            if (ma && mb) compare(c, a, *ma, b, *mb, hist);
            c.count(ma ? "arithmetic" : "arithmetic-refused");
        });
    }
}
SECTION(creation) { c.for_cases(c.n(1000, 15000), [&](Rng& r, uint64_t) { creation(c, r, 60); }); }
SECTION(large) { c.for_cases(c.n(80, 1200), [&](Rng& r, uint64_t) { creation(c, r, 220, 20); }); }
SECTION(arithmetic) { c.for_cases(c.n(800, 10000), [&](Rng& r, uint64_t) { arithmetic(c, r, 30); }); }
SECTION(mt_creation) { c.for_cases(c.n(500, 8000), [&](Rng& r, uint64_t) { creation(c, r, 40); }); }
SECTION(mt_large) { c.for_cases(c.n(40, 800), [&](Rng& r, uint64_t) { creation(c, r, 150, 16); }); }
SECTION(mt_arithmetic) { c.for_cases(c.n(300, 5000), [&](Rng& r, uint64_t) { arithmetic(c, r, 20); }); }

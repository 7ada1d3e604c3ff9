// Monitors of numeric bases of matrices (C10, C19).
#pragma once
#include "mats.h"
#include "tensor/square_matrix.h"
namespace verif {
    using namespace Moment;
    using MT = Multithreading::MultiThreadPolicy;
    template<class M> cd cell(const M& m, int i, int j) { return m.coeff(i, j); }
    /** Symbol ids of each real / imaginary basis element. */
    struct Parts { std::vector<double> a, b; };
    inline Parts parts(const Tab& t, const std::vector<cd>& v) {
        Parts p;
        for (auto id : t.sym().Basis.RealSymbols()) p.a.push_back(v[id].real());
        for (auto id : t.sym().Basis.ImaginarySymbols()) p.b.push_back(v[id].imag());
        return p;
    }
    template<class P> Mat cellular(const P& re_im, const Parts& p, int d, std::string& bad, bool fresh = true) {
        Mat o(d, d);
        if (re_im.first.size() > p.a.size() || re_im.second.size() > p.b.size() || (fresh && (re_im.first.size() != p.a.size() || re_im.second.size() != p.b.size()))) { bad = "wrong number of basis matrices"; return o; }
        for (size_t k = 0; k < re_im.first.size(); ++k) { if (re_im.first[k].rows() != d || re_im.first[k].cols() != d) { bad = "wrong size"; return o; } for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o(i, j) += p.a[k] * cell(re_im.first[k], i, j); }
        for (size_t k = 0; k < re_im.second.size(); ++k) { if (re_im.second[k].rows() != d || re_im.second[k].cols() != d) { bad = "wrong size"; return o; } for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) o(i, j) += p.b[k] * cell(re_im.second[k], i, j); }
        return o;
    }
    template<class P> Mat monolith(const P& re_im, const Parts& p, int d, std::string& bad, bool fresh = true) {
        Mat o(d, d);
        auto& re = re_im.first; auto& im = re_im.second;
        if (re.rows() > (long)p.a.size() || im.rows() > (long)p.b.size() || (fresh && (re.rows() != (long)p.a.size() || im.rows() != (long)p.b.size())) || re.cols() != d * d || im.cols() != d * d) { bad = "wrong size"; return o; }
        for (int i = 0; i < d; ++i) for (int j = 0; j < d; ++j) {
            for (long k = 0; k < re.rows(); ++k) o(i, j) += p.a[k] * cell(re, (int)k, j * d + i);
            for (long k = 0; k < im.rows(); ++k) o(i, j) += p.b[k] * cell(im, (int)k, j * d + i);
        }
        return o;
    }
    inline bool same(const Mat& x, const Mat& y, std::string& where) {
        for (int i = 0; i < x.n; ++i) for (int j = 0; j < x.n; ++j) if (!verif::close(x(i, j), y(i, j))) { where = "(" + std::to_string(i) + "," + std::to_string(j) + ") " + str(x(i, j)) + " instead of " + str(y(i, j)); return false; }
        return true;
    }
    /** The monitor: all eight forms of a matrix's basis. */
    inline void check_bases(Ctx& c, Rng& r, const Tab& t, const SymbolicMatrix& m, const std::string& what, bool fresh = true) {
        const int d = (int)m.Dimension();
        auto order = std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7};
        r.shuffle(order);
        for (int form : order) {
            c.note(what + " basis form " + std::to_string(form));
            const bool real_form = form < 4;
            if (real_form && m.HasComplexCoefficients()) {
                bool thrown = false;
                try { switch (form) { case 0: m.Basis.Dense(); break; case 1: m.Basis.Sparse(); break; case 2: m.Basis.DenseMonolithic(); break; default: m.Basis.SparseMonolithic(); } }
                catch (const errors::bad_basis_error&) { thrown = true; }
                CHECK(thrown, "real-basis-of-complex-matrix", what << ": form " << form << " was made although entries have complex coefficients");
                continue;
            }
            for (int rep = 0; rep < 2; ++rep) {
                auto v = t.values(r); auto p = parts(t, v); std::string bad, where; Mat got;
                switch (form) {
                    case 0: got = cellular(m.Basis.Dense(), p, d, bad, fresh); break;
                    case 1: got = cellular(m.Basis.Sparse(), p, d, bad, fresh); break;
                    case 2: got = monolith(m.Basis.DenseMonolithic(), p, d, bad, fresh); break;
                    case 3: got = monolith(m.Basis.SparseMonolithic(), p, d, bad, fresh); break;
                    case 4: got = cellular(m.Basis.DenseComplex(), p, d, bad, fresh); break;
                    case 5: got = cellular(m.Basis.SparseComplex(), p, d, bad, fresh); break;
                    case 6: got = monolith(m.Basis.DenseMonolithicComplex(), p, d, bad, fresh); break;
                    default: got = monolith(m.Basis.SparseMonolithicComplex(), p, d, bad, fresh); break;
                }
                CHECK(bad.empty(), "basis-shape", what << " form " << form << ": " << bad);
                if (!bad.empty()) continue;
                static const char* keys[] = {"dense", "sparse", "dense-monolithic", "sparse-monolithic", "dense-complex", "sparse-complex", "dense-monolithic-complex", "sparse-monolithic-complex"};
                CHECK(same(got, Tab::eval(m, v), where), keys[form], what << ": sum over basis at " << where);
            }
        }
        c.count("matrices");
    }
}

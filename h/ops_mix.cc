// Mixed-precision solvers and conversions.  Family "mixed" (C13); double-precision units only.
#include "gen.h"
#if PREC == 2 || PREC == 4
namespace {   // one copy per precision
typedef PM<T0> QM;
typedef QM::Lo TL;
typedef RT<TL> RL;
struct MixSolve : Op {
    int n, nrhs, ldb, ldx, style;
    Mat<T0> *B, *X;
    IVec *it;
    DX Af, Xs;
    void draw_style(Ctx &c)
    {
        static const int st[] = {0, 0, 1, 1, 1, 2, 3, 4, 5, 0, 6, 7};
        style = st[c.s.u(12)];
        if (style >= 6 && (mode & M_SINGULAR)) style = 0;
        show("style", style);
        if (style == 7 && n > 0) {
            n = 64 + (int)c.s.u(30);
            if (cfg.square) n = cfg.nb * ((63 + cfg.nb) / cfg.nb);
            else if (cfg.nb < 8) cfg.nb = 8 + (int)c.s.u(9);
            show("n", n);
        }
    }
    // style 6: matrix (of the given bandwidths) whose elimination and solution are exact in single precision
    // and pick the diagonal; herm: the product of a Cholesky factor
    DX exactA(int kl, int ku, bool herm)
    {
        DX L(n, n), U(n, n);
        auto small = [&](int tag, int i, int j, LD s) {
            uint64_t h = hash2(dg.seed * 13 + tag, i * 4096 + j);
            auto v = [&](uint64_t w) { return s * (LD)((int)(w % 3) - 1); };
            return tox(mk<T0>((double)v(h), is_cplx<T0> && !(mode & M_REAL) && !((h >> 40) & 1) ? (double)v(h >> 20) : 0.0));
        };
        for (int i = 0; i < n; i++) {
            L(i, i) = herm ? std::ldexp((LD)1, (int)(hash2(dg.seed, 300 + i) % 3)) : 1;
            U(i, i) = (hash2(dg.seed, 500 + i) & 1 ? -1 : 1) * std::ldexp((LD)1, (int)(hash2(dg.seed, 700 + i) % 3));
            int b = std::min(i, kl), t = std::min(n - 1 - i, ku);
            for (int k = 0; k < 2; k++) {
                if (b > 0) { int j = i - 1 - (int)(hash2(dg.seed, 900 + 2 * i + k) % b); L(i, j) = small(1, i, j, herm ? 1 : .25L); }
                if (t > 0) { int j = i + 1 + (int)(hash2(dg.seed, 1300 + 2 * i + k) % t); U(i, j) = small(2, i, j, 2); }
            }
        }
        return herm ? mul(L, opx(L, PlasmaConjTrans)) : mul(L, U);
    }
    // style 7: diagonally dominant matrix that refinement certainly converges for, with at most two entries beside the
    // diagonal in each row, none above 1/4.  Every entry is real or imaginary, so that products round like real ones: the
    // final residual is at most about 5 roundings of |A||x|, and the stopping criterion allows sqrt(n) >= 8.
    DX convA(int kl, int ku, bool herm)
    {
        DX A(n, n);
        auto val = [&](int i, int k) { uint64_t h = hash2(dg.seed * 17 + k, i); return (LD)((h & 1 ? -1 : 1) * (1 + (double)(h >> 12) / 4503599627370496.0)); };
        LD off = dg.seed % 3 ? 8 : 256;
        for (int i = 0; i < n; i++) {
            A(i, i) = herm ? std::abs(val(i, 0)) : val(i, 0);
            int b = std::min(i, kl), t = std::min(n - 1 - i, ku);
            if (herm) { if (i > 0) A(i, i - 1) = A(i - 1, i) = val(i, 1) / off; continue; }
            if (b > 0) A(i, i - 1 - (int)(hash2(dg.seed, 900 + i) % b)) = val(i, 1) / off;
            if (t > 0) A(i, i + 1 + (int)(hash2(dg.seed, 1300 + i) % t)) = val(i, 2) / off;
        }
        if (is_cplx<T0> && !(mode & M_REAL) && dg.seed % 2) {
            auto unit = [&](int i, int k) { int w = (int)(hash2(dg.seed * 29 + k, i) % 4); return tox(mk<T0>(w == 0 ? 1. : w == 1 ? -1. : 0., w == 2 ? 1. : w == 3 ? -1. : 0.)); };
            for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A(i, j) = unit(i, 0) * A(i, j) * (herm ? conj_(unit(j, 0)) : unit(j, 1));
        }
        return A;
    }
    void shuffle(DX &A)
    {
        for (int i = n - 1; i > 0; i--) { int k = (int)(hash2(dg.seed * 5 + 1, i) % (i + 1)); for (int j = 0; j < n && k != i; j++) std::swap(A(i, j), A(k, j)); }
    }
    // 0 well conditioned, 1 badly conditioned, 2 singular once demoted, 3 entries too large, 4 entries too small, 5 right-hand side too large
    LD bscale() const { return style == 5 ? std::ldexp((LD)1, 200) : 1; }
    LD ascale() const { return style == 3 ? std::ldexp((LD)1, 200) : style == 4 ? std::ldexp((LD)1, -200) : 1; }
    void rhs(Ctx &, int nn, int nr)
    {
        B = &mat<T0>("B", nn, nr, ldb);
        fill(*this, *B, 2);
        for (int j = 0; j < nr; j++) for (int i = 0; i < nn; i++) (*B)(i, j) = fromx(tox((*B)(i, j)) * X0(bscale()));
        if (style >= 6 && !empty) {
            auto part = [&](int i, int j, int k) {
                uint64_t h = hash2(dg.seed * 23 + k, i * 4096 + j);
                return style == 6 ? (LD)((int)(h % 9) - 4) : (LD)((h & 1 ? -1 : 1) * (1 + (double)(h >> 12) / 4503599627370496.0));
            };
            DX Y(nn, nr);
            for (int j = 0; j < nr; j++) for (int i = 0; i < nn; i++) Y(i, j) = tox(mk<T0>((double)part(i, j, 0), is_cplx<T0> && !(mode & M_REAL) ? (double)part(i, j, 1) : 0.0));
            Xs = Y;
            if (style == 6) Y = mul(Af, Y);
            for (int j = 0; j < nr; j++) for (int i = 0; i < nn; i++) (*B)(i, j) = fromx(Y(i, j));
        }
        B->access_all(R_);
        X = &mat<T0>("X", nn, nr, ldx); X->access_all(W_);
        it = &ivec("iter", 1, true);
        if (empty) X->acc.assign(X->acc.size(), 0);
    }
    void verify(Ctx &c)
    {
        int k = it->p[0];
        if (empty) { if (k != 0) bad(c, "iter", "iteration count " + std::to_string(k) + " for an empty problem"); return; }
        if (info) return;
        if (!((k >= 0 && k <= 30) || k == -31)) bad(c, "iter", "iteration count " + std::to_string(k));
        c.label(k < 0 ? "fallback" : k == 0 ? "iter0" : "refined");
        if (style == 6 && !faulted) {
            if (k != 0) bad(c, "exact", "iteration count " + std::to_string(k) + " although the single precision solution is exact");
            for (int j = 0; j < nrhs; j++) for (int i = 0; i < n; i++)
                if (!(tox((*X)(i, j)) == Xs(i, j))) bad(c, "exact", "X(" + std::to_string(i) + "," + std::to_string(j) + ") is not the solution, which single precision computes exactly");
            c.label("exact");
        }
        if (style == 7 && !faulted) {
            if (k < 0 || k > 5) bad(c, "converge", "iteration count " + std::to_string(k) + " for a matrix with condition number close to one");
            c.label("certain convergence");
        }
        DX x = X->x(), r = add(B->xo(), mul(Af, x), X0(-1));
        LD an = 0;
        for (int i = 0; i < n; i++) { LD s = 0; for (int j = 0; j < n; j++) s += abs_(Af(i, j)); an = std::max(an, s); }
        for (int j = 0; j < nrhs; j++) {
            LD rn = 0, xn = 0, bn = 0;
            for (int i = 0; i < n; i++) { LD v = abs_(r(i, j)); if (!(v <= rn)) rn = v; xn = std::max(xn, abs_(x(i, j))); bn = std::max(bn, abs_(B->o(i, j))); }
            // refinement stops at sqrt(n)*eps (sum of real and imaginary parts); the fallback is a plain LU or Cholesky solve
            LD bound = (k >= 0 ? 4 * (std::sqrt((LD)n) + n / 4.0L) : 8 * (LD)(n + 8)) * 2 * ulp<T0>() * (an * xn + (k < 0 ? bn : 0)) + 64 * (LD)std::numeric_limits<R0>::min();
            if (!(rn <= bound)) { char t[160]; snprintf(t, sizeof t, "column %d: residual %.3Lg, bound %.3Lg, iter %d", j, rn, bound, k); bad(c, "residual", t); }
        }
    }
    // last row close to a combination of the first rows
    void degrade(DX &A, LD delta)
    {
        int N = A.n;
        if (N < 2) return;
        for (int j = 0; j < N; j++) A(N - 1, j) = A(0, j) + (N > 2 && style == 1 ? A(1, j) : X0(0)) + X0(delta) * umod(dg, 71, j, 3);
        for (auto &x : A.a) x = tox(fromx(x));
    }
    void scaleA(DX &A) { for (auto &x : A.a) x = tox(fromx(x * X0(ascale()))); }
};
struct MGesv : MixSolve {
    int lda;
    Mat<T0> *A;
    IVec *ip;
    void gen(Ctx &c) override
    {
        mode |= M_WELL; unique_out = false;
        a_dim(c, 1, "n", n); a_dim(c, 2, "nrhs", nrhs);
        draw_data(c);
        draw_style(c);
        int sh = c.s.u(4), de = 2 + (int)c.s.u(11);
        show("shape", sh); show("delta", de);
        lda = draw_ld(c, n); ldb = draw_ld(c, n); ldx = draw_ld(c, n);
        a_ld(4, "lda", lda, n); a_ld(7, "ldb", ldb, n); a_ld(9, "ldx", ldx, n);
        empty = n == 0 || nrhs == 0;
        Af = wgen(dg, 1, n, n, sh);
        if (style == 1) degrade(Af, std::pow((LD)10, -de));
        if (style == 2) degrade(Af, 1e-11L);
        if (style == 6 && !empty) { Af = exactA(n, n, false); shuffle(Af); }
        if (style == 7 && !empty) { Af = convA(n, n, false); shuffle(Af); }
        scaleA(Af);
        if ((mode & M_SINGULAR) && !empty) { for (int i = 0; i < n; i++) Af(i, 0) = 0; expect_info = 1; }
        A = &mat<T0>("A", n, n, lda); store(*A, Af); A->access_all(R_ | W_);
        ip = &ivec("ipiv", n, true);
        rhs(c, n, nrhs);
        finish_gen();
    }
    bool accidental() override { return nearly_singular(Af, info); }
    void call() override { info = QM::gesv(n, nrhs, A->p, lda, ip->p, B->p, ldb, X->p, ldx, it->p); }
    void check(Ctx &c) override { verify(c); }
};
REG_OP(MGesv, "mgesv", "mixed", true, "sing")
struct MPosv : MixSolve {
    int lda, ul;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        mode |= M_WELL; unique_out = false;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n); a_dim(c, 3, "nrhs", nrhs);
        draw_data(c);
        draw_style(c);
        int de = 2 + (int)c.s.u(10);
        show("delta", de);
        lda = draw_ld(c, n); ldb = draw_ld(c, n); ldx = draw_ld(c, n);
        a_ld(5, "lda", lda, n); a_ld(7, "ldb", ldb, n); a_ld(9, "ldx", ldx, n);
        empty = n == 0 || nrhs == 0;
        // L L^H with a small last diagonal entry
        DX L = wtri(dg, 1, n, PlasmaLower, false, true);
        if (n > 1 && (style == 1 || style == 2)) L(n - 1, n - 1) = X0(style == 2 ? 1e-6L : std::pow((LD)10, -de / 2.0L));
        Af = mul(L, opx(L, PlasmaConjTrans));
        if (style == 6 && !empty) Af = exactA(n, n, true);
        if (style == 7 && !empty) Af = convA(n, n, true);
        scaleA(Af);
        for (int j = 0; j < n; j++) { for (int i = 0; i < j; i++) Af(i, j) = conj_(Af(j, i)); Af(j, j) = X0(re_(Af(j, j))); }
        if ((mode & M_SINGULAR) && !empty) { Af(0, 0) = 0; expect_info = 1; }
        A = &mat<T0>("A", n, n, lda);
        store(*A, Af, ul);
        A->access_uplo(ul, PlasmaNonUnit, R_ | W_);
        rhs(c, n, nrhs);
        finish_gen();
        if (!(mode & M_SINGULAR) && c.s.u(4) == 3) {    // the other triangle is not referenced, whatever its magnitude
            for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!in_uplo(ul, i, j)) (*A)(i, j) = mk<T0>(1e200, -1e250);
            A->snapshot();
            show("hugeother", 1);
        }
    }
    void call() override { info = QM::posv(ul, n, nrhs, A->p, lda, B->p, ldb, X->p, ldx, it->p); }
    void check(Ctx &c) override { verify(c); }
};
REG_OP(MPosv, "mposv", "mixed", false, "sing")
struct MGbsv : MixSolve {
    int ldab, kl, ku;
    Mat<T0> *AB;
    IVec *ip;
    void gen(Ctx &c) override
    {
        mode |= M_WELL; unique_out = false;
        a_dim(c, 1, "n", n);
        auto bw = [&](int mx) { mx = std::max(0, mx); return (int)(c.s.u(3) ? c.s.u(std::min(mx, cfg.nb + 2) + 1) : c.s.u(mx + 1)); };
        kl = bw(n - 1); ku = bw(n - 1);
        args.push_back({2, "kl", &kl, {-1}}); args.push_back({3, "ku", &ku, {-1}});
        show("kl", kl); show("ku", ku);
        a_dim(c, 4, "nrhs", nrhs);
        draw_data(c);
        draw_style(c);
        if (style == 7) { kl = std::min(kl, std::max(0, n - 1)); ku = std::min(ku, std::max(0, n - 1)); show("kl", kl); show("ku", ku); }
        int sh = c.s.u(4), de = 2 + (int)c.s.u(11);
        show("shape", sh); show("delta", de);
        ldb = draw_ld(c, n); ldx = draw_ld(c, n);
        int kut = (ku + kl + cfg.nb - 1) / cfg.nb, klt = (kl + cfg.nb - 1) / cfg.nb;
        ldab = draw_ld(c, (kut + klt + 1) * cfg.nb);
        a_ld(6, "ldab", ldab, 1 + kl + ku); a_ld(9, "ldb", ldb, n); a_ld(11, "ldx", ldx, n);
        empty = n == 0 || nrhs == 0;
        Af = wgen(dg, 1, n, n, sh == 1 ? 3 : sh);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i - j > kl || j - i > ku) Af(i, j) = 0;
        for (int j = 0; j < n; j++) if (sh == 1 && kl > 0 && hash2(dg.seed, j) % 3 == 0 && j + 1 < n) std::swap(Af(j, j), Af(j + 1, j));
        if (n > 1 && (style == 1 || style == 2)) {      // last row close to a multiple of the one before, inside the band
            LD dl = style == 2 ? 1e-11L : std::pow((LD)10, -de);
            if (kl == 0 || ku == 0) { for (int i = 0; i < n; i++) Af(i, i) *= X0(i == n - 1 ? dl : 1); }
            else {
                for (int j = 0; j < n; j++) if (n - 1 - j > kl) Af(n - 2, j) = 0;
                for (int j = 0; j < n; j++) if (n - 1 - j <= kl) Af(n - 1, j) = Af(n - 2, j) + X0(dl) * umod(dg, 71, j, 3);
            }
            for (auto &x : Af.a) x = tox(fromx(x));
        }
        if (style == 6 && !empty) Af = exactA(kl, ku, false);
        if (style == 7 && !empty) Af = convA(kl, ku, false);
        scaleA(Af);
        if ((mode & M_SINGULAR) && !empty) { for (int i = 0; i < n; i++) Af(i, 0) = 0; expect_info = 1; }
        AB = &mat<T0>("AB", ldab, n, ldab);
        for (int j = 0; j < n; j++) {
            for (int i = 0; i < ldab; i++) (*AB)(i, j) = T0(0);
            for (int i = std::max(0, j - ku); i <= std::min(n - 1, j + kl); i++) (*AB)(kl + ku + i - j, j) = fromx(Af(i, j));
        }
        AB->access_all(R_ | W_);
        ip = &ivec("ipiv", n, true);
        rhs(c, n, nrhs);
        finish_gen();
    }
    bool accidental() override { return nearly_singular(Af, info); }
    void call() override { info = QM::gbsv(n, kl, ku, nrhs, AB->p, ldab, ip->p, B->p, ldb, X->p, ldx, it->p); }
    void check(Ctx &c) override { verify(c); }
};
REG_OP(MGbsv, "mgbsv", "mixed", true, "sing")
struct Demote : Op {
    int m, n, lda, ldas;
    bool over = false;
    Mat<T0> *A;
    Mat<TL> *As;
    void gen(Ctx &c) override
    {
        a_dim(c, 1, "m", m); a_dim(c, 2, "n", n);
        draw_data(c);
        exact = false;
        int st = (int)c.s.u(6);
        show("style", st);
        lda = draw_ld(c, m); ldas = draw_ld(c, m);
        a_ld(4, "lda", lda, m); a_ld(6, "ldas", ldas, m);
        A = &mat<T0>("A", m, n, lda); As = &mat<TL>("As", m, n, ldas);
        fill(*this, *A, 1);
        empty = m == 0 || n == 0;
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                auto f = [&](int part) {
                    uint64_t h = hash2(dg.seed * 3 + part, i * 4096 + j);
                    LD v = 1 + (LD)(h >> 12) / std::ldexp((LD)1, 52);         // all 52 bits: needs rounding
                    if (h & 1) v = 1 + (LD)((h >> 40) & 0x7fffff) / 8388608 + std::ldexp((LD)1, -24);   // halfway
                    return (double)std::ldexp(h & 2 ? v : -v, st == 2 ? (int)(h % 250) - 149 : st == 3 ? 126 - (int)(h % 3) : (int)(h % 9) - 4);
                };
                if (st >= 1) (*A)(i, j) = mk<T0>(f(0), (mode & M_REAL) ? 0.0 : f(1));
            }
        if (st == 4 && !empty && !(mode & M_REAL)) { over = true; int i = hash2(dg.seed, 5) % m, j = hash2(dg.seed, 6) % n; (*A)(i, j) = mk<T0>(hash2(dg.seed, 7) & 1 ? 1e39 : -3.5e38, 0); expect_info = 1; unique_out = false; }
        A->access_all(R_); As->access_all(W_);
        finish_gen();
    }
    void call() override { info = QM::lag2c(m, n, A->p, lda, As->p, ldas); }
    void check(Ctx &c) override
    {
        if (over || empty) return;
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                TL w = mk<TL>((double)re_(tox(A->o(i, j))), (double)im_(tox(A->o(i, j)))), g = (*As)(i, j);
                if (!(g == w)) { char t[160]; snprintf(t, sizeof t, "As(%d,%d) = (%.9g,%.9g), expected (%.9g,%.9g)", i, j, (double)re_(tox(g)), (double)im_(tox(g)), (double)re_(tox(w)), (double)im_(tox(w))); bad(c, "value", t); }
            }
    }
};
REG_OP(Demote, "lag2lo", "mixed", false, "move")
struct Promote : Op {
    int m, n, lda, ldas;
    Mat<T0> *A;
    Mat<TL> *As;
    void gen(Ctx &c) override
    {
        a_dim(c, 1, "m", m); a_dim(c, 2, "n", n);
        draw_data(c);
        ldas = draw_ld(c, m); lda = draw_ld(c, m);
        a_ld(4, "ldas", ldas, m); a_ld(6, "lda", lda, m);
        As = &mat<TL>("As", m, n, ldas); A = &mat<T0>("A", m, n, lda);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { (*As)(i, j) = dg.v<TL>(1, i, j); if (dg.kind == 2) (*As)(i, j) *= (RL)std::ldexp(1.0, (int)(hash2(dg.seed, i + 64 * j) % 240) - 140); }
        As->access_all(R_); A->access_all(W_);
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = QM::clag2z(m, n, As->p, ldas, A->p, lda); }
    void check(Ctx &c) override
    {
        if (empty) return;
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
            auto w = tox(As->o(i, j)); auto g = tox((*A)(i, j));
            if (!(g == w)) { char t[160]; snprintf(t, sizeof t, "A(%d,%d) = (%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg)", i, j, re_(g), im_(g), re_(w), im_(w)); bad(c, "value", t); }
        }
    }
};
REG_OP(Promote, "lag2hi", "mixed", false, "move")
}
#endif

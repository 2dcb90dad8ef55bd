// Norms and column/row maxima.  Family "norm" (C11).
#include "gen.h"
namespace {   // one copy per precision
static const std::vector<int> NORMS{PlasmaMaxNorm, PlasmaOneNorm, PlasmaInfNorm, PlasmaFrobeniusNorm};
struct NormBase : Op {
    int nm, special = 0;     // 1 one element is NaN, 2 one is infinite
    Mat<R0> *V;
    int ex() const { return std::is_same<R0, float>::value ? 40 + hash2(dg.seed, 4711) % 55 : 300 + hash2(dg.seed, 4711) % 600; }
    // extreme magnitudes: squares overflow or underflow
    LD extreme(Ctx &c)
    {
        int k = dg.kind == 0 ? 0 : (int)c.s.u(6);
        int e = ex();
        show("extreme", k);
        if (k < 3) return 1;
        exact = false;
        if (k == 5) return 0;                  // mixed, per element
        return std::ldexp((LD)1, k == 3 ? e : -e);
    }
    T0 el(LD f, int i, int j)
    {
        X0 x = tox(dg.v<T0>(1, i, j));
        if (f == 0) { int e = ex(); f = std::ldexp((LD)1, (hash2(dg.seed, i * 131 + j) % 3 == 0) ? -e : (hash2(dg.seed, i * 31 + j) % 5 == 0) ? e : 0); }
        return fromx(x * X0(f));
    }
    void spoil(Ctx &c, Mat<T0> &A, std::function<bool(int, int)> in, bool herm = false)
    {
        if (!(mode & M_HARD) || A.m == 0 || A.n == 0 || c.s.u(12) != 11) return;
        special = 1 + (int)c.s.u(2);
        R0 v = special == 1 ? std::numeric_limits<R0>::quiet_NaN() : c.s.u(2) ? std::numeric_limits<R0>::infinity() : -std::numeric_limits<R0>::infinity();
        int i = c.s.u(A.m), j = c.s.u(A.n);
        for (int t = 0; t < A.m * A.n && !in(i, j); t++) if (++i == A.m) { i = 0; if (++j == A.n) j = 0; }
        if (!in(i, j)) { special = 0; return; }
        R0 w = (R0)re_(tox(A(i, j)));
        A(i, j) = mk<T0>(v, 0);
        if (is_cplx<T0> && !(herm && i == j) && c.s.u(2)) A(i, j) = mk<T0>(w, v);
        show("special", special); show("row", i); show("col", j);
        c.label(special == 1 ? "a NaN among the elements" : "an infinity among the elements");
    }
    void outv() { V = &mat<R0>("value", 1, 1, 1); V->access_all(W_); V->p[0] = R0(-12345); }
    void setv(R0 v) { value = (double)v; info = v < 0 ? (int)v : 0; if (!(v < 0)) V->p[0] = v; }
    // A holds the matrix explicitly (zeros where it has none)
    void verify(Ctx &c, const DX &A)
    {
        LD ref = 0, fac = 4;
        if (special) {
            if (special == 1 ? !std::isnan(V->p[0]) : !(std::isinf(V->p[0]) && V->p[0] > 0)) { char t[120]; snprintf(t, sizeof t, "returned %.9Lg, one element is %s", (LD)V->p[0], special == 1 ? "NaN" : "infinite"); bad(c, "special", t); }
            return;
        }
        if (nm == PlasmaMaxNorm) ref = maxabs(A);
        else if (nm == PlasmaOneNorm) { ref = one(A); fac += A.m; }
        else if (nm == PlasmaInfNorm) { for (int i = 0; i < A.m; i++) { LD s = 0; for (int j = 0; j < A.n; j++) s += abs_(A(i, j)); ref = std::max(ref, s); } fac += A.n; }
        else { ref = fro(A); fac += (LD)A.m * A.n / 2 + 8; }
        if (A.m == 0 || A.n == 0) ref = 0;
        LD e = std::fabs((LD)V->p[0] - ref), b = fac * 2 * ulp<T0>() * ref + 4 * (LD)std::numeric_limits<R0>::denorm_min();
        if (!is_cplx<T0> && nm == PlasmaMaxNorm) b = 0;
        if (!(e <= b)) { char t[160]; snprintf(t, sizeof t, "returned %.9Lg, expected %.9Lg, error %.3Lg, bound %.3Lg", (LD)V->p[0], ref, e, b); bad(c, "value", t); }
    }
};
struct Lange : NormBase {
    int m, n, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "norm", nm, NORMS, {0, 999, 110}); a_dim(c, 2, "m", m); a_dim(c, 3, "n", n);
        draw_data(c);
        LD f = extreme(c);
        lda = draw_ld(c, m); a_ld(5, "lda", lda, m);
        A = &mat<T0>("A", m, n, lda); A->access_all(R_);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) (*A)(i, j) = el(f, i, j);
        spoil(c, *A, all);
        outv();
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { setv(PL::lange(nm, m, n, A->p, lda)); }
    void check(Ctx &c) override { verify(c, A->xo()); }
};
REG_OP(Lange, "lange", "norm", false, "tile")
struct Lantr : NormBase {
    int m, n, ul, di, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "norm", nm, NORMS, {0, 999, 110}); a_enum(c, 2, "uplo", ul, ULS); a_enum(c, 3, "diag", di, DIAGS);
        a_dim(c, 4, "m", m); a_dim(c, 5, "n", n);
        if (c.s.u(2)) n = m;
        draw_data(c);
        LD f = extreme(c);
        lda = draw_ld(c, m); a_ld(7, "lda", lda, m);
        A = &mat<T0>("A", m, n, lda); A->access_uplo(ul, di, R_);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) (*A)(i, j) = el(f, i, j);
        spoil(c, *A, [&](int i, int j) { return (A->at(i, j) & R_) != 0; });
        outv();
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { setv(PL::lantr(nm, ul, di, m, n, A->p, lda)); }
    void check(Ctx &c) override { verify(c, tri(A->xo(), ul, di)); }
};
REG_OP(Lantr, "lantr", "norm", false, "")
template<bool HERM> struct LanSH : NormBase {
    int n, ul, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "norm", nm, NORMS, {0, 999, 110}); a_enum(c, 2, "uplo", ul, ULS);
        a_dim(c, 3, "n", n);
        draw_data(c);
        LD f = extreme(c);
        lda = draw_ld(c, n); a_ld(5, "lda", lda, n);
        A = &mat<T0>("A", n, n, lda); A->access_uplo(ul, PlasmaNonUnit, R_);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) (*A)(i, j) = HERM && i == j ? fromx(X0(re_(tox(el(f, i, j))))) : el(f, i, j);
        if (HERM) impure(c, *this, *A);
        spoil(c, *A, [&](int i, int j) { return (A->at(i, j) & R_) != 0; }, HERM);
        outv();
        empty = n == 0;
        finish_gen();
    }
    void call() override { if (HERM) setv(PL::lanhe(nm, ul, n, A->p, lda)); else setv(PL::lansy(nm, ul, n, A->p, lda)); }
    void check(Ctx &c) override { verify(c, symfull(A->xo(), ul, HERM)); }
};
typedef LanSH<false> Lansy;
REG_OP(Lansy, "lansy", "norm", false, "tile")
#if PREC >= 3
typedef LanSH<true> Lanhe;
REG_OP(Lanhe, "lanhe", "norm", false, "")
#endif
struct Langb : NormBase {
    int m, n, kl, ku, ldab;
    Mat<T0> *AB;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "norm", nm, NORMS, {0, 999, 110}); a_dim(c, 2, "m", m); a_dim(c, 3, "n", n);
        auto bw = [&](int mx) { mx = std::max(0, mx); return (int)(c.s.u(3) ? c.s.u(std::min(mx, cfg.nb + 2) + 1) : c.s.u(mx + 1)); };
        kl = bw(m - 1); ku = bw(n - 1);
        args.push_back({4, "kl", &kl, {-1}}); args.push_back({5, "ku", &ku, {-1}});
        show("kl", kl); show("ku", ku);
        draw_data(c);
        LD f = extreme(c);
        // band storage of the band routines: kl rows of fill-in above, whole tiles below, zero outside the band
        int kut = (ku + kl + cfg.nb - 1) / cfg.nb, klt = (kl + cfg.nb - 1) / cfg.nb;
        ldab = draw_ld(c, (kut + klt + 1) * cfg.nb); a_ld(7, "ldab", ldab, 1 + kl + ku);
        AB = &mat<T0>("AB", ldab, n, ldab);
        AB->access_all(R_);
        for (int j = 0; j < n; j++) for (int i = 0; i < ldab; i++) (*AB)(i, j) = T0(0);
        for (int j = 0; j < n; j++)
            for (int i = std::max(0, j - ku); i <= std::min(m - 1, j + kl); i++) { int r = kl + ku + i - j; (*AB)(r, j) = el(f, i, j); AB->at(r, j) |= R_; }
        spoil(c, *AB, [&](int r, int j) { int i = r - kl - ku + j; return r <= 2 * kl + ku && r >= kl && i >= 0 && i < m; });
        outv();
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { setv(PL::langb(nm, m, n, kl, ku, AB->p, ldab)); }
    void check(Ctx &c) override
    {
        DX A(m, n);
        for (int j = 0; j < n; j++) for (int i = std::max(0, j - ku); i <= std::min(m - 1, j + kl); i++) A(i, j) = tox(AB->o(kl + ku + i - j, j));
        verify(c, A);
    }
};
REG_OP(Langb, "langb", "norm", false, "")
struct Amax : Op {
    int cr, m, n, lda;
    Mat<T0> *A;
    Mat<R0> *V;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "colrow", cr, std::vector<int>{PlasmaColumnwise, PlasmaRowwise}); a_dim(c, 2, "m", m); a_dim(c, 3, "n", n);
        draw_data(c);
        lda = draw_ld(c, m); a_ld(5, "lda", lda, m);
        A = &mat<T0>("A", m, n, lda); A->access_all(R_);
        fill(*this, *A, 1);
        int k = cr == PlasmaColumnwise ? n : m;
        V = &mat<R0>("values", k, 1, std::max(k, 1));
        empty = m == 0 || n == 0;
        if (!empty) V->access_all(W_);
        finish_gen();
    }
    void call() override { info = PL::amax(cr, m, n, A->p, lda, V->p); }
    void check(Ctx &c) override
    {
        if (empty) return;
        bool col = cr == PlasmaColumnwise;
        for (int j = 0; j < (col ? n : m); j++) {
            LD r = 0;
            for (int i = 0; i < (col ? m : n); i++) r = std::max(r, abs1_(tox(col ? A->o(i, j) : A->o(j, i))));
            LD e = std::fabs(r - (LD)V->p[j]);
            if (!(e <= (is_cplx<T0> ? 2 * ulp<T0>() * r : 0))) { char t[120]; snprintf(t, sizeof t, "values[%d] = %.9Lg, expected %.9Lg", j, (LD)V->p[j], r); bad(c, "value", t); }
        }
    }
};
REG_OP(Amax, "amax", "norm", false, "tile")
}

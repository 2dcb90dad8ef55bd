// Copy, set, scale, swap.  Family "aux" (C12).
#include "gen.h"
namespace {   // one copy per precision
static bool same(T0 a, T0 b) { return !memcmp(&a, &b, sizeof(T0)); }
static std::string at(int i, int j, T0 g, T0 w)
{
    char t[160];
    snprintf(t, sizeof t, "(%d,%d) = (%.9Lg,%.9Lg), expected (%.9Lg,%.9Lg)", i, j, (LD)re_(tox(g)), (LD)im_(tox(g)), (LD)re_(tox(w)), (LD)im_(tox(w)));
    return t;
}
struct Lacpy : Op {
    int ul, tr, m, n, lda, ldb;
    Mat<T0> *A, *B;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "uplo", ul, ULGS); a_enum(c, 2, "transa", tr, TR3);
        a_dim(c, 3, "m", m); a_dim(c, 4, "n", n);
        if (tr != PlasmaNoTrans) n = m;
        draw_data(c);
        lda = draw_ld(c, m); ldb = draw_ld(c, m);
        a_ld(6, "lda", lda, m); a_ld(8, "ldb", ldb, m);
        A = &mat<T0>("A", m, n, lda); B = &mat<T0>("B", m, n, ldb);
        fill(*this, *A, 1); fill(*this, *B, 2);
        A->access_uplo(ul, PlasmaNonUnit, R_);
        B->access_uplo(tr == PlasmaNoTrans || ul == PlasmaGeneral ? ul : ul == PlasmaUpper ? PlasmaLower : PlasmaUpper, PlasmaNonUnit, W_);
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = PL::lacpy(ul, tr, m, n, A->p, lda, B->p, ldb); }
    void check(Ctx &c) override
    {
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                if (!(B->at(i, j) & W_)) continue;
                T0 w = tr == PlasmaNoTrans ? A->o(i, j) : tr == PlasmaTrans ? A->o(j, i) : conj_(A->o(j, i));
                if (!same((*B)(i, j), w) && !((*B)(i, j) == w)) bad(c, "value", "B" + at(i, j, (*B)(i, j), w));
            }
    }
};
REG_OP(Lacpy, "lacpy", "aux", false, "tile move")
struct Laset : Op {
    int ul, m, n, lda;
    T0 al, be;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "uplo", ul, ULGS); a_dim(c, 2, "m", m); a_dim(c, 3, "n", n);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al); be = draw_scalar<T0>(c, *this, "beta", *this); scalar("beta", be);
        lda = draw_ld(c, m); a_ld(7, "lda", lda, m);
        A = &mat<T0>("A", m, n, lda);
        fill(*this, *A, 1);
        A->access_uplo(ul, PlasmaNonUnit, W_);
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = PL::laset(ul, m, n, al, be, A->p, lda); }
    void check(Ctx &c) override
    {
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++)
                if (A->at(i, j) & W_) { T0 w = i == j ? be : al; if (!((*A)(i, j) == w)) bad(c, "value", "A" + at(i, j, (*A)(i, j), w)); }
    }
};
REG_OP(Laset, "laset", "aux", false, "tile move")
// gbset clears everything outside the band of a full matrix and has no return value
struct Gbset : Op {
    int m, n, kl, ku, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        a_dim(c, 1, "m", m, 0, 40); a_dim(c, 2, "n", n, 0, 40);
        draw_data(c);
        auto band = [&](int hi) { int w = (int)c.s.u(8); return w == 0 ? 0 : w == 1 ? hi : w == 2 ? (hi + 1) / 2 : w == 3 ? (c.s.u(2) ? -1 : hi + 1) : (int)c.s.u((uint32_t)hi + 1); };
        kl = band(std::max(0, m - 1)); ku = band(std::max(0, n - 1));
        lda = draw_ld(c, m);
        A = &mat<T0>("A", m, n, lda);
        fill(*this, *A, 1);
        empty = m == 0 || n == 0;
        bool ill = kl < 0 || kl >= m || ku < 0 || ku >= n;
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!ill && (i - j > kl || j - i > ku)) A->at(i, j) = W_;
        show("kl", kl); show("ku", ku); show("lda", lda);
        finish_gen();
    }
    void call() override { PL::gbset(m, n, kl, ku, A->p, lda); info = 0; }
    void check(Ctx &c) override
    {
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++)
                if (A->at(i, j) & W_) { if (!((*A)(i, j) == T0(0))) bad(c, "value", "A" + at(i, j, (*A)(i, j), T0(0))); }
    }
};
REG_OP(Gbset, "gbset", "noret", false, "tile move")
struct Lascl : Op {
    int ul, m, n, lda;
    R0 cf, ct;
    Mat<T0> *A;
    R0 factor(Ctx &c, const char *nm)
    {
        int k = (int)c.s.u(8), E = std::is_same<R0, float>::value ? 120 : 1000;
        LD v = 1 + (LD)c.s.u(64) / 64;
        int e = k < 3 ? 0 : k < 5 ? (int)c.s.range(-20, 20) : k == 5 ? E : k == 6 ? -E : (int)c.s.range(-E, E);
        v = std::ldexp(v, e);
        if (c.s.u(4) == 3) v = -v;
        show(nm, e);
        return (R0)v;
    }
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "uplo", ul, ULGS); a_dim(c, 4, "m", m); a_dim(c, 5, "n", n);
        draw_data(c);
        exact = false;
        cf = factor(c, "cfrom"); ct = factor(c, "cto");
        if (c.s.u(8) == 7) ct = 0;
        LD r = (LD)ct / cf;
        lda = draw_ld(c, m); a_ld(7, "lda", lda, m);
        A = &mat<T0>("A", m, n, lda);
        fill(*this, *A, 1);
        // keep the result representable
        int E = std::is_same<R0, float>::value ? 110 : 1000;
        if (r != 0) {
            int e = std::ilogb(r), sh = 0;
            if (e > E) sh = -(e - E / 2);
            if (e < -E) sh = -(e + E / 2);
            sh = std::max(-E, std::min(E, sh));
            for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) (*A)(i, j) = fromx(tox((*A)(i, j)) * X0(std::ldexp((LD)1, sh)));
            show("shift", sh);
        }
        A->access_uplo(ul, PlasmaNonUnit, R_ | W_);
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = PL::lascl(ul, cf, ct, m, n, A->p, lda); }
    void check(Ctx &c) override
    {
        for (int j = 0; j < n; j++)
            for (int i = 0; i < m; i++) {
                if (!(A->at(i, j) & W_)) continue;
                X0 w = tox(A->o(i, j)) * X0((LD)ct / (LD)cf);
                auto part = [&](LD g, LD e) {
                    LD b = 16 * ulp<T0>() * std::fabs(e) + 8 * (LD)std::numeric_limits<R0>::denorm_min();
                    if (std::fabs(e) > (LD)std::numeric_limits<R0>::max() * 0.999L) return;
                    if (!(std::fabs(g - e) <= b)) { char t[160]; snprintf(t, sizeof t, "A(%d,%d) component %.9Lg, expected %.9Lg", i, j, g, e); bad(c, "value", t); }
                };
                part(re_(tox((*A)(i, j))), re_(w)); part(im_(tox((*A)(i, j))), im_(w));
            }
    }
};
REG_OP(Lascl, "lascl", "aux", false, "tile")
struct Geswp : Op {
    int cr, m, n, lda, inc;
    Mat<T0> *A;
    IVec *ip;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "colrow", cr, std::vector<int>{PlasmaRowwise, PlasmaColumnwise}); a_dim(c, 2, "m", m); a_dim(c, 3, "n", n);
        draw_data(c);
        inc = c.s.u(2) ? -1 : 1;
        show("incx", inc);
        lda = draw_ld(c, m); a_ld(5, "lda", lda, m);
        A = &mat<T0>("A", m, n, lda);
        fill(*this, *A, 1);
        A->access_all(R_ | W_);
        int k = cr == PlasmaRowwise ? m : n;
        ip = &ivec("ipiv", k, false);
        int style = (int)c.s.u(3);
        show("pivots", style);
        for (int i = 0; i < k; i++)
            ip->p[i] = 1 + (style == 0 ? i + (int)(hash2(dg.seed, 77 + i) % (k - i)) : style == 1 ? (int)(hash2(dg.seed, 77 + i) % k) : (hash2(dg.seed, i) % 4 ? i : (int)(hash2(dg.seed, 9 + i) % k)));
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = PL::geswp(cr, m, n, A->p, lda, ip->p, inc); }
    void check(Ctx &c) override
    {
        DX B = A->xo();
        int k = cr == PlasmaRowwise ? m : n;
        for (int t = 0; t < k; t++) {
            int i = inc > 0 ? t : k - 1 - t, p = ip->orig[i] - 1;
            if (p == i) continue;
            if (cr == PlasmaRowwise) for (int j = 0; j < n; j++) std::swap(B(i, j), B(p, j));
            else for (int j = 0; j < m; j++) std::swap(B(j, i), B(j, p));
        }
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!(tox((*A)(i, j)) == B(i, j))) bad(c, "value", "A" + at(i, j, (*A)(i, j), fromx(B(i, j))));
        // applying the interchanges in the opposite order restores the matrix
        if (!empty) {
            int r = PL::geswp(cr, m, n, A->p, lda, ip->p, -inc);
            if (r) bad(c, "info", "reverse swap returned " + std::to_string(r));
            for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!same((*A)(i, j), A->o(i, j))) bad(c, "roundtrip", "A" + at(i, j, (*A)(i, j), A->o(i, j)));
            footprint(c);
        }
    }
};
REG_OP(Geswp, "geswp", "aux", false, "tile move")
}

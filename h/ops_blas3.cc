// Level-3 BLAS-like operations and additions.
#include "gen.h"
namespace {   // one copy per precision

// C = alpha*P + beta*C0 with P given together with its magnitude
static void lincomb(Ctx &c, Op &op, const char *what, Mat<T0> &C, std::function<bool(int, int)> in, const DX &Pm, const DM<LD> &mag, T0 alpha, T0 beta, int k)
{
    DX ref = C.xo();
    DM<LD> mg(C.m, C.n);
    for (int j = 0; j < C.n; j++)
        for (int i = 0; i < C.m; i++) {
            mg(i, j) = abs_(tox(alpha)) * mag(i, j);
            X0 c0 = ref(i, j);
            ref(i, j) = tox(alpha) * Pm(i, j);
            if (is0(beta)) continue;               // with beta = 0 what C held does not matter (it may hold NaN)
            mg(i, j) += abs_(tox(beta)) * abs_(c0);
            ref(i, j) += tox(beta) * c0;
        }
    cmp_region(c, op, what, C, in, ref, mg, (LD)6 * (k + 6));
}

struct Gemm : Op {
    int ta, tb, m, n, k, lda, ldb, ldc;
    T0 al, be;
    Mat<T0> *A, *B, *C;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "transa", ta, TR3); a_enum(c, 2, "transb", tb, TR3);
        a_dim(c, 3, "m", m); a_dim(c, 4, "n", n); a_dim(c, 5, "k", k);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al); be = draw_scalar<T0>(c, *this, "beta", *this); scalar("beta", be);
        int am = ta == PlasmaNoTrans ? m : k, an = ta == PlasmaNoTrans ? k : m, bm = tb == PlasmaNoTrans ? k : n, bn = tb == PlasmaNoTrans ? n : k;
        lda = draw_ld(c, am); ldb = draw_ld(c, bm); ldc = draw_ld(c, m);
        a_ld(8, "lda", lda, am); a_ld(10, "ldb", ldb, bm); a_ld(13, "ldc", ldc, m);
        A = &mat<T0>("A", am, an, lda); B = &mat<T0>("B", bm, bn, ldb); C = &mat<T0>("C", m, n, ldc);
        fill(*this, *A, 1); fill(*this, *B, 2); fill(*this, *C, 3);
        A->access_all(R_); B->access_all(R_); C->access_all(is0(be) ? W_ : R_ | W_);
        if (is0(be)) c.label("beta = 0, C not set");
        empty = m == 0 || n == 0 || ((is0(al) || k == 0) && is1(be));
        finish_gen();
    }
    void call() override { info = PL::gemm(ta, tb, m, n, k, al, A->p, lda, B->p, ldb, be, C->p, ldc); }
    void check(Ctx &c) override
    {
        DX a = opx(A->xo(), ta), b = opx(B->xo(), tb);
        lincomb(c, *this, "value", *C, all, mul(a, b), mul(absm(a), absm(b)), al, be, k);
    }
};
REG_OP(Gemm, "gemm", "blas3", false, "tile")

struct Gbmm : Op {
    int ta, tb, m, n, k, kl, ku, lda, ldb, ldc;
    T0 al, be;
    Mat<T0> *A, *B, *C;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "transa", ta, TR3); a_enum(c, 2, "transb", tb, TR3);
        a_dim(c, 3, "m", m); a_dim(c, 4, "n", n); a_dim(c, 5, "k", k);
        int mxl = std::max(0, (ta == PlasmaNoTrans ? m : k) - 1), mxu = std::max(0, (ta == PlasmaNoTrans ? k : m) - 1);
        kl = c.s.u(3) ? c.s.u(std::min(mxl, cfg.nb + 2) + 1) : c.s.u(mxl + 1);
        ku = c.s.u(3) ? c.s.u(std::min(mxu, cfg.nb + 2) + 1) : c.s.u(mxu + 1);
        args.push_back({6, "kl", &kl, {-1}}); args.push_back({7, "ku", &ku, {-1}});
        show("kl", kl); show("ku", ku);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al); be = draw_scalar<T0>(c, *this, "beta", *this); scalar("beta", be);
        int am = ta == PlasmaNoTrans ? m : k, an = ta == PlasmaNoTrans ? k : m, bm = tb == PlasmaNoTrans ? k : n, bn = tb == PlasmaNoTrans ? n : k;
        lda = draw_ld(c, am); ldb = draw_ld(c, bm); ldc = draw_ld(c, m);
        a_ld(10, "lda", lda, am); a_ld(12, "ldb", ldb, bm); a_ld(15, "ldc", ldc, m);
        A = &mat<T0>("A", am, an, lda); B = &mat<T0>("B", bm, bn, ldb); C = &mat<T0>("C", m, n, ldc);
        fill(*this, *A, 1); fill(*this, *B, 2); fill(*this, *C, 3);
        for (int j = 0; j < an; j++) for (int i = 0; i < am; i++) if (i - j > kl || j - i > ku) (*A)(i, j) = 0;
        A->access_all(R_); B->access_all(R_); C->access_all(is0(be) ? W_ : R_ | W_);
        if (is0(be)) c.label("beta = 0, C not set");
        empty = m == 0 || n == 0 || ((is0(al) || k == 0) && is1(be));
        finish_gen();
    }
    void call() override { info = PL::gbmm(ta, tb, m, n, k, kl, ku, al, A->p, lda, B->p, ldb, be, C->p, ldc); }
    void check(Ctx &c) override
    {
        DX a = opx(A->xo(), ta), b = opx(B->xo(), tb);
        lincomb(c, *this, "value", *C, all, mul(a, b), mul(absm(a), absm(b)), al, be, k);
    }
};
REG_OP(Gbmm, "gbmm", "blas3", false, "")

// symm / hemm
template<bool H> struct SymmB : Op {
    int sd, ul, m, n, lda, ldb, ldc;
    T0 al, be;
    Mat<T0> *A, *B, *C;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "side", sd, SIDES); a_enum(c, 2, "uplo", ul, ULS);
        a_dim(c, 3, "m", m); a_dim(c, 4, "n", n);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al); be = draw_scalar<T0>(c, *this, "beta", *this); scalar("beta", be);
        int am = sd == PlasmaLeft ? m : n;
        lda = draw_ld(c, am); ldb = draw_ld(c, m); ldc = draw_ld(c, m);
        a_ld(7, "lda", lda, am); a_ld(9, "ldb", ldb, m); a_ld(12, "ldc", ldc, m);
        A = &mat<T0>("A", am, am, lda); B = &mat<T0>("B", m, n, ldb); C = &mat<T0>("C", m, n, ldc);
        fill(*this, *A, 1); fill(*this, *B, 2); fill(*this, *C, 3);
        if (H) for (int i = 0; i < am; i++) (*A)(i, i) = re_((*A)(i, i));
        if (H) impure(c, *this, *A);
        A->access_uplo(ul, PlasmaNonUnit, R_); B->access_all(R_); C->access_all(is0(be) ? W_ : R_ | W_);
        if (is0(be)) c.label("beta = 0, C not set");
        empty = m == 0 || n == 0 || (is0(al) && is1(be));
        finish_gen();
    }
    void call() override
    {
        info = H ? PL::hemm(sd, ul, m, n, al, A->p, lda, B->p, ldb, be, C->p, ldc) : PL::symm(sd, ul, m, n, al, A->p, lda, B->p, ldb, be, C->p, ldc);
    }
    void check(Ctx &c) override
    {
        DX a = symfull(A->xo(), ul, H), b = B->xo();
        if (sd == PlasmaLeft) lincomb(c, *this, "value", *C, all, mul(a, b), mul(absm(a), absm(b)), al, be, m);
        else lincomb(c, *this, "value", *C, all, mul(b, a), mul(absm(b), absm(a)), al, be, n);
    }
};
typedef SymmB<false> Symm;
typedef SymmB<true> Hemm;
REG_OP(Symm, "symm", "blas3", false, "tile")
#if PREC >= 3
REG_OP(Hemm, "hemm", "blas3", false, "tile")
#endif

template<bool H, bool TWO> struct SyrkB : Op {
    int ul, tr, n, k, lda, ldb, ldc;
    T0 al, be;
    Mat<T0> *A, *B = nullptr, *C;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "uplo", ul, ULS);
        std::vector<int> trs{PlasmaNoTrans, H ? PlasmaConjTrans : PlasmaTrans};
        std::vector<int> badtr{0, 999};
        if (is_cplx<T0>) badtr.push_back(H ? PlasmaTrans : PlasmaConjTrans);
        a_enum(c, 2, "trans", tr, trs, badtr);
        a_dim(c, 3, "n", n); a_dim(c, 4, "k", k);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this, H && !TWO); scalar("alpha", al); be = draw_scalar<T0>(c, *this, "beta", *this, H); scalar("beta", be);
        int am = tr == PlasmaNoTrans ? n : k, an = tr == PlasmaNoTrans ? k : n;
        lda = draw_ld(c, am); ldb = draw_ld(c, am); ldc = draw_ld(c, n);
        a_ld(7, "lda", lda, am);
        if (TWO) a_ld(9, "ldb", ldb, am);
        a_ld(TWO ? 12 : 10, "ldc", ldc, n);
        A = &mat<T0>("A", am, an, lda);
        fill(*this, *A, 1); A->access_all(R_);
        if (TWO) { B = &mat<T0>("B", am, an, ldb); fill(*this, *B, 2); B->access_all(R_); }
        C = &mat<T0>("C", n, n, ldc);
        fill(*this, *C, 3);
        if (H) for (int i = 0; i < n; i++) (*C)(i, i) = re_((*C)(i, i));
        C->access_uplo(ul, PlasmaNonUnit, is0(be) ? W_ : R_ | W_);
        if (is0(be)) c.label("beta = 0, C not set");
        empty = n == 0 || ((is0(al) || k == 0) && is1(be));
        if (H && !empty) impure(c, *this, *C);
        finish_gen();
    }
    void call() override
    {
        if (H && TWO) info = PL::her2k(ul, tr, n, k, al, A->p, lda, B->p, ldb, re_(be), C->p, ldc);
        else if (TWO) info = PL::syr2k(ul, tr, n, k, al, A->p, lda, B->p, ldb, be, C->p, ldc);
        else if (H) info = PL::herk(ul, tr, n, k, re_(al), A->p, lda, re_(be), C->p, ldc);
        else info = PL::syrk(ul, tr, n, k, al, A->p, lda, be, C->p, ldc);
    }
    void check(Ctx &c) override
    {
        int tt = H ? PlasmaConjTrans : PlasmaTrans;
        if (H && !empty) for (int i = 0; i < n; i++) C->o(i, i) = re_(C->o(i, i));
        DX a = opx(A->xo(), tr == PlasmaNoTrans ? PlasmaNoTrans : tt), b = TWO ? opx(B->xo(), tr == PlasmaNoTrans ? PlasmaNoTrans : tt) : a;
        DX p = mul(a, opx(b, tt));
        DM<LD> mag = mul(absm(a), opx(absm(b), PlasmaTrans));
        int uu = ul;
        auto in = [uu](int i, int j) { return in_uplo(uu, i, j); };
        if (!TWO) lincomb(c, *this, "value", *C, in, p, mag, al, be, k);
        else {
            // alpha A B^x + (alpha or conj(alpha)) B A^x
            DX q = mul(b, opx(a, tt));
            DM<LD> mq = mul(absm(b), opx(absm(a), PlasmaTrans));
            X0 a1 = tox(al), a2 = H ? conj_(tox(al)) : tox(al);
            if (tr != PlasmaNoTrans && H) { }   // op(X) = X^H: C = alpha A^H B + conj(alpha) B^H A
            DX s(n, n);
            DM<LD> ms(n, n);
            for (size_t i = 0; i < s.a.size(); i++) { s.a[i] = a1 * p.a[i] + a2 * q.a[i]; ms.a[i] = abs_(a1) * (mag.a[i] + mq.a[i]); }
            lincomb(c, *this, "value", *C, in, s, ms, T0(1), be, 2 * k);
        }
    }
};
typedef SyrkB<false, false> Syrk;
typedef SyrkB<true, false> Herk;
typedef SyrkB<false, true> Syr2k;
typedef SyrkB<true, true> Her2k;
REG_OP(Syrk, "syrk", "blas3", false, "tile")
REG_OP(Syr2k, "syr2k", "blas3", false, "tile")
#if PREC >= 3
REG_OP(Herk, "herk", "blas3", false, "tile")
REG_OP(Her2k, "her2k", "blas3", false, "tile")
#endif

struct Trmm : Op {
    int sd, ul, ta, dg_, m, n, lda, ldb;
    T0 al;
    Mat<T0> *A, *B;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "side", sd, SIDES); a_enum(c, 2, "uplo", ul, ULS); a_enum(c, 3, "transa", ta, TR3); a_enum(c, 4, "diag", dg_, DIAGS);
        a_dim(c, 5, "m", m); a_dim(c, 6, "n", n);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al);
        int k = sd == PlasmaLeft ? m : n;
        lda = draw_ld(c, k); ldb = draw_ld(c, m);
        a_ld(9, "lda", lda, k); a_ld(11, "ldb", ldb, m);
        A = &mat<T0>("A", k, k, lda); B = &mat<T0>("B", m, n, ldb);
        fill(*this, *A, 1); fill(*this, *B, 2);
        A->access_uplo(ul, dg_, R_); B->access_all(is0(al) ? W_ : R_ | W_);
        if (is0(al)) c.label("alpha = 0, B not set");
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = PL::trmm(sd, ul, ta, dg_, m, n, al, A->p, lda, B->p, ldb); }
    void check(Ctx &c) override
    {
        DX a = opx(tri(A->xo(), ul, dg_), ta), b = is0(al) ? DX(m, n) : B->xo();   // with alpha = 0 B may hold NaN
        if (sd == PlasmaLeft) lincomb(c, *this, "value", *B, all, mul(a, b), mul(absm(a), absm(b)), al, T0(0), m);
        else lincomb(c, *this, "value", *B, all, mul(b, a), mul(absm(b), absm(a)), al, T0(0), n);
    }
};
REG_OP(Trmm, "trmm", "blas3", false, "tile")

struct Geadd : Op {
    int ta, m, n, lda, ldb;
    T0 al, be;
    Mat<T0> *A, *B;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "transa", ta, TR3);
        a_dim(c, 2, "m", m); a_dim(c, 3, "n", n);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al); be = draw_scalar<T0>(c, *this, "beta", *this); scalar("beta", be);
        int am = ta == PlasmaNoTrans ? m : n, an = ta == PlasmaNoTrans ? n : m;
        lda = draw_ld(c, am); ldb = draw_ld(c, m);
        a_ld(6, "lda", lda, am); a_ld(9, "ldb", ldb, m);
        A = &mat<T0>("A", am, an, lda); B = &mat<T0>("B", m, n, ldb);
        fill(*this, *A, 1); fill(*this, *B, 2);
        A->access_all(R_); B->access_all(R_ | W_);
        empty = m == 0 || n == 0 || (is0(al) && is1(be));
        finish_gen();
    }
    void call() override { info = PL::geadd(ta, m, n, al, A->p, lda, be, B->p, ldb); }
    void check(Ctx &c) override
    {
        DX a = opx(A->xo(), ta);
        lincomb(c, *this, "value", *B, all, a, absm(a), al, be, 1);
    }
};
REG_OP(Geadd, "geadd", "blas3", false, "tile")

struct Tradd : Op {
    int ul, ta, m, n, lda, ldb;
    T0 al, be;
    Mat<T0> *A, *B;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "uplo", ul, ULS); a_enum(c, 2, "transa", ta, TR3);
        a_dim(c, 3, "m", m); a_dim(c, 4, "n", n);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al); be = draw_scalar<T0>(c, *this, "beta", *this); scalar("beta", be);
        int am = ta == PlasmaNoTrans ? m : n, an = ta == PlasmaNoTrans ? n : m;
        lda = draw_ld(c, am); ldb = draw_ld(c, m);
        a_ld(7, "lda", lda, am); a_ld(10, "ldb", ldb, m);
        A = &mat<T0>("A", am, an, lda); B = &mat<T0>("B", m, n, ldb);
        fill(*this, *A, 1); fill(*this, *B, 2);
        int flip = ul == PlasmaLower ? PlasmaUpper : PlasmaLower;
        au = ta == PlasmaNoTrans ? ul : flip;      // uplo describes op(A) and B
        A->access_uplo(au, PlasmaNonUnit, R_); B->access_uplo(ul, PlasmaNonUnit, R_ | W_);
        empty = m == 0 || n == 0 || (is0(al) && is1(be));
        finish_gen();
    }
    int au;
    void call() override { info = PL::tradd(ul, ta, m, n, al, A->p, lda, be, B->p, ldb); }
    void check(Ctx &c) override
    {
        DX a = opx(tri(A->xo(), au, PlasmaNonUnit), ta);
        int bu = ul;
        lincomb(c, *this, "value", *B, [bu](int i, int j) { return in_uplo(bu, i, j); }, a, absm(a), al, be, 1);
    }
};
REG_OP(Tradd, "tradd", "blas3", false, "tile")
}

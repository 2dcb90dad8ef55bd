// Triangular, LU and Cholesky operations on full storage.
#include "gen.h"
namespace {   // one copy per precision

// ---------------------------------------------------------------- triangular
struct Trsm : Op {
    int sd, ul, ta, dg_, m, n, lda, ldb;
    T0 al;
    Mat<T0> *A, *B;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "side", sd, SIDES); a_enum(c, 2, "uplo", ul, ULS); a_enum(c, 3, "transa", ta, TR3); a_enum(c, 4, "diag", dg_, DIAGS);
        a_dim(c, 5, "m", m); a_dim(c, 6, "n", n);
        draw_data(c);
        al = draw_scalar<T0>(c, *this, "alpha", *this); scalar("alpha", al);
        int k = sd == PlasmaLeft ? m : n;
        lda = draw_ld(c, k); ldb = draw_ld(c, m);
        a_ld(9, "lda", lda, k); a_ld(11, "ldb", ldb, m);
        A = &mat<T0>("A", k, k, lda); B = &mat<T0>("B", m, n, ldb);
        store(*A, wtri(dg, 1, k, ul, dg_ == PlasmaUnit, false)); fill(*this, *B, 2);
        A->access_uplo(ul, dg_, R_); B->access_all(is0(al) ? W_ : R_ | W_);
        if (is0(al)) c.label("alpha = 0, B not set");
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = PL::trsm(sd, ul, ta, dg_, m, n, al, A->p, lda, B->p, ldb); }
    void check(Ctx &c) override
    {
        DX a = opx(tri(A->xo(), ul, dg_), ta), b = is0(al) ? DX(m, n) : scale(B->xo(), tox(al)), x = B->x();
        bool L = sd == PlasmaLeft;
        DX r = add(L ? mul(a, x) : mul(x, a), b, X0(-1));
        DM<LD> mag = add(L ? mul(absm(a), absm(x)) : mul(absm(x), absm(a)), absm(b));
        cwise(c, *this, "residual", r, mag, (LD)8 * ((L ? m : n) + 8));
    }
};
REG_OP(Trsm, "trsm", "tri", false, "tile")

struct Trtri : Op {
    int ul, dg_, n, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS); a_enum(c, 2, "diag", dg_, DIAGS);
        a_dim(c, 3, "n", n);
        draw_data(c);
        lda = draw_ld(c, n);
        a_ld(5, "lda", lda, n);
        A = &mat<T0>("A", n, n, lda);
        DX t = wtri(dg, 1, n, ul, dg_ == PlasmaUnit, false);
        if ((mode & M_SINGULAR) && n) {
            dg_ = PlasmaNonUnit;
            int k = c.s.u(n), cnt = 1 + c.s.u(2);
            show("zero", k);
            for (int i = k; i < n && cnt; i += 1 + (int)(hash2(dg.seed, i) % n), cnt--) { t(i, i) = 0; alt_info.insert(i + 1); }     // any zero may be named
            expect_info = k + 1;
        }
        store(*A, t);
        A->access_uplo(ul, dg_, R_ | W_);
        empty = n == 0;
        finish_gen();
    }
    void call() override { info = PL::trtri(ul, dg_, n, A->p, lda); }
    void check(Ctx &c) override
    {
        if (info) return;
        DX t = tri(A->xo(), ul, dg_), x = tri(A->x(), ul, dg_), xr;
        if (!solvex(t, eye<X0>(n), xr)) return;
        xr = tri(xr, ul, PlasmaNonUnit);
        DM<LD> mag = mul(absm(xr), mul(absm(t), absm(xr)));
        cwise(c, *this, "inverse", add(x, xr, X0(-1)), mag, (LD)16 * (n + 8));
    }
};
REG_OP(Trtri, "trtri", "tri", false, "tile sing")

struct Lauum : Op {
    int ul, n, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n);
        draw_data(c);
        lda = draw_ld(c, n);
        a_ld(4, "lda", lda, n);
        A = &mat<T0>("A", n, n, lda);
        fill(*this, *A, 1);
        for (int i = 0; i < n; i++) (*A)(i, i) = re_((*A)(i, i));
        A->access_uplo(ul, PlasmaNonUnit, R_ | W_);
        empty = n == 0;
        finish_gen();
    }
    void call() override { info = PL::lauum(ul, n, A->p, lda); }
    void check(Ctx &c) override
    {
        DX t = tri(A->xo(), ul, PlasmaNonUnit), h = opx(t, PlasmaConjTrans);
        DX p = ul == PlasmaUpper ? mul(t, h) : mul(h, t);
        DM<LD> at = absm(t), ah = opx(at, PlasmaTrans), mag = ul == PlasmaUpper ? mul(at, ah) : mul(ah, at);
        int u = ul;
        cmp_region(c, *this, "value", *A, [u](int i, int j) { return in_uplo(u, i, j); }, p, mag, (LD)6 * (n + 6));
    }
};
REG_OP(Lauum, "lauum", "tri", false, "tile")

struct GetriAux : Op {
    int n, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_dim(c, 1, "n", n);
        draw_data(c);
        lda = draw_ld(c, n);
        a_ld(3, "lda", lda, n);
        A = &mat<T0>("A", n, n, lda);
        DX L = wtri(dg, 1, n, PlasmaLower, true, false), U = wtri(dg, 2, n, PlasmaUpper, false, false);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) (*A)(i, j) = fromx(i > j ? L(i, j) : U(i, j));
        A->access_all(R_ | W_);
        empty = n == 0;
        finish_gen();
    }
    void call() override { info = PL::getri_aux(n, A->p, lda); }
    void check(Ctx &c) override
    {
        DX L = tri(A->xo(), PlasmaLower, PlasmaUnit), U = tri(A->xo(), PlasmaUpper, PlasmaNonUnit), x = A->x();
        cwise(c, *this, "residual", add(mul(x, L), U, X0(-1)), add(mul(absm(x), absm(L)), absm(U)), (LD)8 * (n + 8));
    }
};
REG_OP(GetriAux, "getri_aux", "tri", false, "")

// ---------------------------------------------------------------- LU
static void check_lu(Ctx &c, Op &op, const DX &A0, const DX &LU, const int *ipiv, int kmax, bool tight)
{
    int m = A0.m, n = A0.n, k = std::min(m, n);
    for (int i = 0; i < k; i++)
        if (ipiv[i] < i + 1 || ipiv[i] > m) op.bad(c, "pivot", "ipiv[" + std::to_string(i) + "] = " + std::to_string(ipiv[i]) + " with m = " + std::to_string(m));
    (void)kmax;
    DX L = sub(LU, 0, 0, m, k), U = sub(LU, 0, 0, k, n);
    L = tri(L, PlasmaLower, PlasmaUnit); U = tri(U, PlasmaUpper, PlasmaNonUnit);
    for (int j = 0; j < k; j++) {
        LD p = abs1_(U(j, j));
        for (int i = j + 1; i < m; i++) {
            LD v = abs1_(L(i, j) * U(j, j));
            if (!(v <= p * (1 + 64 * ulp<T0>()) + 8 * (LD)std::numeric_limits<R0>::min())) { char b[120]; snprintf(b, sizeof b, "row %d column %d: candidate %.5Lg exceeds the pivot %.5Lg", i, j, v, p); op.bad(c, "pivotsize", b); }
        }
    }
    DX pa = rowperm(A0, ipiv, k);
    cwise(c, op, "factor", add(mul(L, U), pa, X0(-1)), add(mul(absm(L), absm(U)), absm(pa)), (LD)8 * (k + 8));
    (void)tight;
}
// a matrix whose first exactly zero pivot appears in a known column
static int make_singular(Ctx &c, Op &op, DX &A)
{
    int m = A.m, n = A.n, k = std::min(m, n);
    int how = c.s.u(2), j;
    if (how == 1 && m <= n) {           // trailing zero rows
        int r = 1 + c.s.u(std::min(m, 3));
        for (int i = m - r; i < m; i++) for (int q = 0; q < n; q++) A(i, q) = 0;
        if (c.s.u(2)) {                 // hide them among the other rows
            for (int i = m - r; i < m; i++) { int p = hash2(op.dg.seed, i) % m; for (int q = 0; q < n; q++) std::swap(A(i, q), A(p, q)); }
        }
        op.show("zerorows", r);
        return m - r + 1;
    }
    j = c.s.u(k);
    int cnt = 1 + c.s.u(2);
    for (int q = j; q < n && cnt; q += 1 + (int)(hash2(op.dg.seed, q) % n), cnt--) for (int i = 0; i < m; i++) A(i, q) = 0;
    op.show("zerocol", j);
    return j + 1;
}

struct Getrf : Op {
    int m, n, lda;
    Mat<T0> *A;
    IVec *ip;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_dim(c, 1, "m", m); a_dim(c, 2, "n", n);
        draw_data(c);
        int sh = c.s.u(4);
        show("shape", sh);
        lda = draw_ld(c, m);
        a_ld(4, "lda", lda, m);
        A = &mat<T0>("A", m, n, lda);
        DX g = wgen(dg, 1, m, n, sh);
        harden(c, *this, g, true, 90, 900);
        if ((mode & M_SINGULAR) && std::min(m, n)) expect_info = make_singular(c, *this, g);
        else if (c.s.u(12) == 11) {
            // some columns far below the smallest normal number: the reciprocal of their pivots overflows
            int e = -std::numeric_limits<R0>::min_exponent + 6 + (int)c.s.u(std::numeric_limits<R0>::digits - 14), every = 1 + (int)c.s.u(3);
            for (int j = 0; j < n; j += every) for (int i = 0; i < m; i++) g(i, j) *= X0(std::ldexp((LD)1, -e));
            show("tinycolumns", every);
        }
        store(*A, g);
        A->access_all(R_ | W_);
        ip = &ivec("ipiv", std::min(m, n), true);
        empty = m == 0 || n == 0;
        finish_gen();
    }
    bool accidental() override { return nearly_singular(A->xo(), info); }
    void call() override { info = PL::getrf(m, n, A->p, lda, ip->p); }
    void check(Ctx &c) override { if (!empty) check_lu(c, *this, A->xo(), A->x(), ip->p, 0, true); }
};
REG_OP(Getrf, "getrf", "lu", true, "tile sing")

// factors given: random unit lower, upper and pivots
struct LUData {
    DX LU;
    std::vector<int> ip;
    void make(Ctx &, const DG &g, int n)
    {
        DX L = wtri(g, 11, n, PlasmaLower, true, false), U = wtri(g, 12, n, PlasmaUpper, false, false);
        LU = DX(n, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) LU(i, j) = i > j ? L(i, j) : U(i, j);
        ip.resize(n);
        for (int i = 0; i < n; i++) ip[i] = (hash2(g.seed, 4000 + i) & 3) ? i + 1 + (int)(hash2(g.seed, 3000 + i) % (n - i)) : i + 1;
    }
};
static void check_solve(Ctx &c, Op &op, const char *what, const DX &A, const DM<LD> &Amag, int tr, const DX &B, const DX &X)
{
    DX a = opx(A, tr);
    DM<LD> am = opx(Amag, tr == PlasmaNoTrans ? PlasmaNoTrans : PlasmaTrans);
    cwise(c, op, what, add(mul(a, X), B, X0(-1)), add(mul(am, absm(X)), absm(B)), (LD)12 * (A.n + 8));
}

struct Getrs : Op {
    int tr, n, nrhs, lda, ldb;
    Mat<T0> *A, *B;
    IVec *ip;
    LUData d;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "trans", tr, TR3);
        a_dim(c, 2, "n", n); a_dim(c, 3, "nrhs", nrhs);
        draw_data(c);
        lda = draw_ld(c, n); ldb = draw_ld(c, n);
        a_ld(5, "lda", lda, n); a_ld(8, "ldb", ldb, n);
        d.make(c, dg, n);
        A = &mat<T0>("A", n, n, lda); store(*A, d.LU); A->access_all(R_);
        ip = &ivec("ipiv", n, false); std::copy(d.ip.begin(), d.ip.end(), ip->p);
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        empty = n == 0 || nrhs == 0;
        finish_gen();
    }
    void call() override { info = PL::getrs(tr, n, nrhs, A->p, lda, ip->p, B->p, ldb); }
    void check(Ctx &c) override
    {
        DX L = tri(A->xo(), PlasmaLower, PlasmaUnit), U = tri(A->xo(), PlasmaUpper, PlasmaNonUnit);
        DX a = rowperm_inv(mul(L, U), d.ip.data(), n);
        DM<LD> am = rowperm_inv_abs(mul(absm(L), absm(U)), d.ip.data(), n);
        check_solve(c, *this, "residual", a, am, tr, B->xo(), B->x());
    }
};
REG_OP(Getrs, "getrs", "lu", false, "tile")

struct Gesv : Op {
    int n, nrhs, lda, ldb;
    Mat<T0> *A, *B;
    IVec *ip;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_dim(c, 1, "n", n); a_dim(c, 2, "nrhs", nrhs);
        draw_data(c);
        int sh = c.s.u(4);
        show("shape", sh);
        lda = draw_ld(c, n); ldb = draw_ld(c, n);
        a_ld(4, "lda", lda, n); a_ld(7, "ldb", ldb, n);
        A = &mat<T0>("A", n, n, lda);
        DX g = wgen(dg, 1, n, n, sh);
        harden(c, *this, g, true, 60, 500);
        if ((mode & M_SINGULAR) && n && nrhs) expect_info = make_singular(c, *this, g);
        store(*A, g);
        A->access_all(R_ | W_);
        ip = &ivec("ipiv", n, true);
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        empty = n == 0 || nrhs == 0;
        finish_gen();
    }
    bool accidental() override { return nearly_singular(A->xo(), info); }
    void call() override { info = PL::gesv(n, nrhs, A->p, lda, ip->p, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        check_lu(c, *this, A->xo(), A->x(), ip->p, 0, true);
        DX L = tri(A->x(), PlasmaLower, PlasmaUnit), U = tri(A->x(), PlasmaUpper, PlasmaNonUnit);
        DM<LD> am = rowperm_inv_abs(mul(absm(L), absm(U)), ip->p, n);
        overflow_excuse(A->xo(), B->xo(), B->x());
        check_solve(c, *this, "residual", A->xo(), am, PlasmaNoTrans, B->xo(), B->x());
    }
};
REG_OP(Gesv, "gesv", "lu", true, "tile sing")

static void check_inv(Ctx &c, Op &op, const DX &A, LD amag, const DX &X)
{
    DX xr;
    int n = A.n;
    if (!solvex(A, eye<X0>(n), xr)) return;
    LD xn = one(xr);
    DX d = add(X, xr, X0(-1));
    LD e = one(d);
    need(c, op, "inverse", e, 24 * (n + 8) * ulp<T0>() * xn * xn * amag);
}
struct Getri : Op {
    int n, lda;
    Mat<T0> *A;
    IVec *ip;
    LUData d;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_dim(c, 1, "n", n);
        draw_data(c);
        lda = draw_ld(c, n);
        a_ld(3, "lda", lda, n);
        d.make(c, dg, n);
        if ((mode & M_SINGULAR) && n) { int k = c.s.u(n); show("zero", k); d.LU(k, k) = 0; expect_info = k + 1; }
        A = &mat<T0>("A", n, n, lda); store(*A, d.LU); A->access_all(R_ | W_);
        ip = &ivec("ipiv", n, false); std::copy(d.ip.begin(), d.ip.end(), ip->p);
        empty = n == 0;
        finish_gen();
    }
    void call() override { info = PL::getri(n, A->p, lda, ip->p); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        DX L = tri(A->xo(), PlasmaLower, PlasmaUnit), U = tri(A->xo(), PlasmaUpper, PlasmaNonUnit);
        check_inv(c, *this, rowperm_inv(mul(L, U), d.ip.data(), n), one(mul(absm(L), absm(U))), A->x());
    }
};
REG_OP(Getri, "getri", "lu", false, "tile sing")

struct Geinv : Op {
    int m, n, lda;
    Mat<T0> *A;
    IVec *ip;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_dim(c, 1, "m", m);
        n = m;
        args.push_back({2, "n", &n, {-1, -7}});
        draw_data(c);
        int sh = c.s.u(2) ? 1 : 3;
        show("shape", sh);
        lda = draw_ld(c, n);
        a_ld(4, "lda", lda, n);
        A = &mat<T0>("A", n, n, lda);
        DX g = wgen(dg, 1, n, n, sh);
        harden(c, *this, g, false, 40, 400);
        if ((mode & M_SINGULAR) && n) expect_info = make_singular(c, *this, g);
        store(*A, g);
        A->access_all(R_ | W_);
        ip = &ivec("ipiv", n, true);
        empty = n == 0;
        finish_gen();
    }
    bool accidental() override { return nearly_singular(A->xo(), info); }
    void call() override { info = PL::geinv(m, n, A->p, lda, ip->p); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        check_inv(c, *this, A->xo(), 4 * one(A->xo()), A->x());
        for (int i = 0; i < n; i++) if (ip->p[i] < i + 1 || ip->p[i] > n) bad(c, "pivot", "ipiv[" + std::to_string(i) + "] = " + std::to_string(ip->p[i]));
    }
};
REG_OP(Geinv, "geinv", "lu", true, "tile sing")

// ---------------------------------------------------------------- Cholesky
static int make_indef(Ctx &c, Op &op, DX &A)      // first non-positive leading minor
{
    int n = A.n, k = c.s.u(n);
    A(k, k) = X0(c.s.u(2) ? 0 : -1) - X0(c.s.u(2) ? std::fabs(re_(A(k, k))) : 0);
    if (re_(A(k, k)) == 0 && k == 0) A(k, k) = 0;
    op.show("indef", k);
    return k + 1;
}
static void check_chol(Ctx &c, Op &op, int ul, const DX &A, const DX &F)
{
    int n = A.n;
    DX t = tri(F, ul, PlasmaNonUnit), h = opx(t, PlasmaConjTrans);
    for (int i = 0; i < n; i++)
        if (!(re_(t(i, i)) > 0) || im_(t(i, i)) != 0) op.bad(c, "diagonal", "factor(" + std::to_string(i) + "," + std::to_string(i) + ") is not a positive real number");
    DX p = ul == PlasmaLower ? mul(t, h) : mul(h, t);
    DM<LD> at = absm(t), ah = opx(at, PlasmaTrans), mag = add(ul == PlasmaLower ? mul(at, ah) : mul(ah, at), absm(A));
    DX r = add(p, A, X0(-1));
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!in_uplo(ul, i, j)) r(i, j) = 0;
    cwise(c, op, "factor", r, mag, (LD)8 * (n + 8));
}
struct Potrf : Op {
    int ul, n, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n);
        draw_data(c);
        lda = draw_ld(c, n);
        a_ld(4, "lda", lda, n);
        A = &mat<T0>("A", n, n, lda);
        DX g = wspd(dg, 1, n);
        harden(c, *this, g, false, 60, 500);
        if ((mode & M_SINGULAR) && n) expect_info = make_indef(c, *this, g);
        store(*A, g); impure(c, *this, *A);
        A->access_uplo(ul, PlasmaNonUnit, R_ | W_);
        empty = n == 0;
        finish_gen();
    }
    void call() override { info = PL::potrf(ul, n, A->p, lda); }
    void check(Ctx &c) override { if (!info) check_chol(c, *this, ul, symfull(A->xo(), ul, true), A->x()); }
};
REG_OP(Potrf, "potrf", "chol", false, "tile sing")

struct Potrs : Op {
    int ul, n, nrhs, lda, ldb;
    Mat<T0> *A, *B;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n); a_dim(c, 3, "nrhs", nrhs);
        draw_data(c);
        lda = draw_ld(c, n); ldb = draw_ld(c, n);
        a_ld(5, "lda", lda, n); a_ld(7, "ldb", ldb, n);
        A = &mat<T0>("A", n, n, lda); store(*A, wtri(dg, 1, n, ul, false, true)); A->access_uplo(ul, PlasmaNonUnit, R_);
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        empty = n == 0 || nrhs == 0;
        finish_gen();
    }
    void call() override { info = PL::potrs(ul, n, nrhs, A->p, lda, B->p, ldb); }
    void check(Ctx &c) override
    {
        DX t = tri(A->xo(), ul, PlasmaNonUnit), h = opx(t, PlasmaConjTrans);
        DM<LD> at = absm(t), ah = opx(at, PlasmaTrans);
        bool L = ul == PlasmaLower;
        check_solve(c, *this, "residual", L ? mul(t, h) : mul(h, t), L ? mul(at, ah) : mul(ah, at), PlasmaNoTrans, B->xo(), B->x());
    }
};
REG_OP(Potrs, "potrs", "chol", false, "tile")

struct Posv : Op {
    int ul, n, nrhs, lda, ldb;
    Mat<T0> *A, *B;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n); a_dim(c, 3, "nrhs", nrhs);
        draw_data(c);
        lda = draw_ld(c, n); ldb = draw_ld(c, n);
        a_ld(5, "lda", lda, n); a_ld(7, "ldb", ldb, n);
        DX g = wspd(dg, 1, n);
        harden(c, *this, g, false, 60, 500);
        if ((mode & M_SINGULAR) && n && nrhs) expect_info = make_indef(c, *this, g);
        A = &mat<T0>("A", n, n, lda); store(*A, g); impure(c, *this, *A); A->access_uplo(ul, PlasmaNonUnit, R_ | W_);
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        empty = n == 0 || nrhs == 0;
        finish_gen();
    }
    void call() override { info = PL::posv(ul, n, nrhs, A->p, lda, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (info || empty) return;
        DX a = symfull(A->xo(), ul, true);
        check_chol(c, *this, ul, a, A->x());
        DX t = tri(A->x(), ul, PlasmaNonUnit);
        DM<LD> at = absm(t), ah = opx(at, PlasmaTrans);
        check_solve(c, *this, "residual", a, ul == PlasmaLower ? mul(at, ah) : mul(ah, at), PlasmaNoTrans, B->xo(), B->x());
    }
};
REG_OP(Posv, "posv", "chol", false, "tile sing")

template<bool FACTORED> struct PotriB : Op {
    int ul, n, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n);
        draw_data(c);
        lda = draw_ld(c, n);
        a_ld(4, "lda", lda, n);
        A = &mat<T0>("A", n, n, lda);
        DX g = FACTORED ? wtri(dg, 1, n, ul, false, true) : wspd(dg, 1, n);
        harden(c, *this, g, false, 40, 400);
        if ((mode & M_SINGULAR) && n) {
            if (FACTORED) { int k = c.s.u(n); show("zero", k); g(k, k) = 0; expect_info = k + 1; }
            else expect_info = make_indef(c, *this, g);
        }
        store(*A, g); if (!FACTORED) impure(c, *this, *A);
        A->access_uplo(ul, PlasmaNonUnit, R_ | W_);
        empty = n == 0;
        finish_gen();
    }
    void call() override { info = FACTORED ? PL::potri(ul, n, A->p, lda) : PL::poinv(ul, n, A->p, lda); }
    void check(Ctx &c) override
    {
        if (info || empty) return;
        DX a;
        if (FACTORED) { DX t = tri(A->xo(), ul, PlasmaNonUnit), h = opx(t, PlasmaConjTrans); a = ul == PlasmaLower ? mul(t, h) : mul(h, t); }
        else a = symfull(A->xo(), ul, true);
        check_inv(c, *this, a, 2 * one(a), symfull(A->x(), ul, true));
        for (int i = 0; i < n; i++) if (abs_(im_(tox((*A)(i, i)))) > 64 * ulp<T0>() * abs_(tox((*A)(i, i)))) bad(c, "diagonal", "diagonal of the inverse is not real");
    }
};
typedef PotriB<true> Potri;
typedef PotriB<false> Poinv;
REG_OP(Potri, "potri", "chol", false, "tile sing")
REG_OP(Poinv, "poinv", "chol", false, "tile sing")
}

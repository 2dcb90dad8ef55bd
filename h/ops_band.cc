// Band LU and band Cholesky operations.
#include "gen.h"
namespace {   // one copy per precision

static void draw_bw(Ctx &c, const Cfg &g, int lim, int &k)
{
    int mx = std::max(lim, 0);
    switch (c.s.u(4)) {
    case 0: k = std::min(mx, (int)c.s.u(4)); break;
    case 1: k = std::min(mx, (int)c.s.u(g.nb + 3)); break;
    case 2: k = std::min(mx, g.nb * (int)(1 + c.s.u(2))); break;
    default: k = c.s.u(mx + 1); break;
    }
}
// band matrix data in full storage
static DX bgen(const DG &g, int tag, int m, int n, int kl, int ku, int shape)
{
    // the condition of a long random band matrix grows exponentially, up to overflow in single precision
    bool tame = shape != 1 && n > 12 * (kl + 1);
    DX A(m, n);
    for (int j = 0; j < n; j++)
        for (int i = std::max(0, j - ku); i <= std::min(m - 1, j + kl); i++) A(i, j) = umod(g, tag, i, j);
    for (int j = 0; j < std::min(m, n); j++) {
        int r = j;
        if (shape == 1) r = std::min(m - 1, j + (int)(hash2(g.seed, 55 + j) % (kl + 1)));
        if (shape == 1 || shape == 3 || tame) A(r, j) += X0((LD)(3 + kl + ku));
    }
    if (shape == 2) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) *= X0(std::ldexp((LD)1, (int)(hash2(g.seed + 5, i) % 9) - 4));
    for (auto &x : A.a) x = tox(fromx(x));
    return A;
}
// panel-wise factorization: rows are exchanged inside the panel columns and to the right, not to the left of the panel
static void ref_gbtrf(DX &A, int nb, std::vector<int> &ip)
{
    int m = A.m, n = A.n, k = std::min(m, n);
    ip.assign(k, 0);
    for (int p0 = 0; p0 < k; p0 += nb) {
        int p1 = std::min(k, p0 + nb);
        for (int j = p0; j < p1; j++) {
            int b = j;
            for (int i = j + 1; i < m; i++) if (abs1_(A(i, j)) > abs1_(A(b, j))) b = i;
            ip[j] = b + 1;
            if (b != j) for (int q = p0; q < n; q++) std::swap(A(b, q), A(j, q));
            if (abs_(A(j, j)) == 0) continue;
            for (int i = j + 1; i < m; i++) {
                if (A(i, j) == X0(0)) continue;
                X0 f = A(i, j) / A(j, j);
                A(i, j) = f;
                for (int q = j + 1; q < n; q++) A(i, q) -= f * A(j, q);
            }
        }
    }
    for (auto &x : A.a) x = tox(fromx(x));
}
// the product the factors stand for
template<class X> static DM<X> band_product(const DM<X> &F, const int *ip, int nb)
{
    int m = F.m, n = F.n, k = std::min(m, n);
    DM<X> S = tri(F, PlasmaUpper, PlasmaNonUnit);
    int np = (k + nb - 1) / nb;
    for (int p = np - 1; p >= 0; p--) {
        int p0 = p * nb, p1 = std::min(k, p0 + nb);
        for (int c = p1 - 1; c >= p0; c--)
            for (int q = 0; q < n; q++) {
                X s = S(c, q);
                if (s == X(0)) continue;
                for (int i = c + 1; i < m; i++) S(i, q) += F(i, c) * s;
            }
        for (int i = p1 - 1; i >= p0; i--) { int r = ip[i] - 1; if (r != i) for (int q = 0; q < n; q++) std::swap(S(i, q), S(r, q)); }
    }
    return S;
}
template<class X> static DM<X> band_product_c(const DM<X> &F, const int *ip, int nb) { return band_product(F, ip, nb); }

struct BandLU : Op {
    int m, n, kl, ku, ldab, sh = 0;
    Mat<T0> *AB;
    IVec *ip;
    int rows() const { int nb = std::max(1, std::min(cfg.nb, 1 << 20)); return ((ku + kl + nb - 1) / nb + (kl + nb - 1) / nb + 1) * nb; }
    void draw_band(Ctx &c, int pkl, int pku)
    {
        draw_bw(c, cfg, m - 1, kl); draw_bw(c, cfg, n - 1, ku);
        args.push_back({pkl, "kl", &kl, {-1}}); args.push_back({pku, "ku", &ku, {-1}});
        show("kl", kl); show("ku", ku);
    }
    void make_ab(Ctx &c, int pos, int acc)
    {
        ldab = rows() + (int)c.s.u(4);
        args.push_back({pos, "ldab", &ldab, {kl + ku, 0, -1}});
        show("ldab", ldab);
        AB = &mat<T0>("AB", ldab, n, ldab);
        for (int j = 0; j < n; j++) for (int i = 0; i < ldab; i++) { (*AB)(i, j) = T0(0); int r = i - kl - ku + j; if (r >= 0 && r < m && i < rows()) AB->at(i, j) |= acc; }
    }
    void put(const DX &A) { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int r = kl + ku + i - j; if (r >= 0 && r < rows()) (*AB)(r, j) = fromx(A(i, j)); } }
    DX get(bool orig = false) { DX A(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int r = kl + ku + i - j; if (r >= 0 && r < rows()) A(i, j) = tox(orig ? AB->o(r, j) : (*AB)(r, j)); } return A; }
    bool accidental() override { return nearly_singular(get(true), info); }
    void singular(Ctx &c, DX &A)
    {
        int k = std::min(m, n), j = c.s.u(k);
        for (int i = 0; i < m; i++) A(i, j) = 0;
        show("zerocol", j);
        expect_info = j + 1;
    }
    void check_factor(Ctx &c, const DX &A0, DX &F, DM<LD> &mag)
    {
        int k = std::min(m, n), nb = cfg.nb;
        for (int i = 0; i < k; i++)
            if (ip->p[i] < i + 1 || ip->p[i] > std::min(m, i + 1 + kl)) bad(c, "pivot", "ipiv[" + std::to_string(i) + "] = " + std::to_string(ip->p[i]) + " with m = " + std::to_string(m) + ", kl = " + std::to_string(kl));
        F = get();
        for (int j = 0; j < k; j++)
            for (int i = j + 1; i < m; i++) {
                LD v = abs1_(F(i, j) * F(j, j));
                if (!(v <= abs1_(F(j, j)) * (1 + 64 * ulp<T0>()) + 8 * (LD)std::numeric_limits<R0>::min())) { char b[120]; snprintf(b, sizeof b, "row %d column %d: candidate %.5Lg exceeds the pivot %.5Lg", i, j, v, abs1_(F(j, j))); bad(c, "pivotsize", b); }
            }
        mag = add(band_product(absm(F), ip->p, nb), absm(A0));
        cwise(c, *this, "factor", add(band_product(F, ip->p, nb), A0, X0(-1)), mag, (LD)8 * (std::min(k, kl + ku + nb) + 8));
    }
};

struct Gbtrf : BandLU {
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_dim(c, 1, "m", m); a_dim(c, 2, "n", n);
        draw_band(c, 3, 4);
        draw_data(c);
        sh = c.s.u(4);
        show("shape", sh);
        make_ab(c, 6, R_ | W_);
        empty = m == 0 || n == 0;
        DX A = bgen(dg, 1, m, n, kl, ku, sh);
        harden(c, *this, A, false, 90, 900);
        if ((mode & M_SINGULAR) && !empty) singular(c, A);
        put(A);
        ip = &ivec("ipiv", std::min(m, n), true);
        finish_gen();
    }
    void call() override { info = PL::gbtrf(m, n, kl, ku, AB->p, ldab, ip->p); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        DX A0 = get(true), F;
        DM<LD> mag;
        check_factor(c, A0, F, mag);
    }
};
REG_OP(Gbtrf, "gbtrf", "band", true, "sing")

struct Gbsv : BandLU {
    int nrhs, ldb;
    Mat<T0> *B;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_dim(c, 1, "n", n); m = n;
        draw_band(c, 2, 3);
        a_dim(c, 4, "nrhs", nrhs);
        draw_data(c);
        sh = c.s.u(4);
        show("shape", sh);
        make_ab(c, 6, R_ | W_);
        ldb = draw_ld(c, n);
        a_ld(9, "ldb", ldb, n);
        empty = n == 0 || nrhs == 0;
        DX A = bgen(dg, 1, n, n, kl, ku, sh);
        harden(c, *this, A, false, 60, 500);
        if ((mode & M_SINGULAR) && !empty) singular(c, A);
        put(A);
        ip = &ivec("ipiv", n, true);
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        finish_gen();
    }
    void call() override { info = PL::gbsv(n, kl, ku, nrhs, AB->p, ldab, ip->p, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        DX A0 = get(true), F;
        DM<LD> mag;
        check_factor(c, A0, F, mag);
        DX x = B->x(), b = B->xo();
        overflow_excuse(A0, b, x);
        cwise(c, *this, "residual", add(mul(A0, x), b, X0(-1)), add(mul(mag, absm(x)), absm(b)), (LD)12 * (n + 8));
    }
};
REG_OP(Gbsv, "gbsv", "band", true, "sing")

struct Gbtrs : BandLU {
    int tr, nrhs, ldb;
    Mat<T0> *B;
    DX F;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "trans", tr, TR3);
        a_dim(c, 2, "n", n); m = n;
        draw_band(c, 3, 4);
        a_dim(c, 5, "nrhs", nrhs);
        draw_data(c);
        sh = c.s.u(4);
        show("shape", sh);
        make_ab(c, 7, R_);
        ldb = draw_ld(c, n);
        a_ld(10, "ldb", ldb, n);
        empty = n == 0 || nrhs == 0;
        F = bgen(dg, 1, n, n, kl, ku, sh == 2 ? 3 : sh);
        std::vector<int> pv;
        ref_gbtrf(F, cfg.nb, pv);
        for (int j = 0; j < n; j++) if (abs_(F(j, j)) < 1e-3L) { F(j, j) = X0(1); }
        put(F);
        ip = &ivec("ipiv", n, false);
        std::copy(pv.begin(), pv.end(), ip->p);
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        finish_gen();
    }
    void call() override { info = PL::gbtrs(tr, n, kl, ku, nrhs, AB->p, ldab, ip->p, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (empty) return;
        DX a = opx(band_product(F, ip->p, cfg.nb), tr);
        DM<LD> am = opx(band_product(absm(F), ip->p, cfg.nb), tr == PlasmaNoTrans ? PlasmaNoTrans : PlasmaTrans);
        DX x = B->x(), b = B->xo();
        overflow_excuse(a, b, x);
        cwise(c, *this, "residual", add(mul(a, x), b, X0(-1)), add(mul(am, absm(x)), absm(b)), (LD)12 * (n + 8));
    }
};
REG_OP(Gbtrs, "gbtrs", "band", false, "")

// ---------------------------------------------------------------- band Cholesky
struct BandChol : Op {
    int ul, n, kd, ldab;
    Mat<T0> *AB;
    int row(int i, int j) const { return ul == PlasmaUpper ? kd + i - j : i - j; }
    bool in(int i, int j) const { return ul == PlasmaUpper ? (i <= j && j - i <= kd) : (i >= j && i - j <= kd); }
    void make_ab(Ctx &c, int pos, int acc)
    {
        ldab = draw_ld(c, kd + 1);
        args.push_back({pos, "ldab", &ldab, {kd, 0, -1}});
        show("ldab", ldab);
        AB = &mat<T0>("AB", kd + 1, n, ldab);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in(i, j)) AB->at(row(i, j), j) |= acc;
    }
    void put(const DX &A) { for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in(i, j)) (*AB)(row(i, j), j) = fromx(A(i, j)); }
    DX get(bool orig = false) { DX A(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in(i, j)) A(i, j) = tox(orig ? AB->o(row(i, j), j) : (*AB)(row(i, j), j)); return A; }
    static DM<X0> llh(const DX &T, int ul) { return ul == PlasmaLower ? mul(T, opx(T, PlasmaConjTrans)) : mul(opx(T, PlasmaConjTrans), T); }
    static DM<LD> allh(const DX &T, int ul) { DM<LD> a = absm(T); return ul == PlasmaLower ? mul(a, opx(a, PlasmaTrans)) : mul(opx(a, PlasmaTrans), a); }
    void break_minor(Ctx &c, DX &A)
    {
        int k = c.s.u(n);
        show("minor", k);
        if (c.s.u(2)) A(k, k) = -A(k, k); else A(k, k) = 0;
        expect_info = k + 1;
    }
    DX spd(Ctx &c)
    {
        DX A = wspd(dg, 1, n, kd);
        harden(c, *this, A, false, 60, 500);
        if ((mode & M_SINGULAR) && !empty) break_minor(c, A);
        return A;
    }
    void check_factor(Ctx &c)
    {
        DX A0 = symfull(get(true), ul, is_cplx<T0>), T = get();
        for (int i = 0; i < n; i++) if (!(re_(T(i, i)) > 0) || im_(T(i, i)) != 0) bad(c, "diagonal", "factor diagonal " + std::to_string(i) + " is not real positive");
        DX d = add(llh(T, ul), A0, X0(-1));
        cwise(c, *this, "factor", tri(d, ul, PlasmaNonUnit), add(allh(T, ul), absm(A0)), (LD)6 * (kd + 8));
    }
};
struct Pbtrf : BandChol {
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n);
        draw_bw(c, cfg, n - 1, kd); args.push_back({3, "kd", &kd, {-1}}); show("kd", kd);
        draw_data(c);
        make_ab(c, 5, R_ | W_);
        empty = n == 0;
        put(spd(c)); impure(c, *this, *AB, row(0, 0));
        finish_gen();
    }
    void call() override { info = PL::pbtrf(ul, n, kd, AB->p, ldab); }
    void check(Ctx &c) override { if (!empty && !info) check_factor(c); }
};
REG_OP(Pbtrf, "pbtrf", "band", false, "sing")
struct Pbtrs : BandChol {
    int nrhs, ldb;
    Mat<T0> *B;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n);
        draw_bw(c, cfg, n - 1, kd); args.push_back({3, "kd", &kd, {-1}}); show("kd", kd);
        a_dim(c, 4, "nrhs", nrhs);
        draw_data(c);
        make_ab(c, 6, R_);
        ldb = draw_ld(c, n);
        a_ld(8, "ldb", ldb, n);
        empty = n == 0 || nrhs == 0;
        put(wtri(dg, 1, n, ul, false, true));
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        finish_gen();
    }
    void call() override { info = PL::pbtrs(ul, n, kd, nrhs, AB->p, ldab, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (empty) return;
        DX T = get(true), x = B->x(), b = B->xo();
        cwise(c, *this, "residual", add(mul(llh(T, ul), x), b, X0(-1)), add(mul(allh(T, ul), absm(x)), absm(b)), (LD)12 * (n + 8));
    }
};
REG_OP(Pbtrs, "pbtrs", "band", false, "")
struct Pbsv : BandChol {
    int nrhs, ldb;
    Mat<T0> *B;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "uplo", ul, ULS);
        a_dim(c, 2, "n", n);
        draw_bw(c, cfg, n - 1, kd); args.push_back({3, "kd", &kd, {-1}}); show("kd", kd);
        a_dim(c, 4, "nrhs", nrhs);
        draw_data(c);
        make_ab(c, 6, R_ | W_);
        ldb = draw_ld(c, n);
        a_ld(8, "ldb", ldb, n);
        empty = n == 0 || nrhs == 0;
        put(spd(c)); impure(c, *this, *AB, row(0, 0));
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        finish_gen();
    }
    void call() override { info = PL::pbsv(ul, n, kd, nrhs, AB->p, ldab, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        check_factor(c);
        DX A0 = symfull(get(true), ul, is_cplx<T0>), T = get(), x = B->x(), b = B->xo();
        cwise(c, *this, "residual", add(mul(A0, x), b, X0(-1)), add(mul(add(allh(T, ul), absm(A0)), absm(x)), absm(b)), (LD)12 * (n + 8));
    }
};
REG_OP(Pbsv, "pbsv", "band", false, "sing")

// ---------------------------------------------------------------- symmetric/Hermitian indefinite (Aasen)
static const int LOWERONLY[] = {PlasmaLower};
struct Aasen : Op {
    int ul, n, lda, ldt;
    Mat<T0> *A, *T;
    IVec *ip, *ip2;
    int kb() const { return std::min(cfg.nb, n - 1); }
    void a_lower(Ctx &c, int pos) { ul = PlasmaLower; args.push_back({pos, "uplo", &ul, {0, 999, 110, 190, PlasmaUpper}}); }
    void mk_arrays(Ctx &c, int plda, int pldt, int tacc, int aacc)
    {
        lda = draw_ld(c, n);
        a_ld(plda, "lda", lda, n);
        ldt = 4 * cfg.nb + (int)c.s.u(3);
        int kt = kb(), lm = ((2 * kt + cfg.nb - 1) / cfg.nb + (kt + cfg.nb - 1) / cfg.nb + 1) * cfg.nb;
        if (n) args.push_back({pldt, "ldt", &ldt, {0, -1, lm - 1}});
        live["T"] = 0;                 // not every element of the work band is written
        show("ldt", ldt);
        A = &mat<T0>("A", n, n, lda);
        A->access_uplo(PlasmaLower, PlasmaNonUnit, aacc);
        T = &mat<T0>("T", ldt, n, ldt);
        if (n) for (int j = 0; j < n; j++) for (int i = 0; i < 4 * cfg.nb; i++) T->at(i, j) |= tacc;
    }
    DX sym(Ctx &c)
    {
        int kind = c.s.u(5);
        show("kind", kind);
        DX S(n, n);
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) S(i, j) = umod(dg, 1, i, j);
        for (int i = 0; i < n; i++) {
            LD d = re_(S(i, i));
            if (kind == 1) d = 0;                                     // zero diagonal
            if (kind == 2) d *= 1e-3L;
            if (kind == 3) d += ((hash2(dg.seed, 31 + i) & 1) ? 1 : -1) * (LD)(n + 2);   // dominant, mixed signs
            S(i, i) = X0(d);
        }
        if (kind == 4) S = wspd(dg, 1, n);
        harden(c, *this, S, false, 40, 400);
        for (auto &x : S.a) x = tox(fromx(x));
        return symfull(S, PlasmaLower, true);
    }
    DX getL(bool orig = false)
    {
        DX L = eye<X0>(n);
        int nb = cfg.nb;
        for (int j = nb; j < n; j++) for (int i = j + 1; i < n; i++) L(i, j) = tox(orig ? A->o(i, j - nb) : (*A)(i, j - nb));
        return L;
    }
    DX getF() { DX F(n, n); int k = kb(); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { int r = 2 * k + i - j; if (r >= 0 && r < 4 * cfg.nb) F(i, j) = tox((*T)(r, j)); } return F; }
    void putF(const DX &F) { int k = kb(); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { int r = 2 * k + i - j; if (r >= 0 && r < 4 * cfg.nb) (*T)(r, j) = fromx(F(i, j)); } }
    static DX symperm(const DX &S, const int *p) { int n = S.n; DX B = opx(rowperm(S, p, n), PlasmaTrans); return opx(rowperm(B, p, n), PlasmaTrans); }
    // amplification of the diagonal block inverses used when T is formed
    LD blockcond(const DX &L)
    {
        LD b = 1;
        for (int p = 0; p < n; p += cfg.nb) {
            int w = std::min(cfg.nb, n - p);
            DX D = sub(L, p, p, w, w), I;
            if (solvex(D, eye<X0>(w), I)) b = std::max(b, one(I) * one(D));
        }
        return b;
    }
};
struct Hetrf : Aasen {
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_lower(c, 1);
        a_dim(c, 2, "n", n);
        draw_data(c);
        mk_arrays(c, 4, 7, W_, R_ | W_);
        store(*A, sym(c), PlasmaLower);
        ip = &ivec("ipiv", n, true); ip2 = &ivec("ipiv2", n, true);
        empty = n == 0;
        finish_gen();
    }
    void call() override { info = PL::hetrf(ul, n, A->p, lda, ip->p, T->p, ldt, ip2->p); }
    bool accidental() override { return nearly_singular(symfull(A->xo(), PlasmaLower, true), n + 1); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        for (int i = 0; i < n; i++) {
            if (ip->p[i] < i + 1 || ip->p[i] > n) bad(c, "pivot", "ipiv[" + std::to_string(i) + "] = " + std::to_string(ip->p[i]));
            if (ip2->p[i] < i + 1 || ip2->p[i] > n) bad(c, "pivot", "ipiv2[" + std::to_string(i) + "] = " + std::to_string(ip2->p[i]));
        }
        DX S = symfull(A->xo(), PlasmaLower, true), L = getL(), F = getF(), Tm = band_product(F, ip2->p, cfg.nb);
        DX R = add(mul(L, mul(Tm, opx(L, PlasmaConjTrans))), symperm(S, ip->p), X0(-1));
        DM<LD> aL = absm(L), aT = add(band_product(absm(F), ip2->p, cfg.nb), absm(Tm));
        LD mag = one(mul(aL, mul(aT, opx(aL, PlasmaTrans)))) + one(S), bc = blockcond(L);
        for (auto &x : L.a) if (!(abs_(x) <= 2)) bad(c, "multiplier", "L has an element larger than the pivoting allows");
        need(c, *this, "factor", one(R), 20 * (LD)(n + 8) * ulp<T0>() * mag * bc);
    }
};
REG_OP(Hetrf, "hetrf", "het", true, "")

struct Hetrs : Aasen {
    int nrhs, ldb;
    Mat<T0> *B;
    DX S;
    DM<LD> mag;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_lower(c, 1);
        a_dim(c, 2, "n", n); a_dim(c, 3, "nrhs", nrhs);
        draw_data(c);
        mk_arrays(c, 5, 8, R_, R_);
        ldb = draw_ld(c, n);
        a_ld(11, "ldb", ldb, n);
        ip = &ivec("ipiv", n, false); ip2 = &ivec("ipiv2", n, false);
        int nb = cfg.nb;
        DX L = eye<X0>(n);
        DX L0 = wtri(dg, 3, n, PlasmaLower, true, false);
        for (int j = 0; j < n; j++) for (int i = 0; i < ldt; i++) (*T)(i, j) = T0(0);
        for (int j = 0; j < n; j++) for (int i = j; i < n; i++) (*A)(i, j) = T0(0);
        for (int j = nb; j < n; j++) for (int i = j; i < n; i++) { L(i, j) = L0(i, j); (*A)(i, j - nb) = fromx(L(i, j)); }
        for (int i = 0; i < n; i++) ip->p[i] = i < nb ? i + 1 : (hash2(dg.seed, 900 + i) & 1) ? i + 1 + (int)(hash2(dg.seed, 800 + i) % (n - i)) : i + 1;
        int sh = c.s.u(4);
        show("shape", sh);
        DX F = n ? bgen(dg, 5, n, n, kb(), kb(), sh == 2 ? 3 : sh) : DX(0, 0);
        std::vector<int> pv;
        ref_gbtrf(F, nb, pv);
        for (int j = 0; j < n; j++) if (abs_(F(j, j)) < 1e-3L) F(j, j) = X0(1);
        putF(F);
        std::copy(pv.begin(), pv.end(), ip2->p);
        if (n) {
            DX M = mul(L, mul(band_product(F, ip2->p, nb), opx(L, PlasmaConjTrans)));
            DM<LD> aL = absm(L);
            mag = mul(aL, mul(band_product(absm(F), ip2->p, nb), opx(aL, PlasmaTrans)));
            S = opx(rowperm_inv(opx(rowperm_inv(M, ip->p, n), PlasmaTrans), ip->p, n), PlasmaTrans);
            mag = opx(rowperm_inv_abs(opx(rowperm_inv_abs(mag, ip->p, n), PlasmaTrans), ip->p, n), PlasmaTrans);
        }
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        empty = n == 0 || nrhs == 0;
        finish_gen();
    }
    void call() override { info = PL::hetrs(ul, n, nrhs, A->p, lda, ip->p, T->p, ldt, ip2->p, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (empty) return;
        DX x = B->x(), b = B->xo();
        overflow_excuse(S, b, x);
        cwise(c, *this, "residual", add(mul(S, x), b, X0(-1)), add(mul(mag, absm(x)), absm(b)), (LD)20 * (n + 8));
    }
};
REG_OP(Hetrs, "hetrs", "het", false, "")

struct Hesv : Aasen {
    int nrhs, ldb;
    Mat<T0> *B;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_lower(c, 1);
        a_dim(c, 2, "n", n); a_dim(c, 3, "nrhs", nrhs);
        draw_data(c);
        mk_arrays(c, 5, 8, W_, R_ | W_);
        ldb = draw_ld(c, n);
        a_ld(11, "ldb", ldb, n);
        store(*A, sym(c), PlasmaLower);
        ip = &ivec("ipiv", n, true); ip2 = &ivec("ipiv2", n, true);
        B = &mat<T0>("B", n, nrhs, ldb); fill(*this, *B, 2); B->access_all(R_ | W_);
        empty = n == 0 || nrhs == 0;
        finish_gen();
    }
    void call() override { info = PL::hesv(ul, n, nrhs, A->p, lda, ip->p, T->p, ldt, ip2->p, B->p, ldb); }
    bool accidental() override { return nearly_singular(symfull(A->xo(), PlasmaLower, true), n + 1); }
    void check(Ctx &c) override
    {
        if (empty || info) return;
        DX S = symfull(A->xo(), PlasmaLower, true), x = B->x(), b = B->xo();
        overflow_excuse(S, b, x);
        LD r = one(add(mul(S, x), b, X0(-1)));
        need(c, *this, "residual", r, 200 * (LD)(n + 8) * (n + 8) * ulp<T0>() * (one(S) * one(x) + one(b)));
    }
};
REG_OP(Hesv, "hesv", "het", true, "")
}

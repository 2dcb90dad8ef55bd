// Matrix generators and shared constants for the operation files.
#pragma once
#include "lib.h"
namespace {   // one copy per precision
typedef P<T0> PL;
typedef DM<X0> DX;
static const std::vector<int> TR3{PlasmaNoTrans, PlasmaTrans, PlasmaConjTrans};
static const std::vector<int> SIDES{PlasmaLeft, PlasmaRight};
static const std::vector<int> ULS{PlasmaLower, PlasmaUpper};
static const std::vector<int> ULGS{PlasmaGeneral, PlasmaLower, PlasmaUpper};
static const std::vector<int> DIAGS{PlasmaNonUnit, PlasmaUnit};
[[maybe_unused]] static auto all = [](int, int) { return true; };
[[maybe_unused]] static bool in_uplo(int ul, int i, int j) { return ul == PlasmaGeneral || (ul == PlasmaLower ? i >= j : i <= j); }
[[maybe_unused]] static bool is0(T0 x) { return x == T0(0); }
[[maybe_unused]] static bool is1(T0 x) { return x == T0(1); }
[[maybe_unused]] static void fill(Op &op, Mat<T0> &M, int tag) { for (int j = 0; j < M.n; j++) for (int i = 0; i < M.m; i++) M(i, j) = op.dg.v<T0>(tag, i, j); }
inline T0 fromx(X0 v) { return mk<T0>((double)re_(v), (double)im_(v)); }
// moderate data: components in [-1,1], never both zero
inline X0 umod(const DG &g, int tag, int i, int j)
{
    DG h = g;
    h.kind = 1;
    return tox(mk<T0>(h.u(tag, i, j, 0) + 1.0 / 4096, (g.realonly || !is_cplx<T0>) ? 0.0 : h.u(tag, i, j, 1)));
}
// well conditioned triangular matrix (full storage, other triangle zero); real positive diagonal if rd
inline DX wtri(const DG &g, int tag, int n, int ul, bool unit, bool rd)
{
    DX A(n, n);
    LD s = std::ldexp((LD)1, -(int)std::ceil(std::log2(std::max(1.0, n / 2.0))));
    for (int j = 0; j < n; j++)
        for (int i = 0; i < n; i++) {
            if (i == j) {
                X0 d = X0(1);
                if (!unit) {
                    X0 u = umod(g, tag, i, j);
                    LD mag = 1 + std::fabs(re_(u));
                    if (g.kind == 2) mag *= std::ldexp((LD)1, (int)(hash2(g.seed, tag * 1000 + i) % 7) - 3);
                    d = X0(mag);
                    if (!rd) { if (hash2(g.seed, tag * 77 + i) & 1) d = -d; if (!g.realonly) d += tox(mk<T0>(0, (double)im_(u))); }
                }
                A(i, j) = d;
            }
            else if ((ul == PlasmaLower) == (i > j)) A(i, j) = umod(g, tag, i, j) * X0(s);
        }
    for (auto &x : A.a) x = tox(fromx(x));
    return A;
}
// general m x n matrix: kind 0 plain random, 1 dominant along a random permutation (forces row exchanges), 2 graded
inline DX wgen(const DG &g, int tag, int m, int n, int shape)
{
    DX A(m, n);
    std::vector<int> perm(m);
    for (int i = 0; i < m; i++) perm[i] = i;
    for (int i = m - 1; i > 0; i--) std::swap(perm[i], perm[hash2(g.seed * 7 + 3, tag * 100 + i) % (i + 1)]);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) = umod(g, tag, i, j);
    int k = std::min(m, n);
    if (shape == 1) for (int j = 0; j < k; j++) A(perm[j], j) += X0((LD)(2 + std::max(m, n)) * ((hash2(g.seed, 99 + j) & 1) ? 1 : -1));
    if (shape == 2) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) *= X0(std::ldexp((LD)1, (int)(hash2(g.seed + 5, i) % 9) - 4));
    if (shape == 3) for (int j = 0; j < k; j++) A(j, j) += X0((LD)(4 + 2 * std::max(m, n)));     // no exchanges needed
    for (auto &x : A.a) x = tox(fromx(x));
    return A;
}
// Hermitian (symmetric in real precisions) positive definite
inline DX wspd(const DG &g, int tag, int n, int bw = 1 << 30)
{
    DX L = wtri(g, tag, n, PlasmaLower, false, true);
    for (int j = 0; j < n; j++) for (int i = j + bw + 1; i < n; i++) L(i, j) = 0;
    DX A = mul(L, opx(L, PlasmaConjTrans));
    for (auto &x : A.a) x = tox(fromx(x));
    for (int j = 0; j < n; j++) for (int i = 0; i < j; i++) A(i, j) = conj_(A(j, i));
    for (int i = 0; i < n; i++) A(i, i) = X0(re_(A(i, i)));
    return A;
}
// correctness runs (M_HARD) now and then use data far from one (a power of two, up to 2^+-flim or 2^+-dlim) or, with dep,
// columns that agree to a drawn number of bits
[[maybe_unused]] static void harden(Ctx &c, Op &op, DX &A, bool dep, int flim, int dlim)
{
    if (!(op.mode & M_HARD) || (op.mode & M_SINGULAR) || A.m == 0 || A.n == 0) return;
    int w = (int)c.s.u(12);
    if (w == 10) {
        int lim = std::numeric_limits<R0>::digits < 30 ? flim : dlim, e = (int)c.s.u(2 * lim + 1) - lim;
        for (auto &x : A.a) x *= X0(std::ldexp((LD)1, e));
        op.show("scale2", e);
        c.label("scaled data");
    }
    else if (w == 11 && dep) {
        int p = 1 + (int)c.s.u(std::numeric_limits<R0>::digits + 4);
        for (int j = 1; j < A.n; j++)
            if (hash2(op.dg.seed + 11, j) & 3) for (int i = 0; i < A.m; i++) A(i, j) = tox(fromx(A(i, 0) + X0(std::ldexp((LD)1, -p)) * A(i, j)));
        op.show("depbits", p);
        c.label("nearly dependent columns");
    }
}
// correctness runs give the diagonal of a Hermitian matrix, which is real by definition, imaginary parts to ignore
[[maybe_unused]] static void impure(Ctx &c, Op &op, Mat<T0> &M, int bandrow = -1)
{
    if (!is_cplx<T0> || !(op.mode & M_HARD) || M.m == 0 || c.s.u(6) != 5) return;
    for (int i = 0; i < (bandrow < 0 ? std::min(M.m, M.n) : M.n); i++) M(bandrow < 0 ? i : bandrow, i) += mk<T0>(0, 1 + (double)(hash2(op.dg.seed + 17, i) % 5));
    op.show("impurediagonal", 1);
    c.label("imaginary parts on a Hermitian diagonal");
}
inline void store(Mat<T0> &M, const DX &A, int ul = PlasmaGeneral) { for (int j = 0; j < M.n; j++) for (int i = 0; i < M.m; i++) if (in_uplo(ul, i, j)) M(i, j) = fromx(A(i, j)); }
inline DX rowperm(const DX &A, const int *ipiv, int k)       // apply interchanges i <-> ipiv[i]-1
{
    DX B = A;
    for (int i = 0; i < k; i++) { int p = ipiv[i] - 1; if (p != i) for (int j = 0; j < A.n; j++) std::swap(B(i, j), B(p, j)); }
    return B;
}
inline DX rowperm_inv(const DX &A, const int *ipiv, int k)
{
    DX B = A;
    for (int i = k - 1; i >= 0; i--) { int p = ipiv[i] - 1; if (p != i) for (int j = 0; j < A.n; j++) std::swap(B(i, j), B(p, j)); }
    return B;
}
inline DM<LD> rowperm_inv_abs(const DM<LD> &A, const int *ipiv, int k)
{
    DM<LD> B = A;
    for (int i = k - 1; i >= 0; i--) { int p = ipiv[i] - 1; if (p != i) for (int j = 0; j < A.n; j++) std::swap(B(i, j), B(p, j)); }
    return B;
}
// componentwise |R| <= fac*ulp*mag
inline void cwise(Ctx &c, Op &op, const char *what, const DX &R, const DM<LD> &mag, LD fac)
{
    for (int j = 0; j < R.n; j++)
        for (int i = 0; i < R.m; i++) {
            LD e = abs_(R(i, j)), b = fac * ulp<T0>() * mag(i, j) + 64 * (LD)std::numeric_limits<R0>::min();
            if (!(e <= b)) {
                char buf[160];
                snprintf(buf, sizeof buf, "residual(%d,%d) = %.4Lg, bound %.4Lg", i, j, e, b);
                op.bad(c, what, buf);
            }
        }
}
inline LD onea(const DX &A) { return one(A); }

// an exactly zero pivot reported for a matrix that is singular to working precision (not by construction) is no case
inline bool nearly_singular(DX A, int info)
{
    int m = A.m, n = A.n, k = std::min(m, n);
    LD big = maxabs(A);
    for (int j = 0; j < k; j++) {
        int p = j;
        for (int i = j + 1; i < m; i++) if (abs1_(A(i, j)) > abs1_(A(p, j))) p = i;
        if (abs_(A(p, j)) <= 256 * (LD)(k + 8) * ulp<T0>() * big) return j < info;
        if (p != j) for (int q = 0; q < n; q++) std::swap(A(p, q), A(j, q));
        for (int i = j + 1; i < m; i++) {
            X0 f = A(i, j) / A(j, j);
            if (f == X0(0)) continue;
            for (int q = j; q < n; q++) A(i, q) -= f * A(j, q);
        }
    }
    return false;
}
// a solution that leaves the range of the precision is no case
inline void overflow_excuse(const DX &A, const DX &B, const DX &X)
{
    if (finite(X)) return;
    DX S;
    if (!solvex(A, B, S) || !(maxabs(S) < 1e30L)) throw Discard();
}
}

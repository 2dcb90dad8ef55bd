// Singular value decomposition.  Family "svd" (C09).
#include "gen.h"
namespace {   // one copy per precision

// singular values (descending) by one-sided Jacobi in extended precision
static std::vector<LD> refsv(DX A)
{
    if (A.m < A.n) A = opx(A, PlasmaConjTrans);
    int m = A.m, n = A.n;
    LD tol = 1e-18L, neg = 0;
    for (auto &x : A.a) neg = std::max(neg, abs_(x));
    neg *= 1e-24L;                 // columns below are zero
    for (int sweep = 0; sweep < 60; sweep++) {
        bool rot = false;
        for (int p = 0; p < n; p++)
            for (int q = p + 1; q < n; q++) {
                LD a = 0, b = 0;
                X0 g = 0;
                for (int i = 0; i < m; i++) { LD x = abs_(A(i, p)), y = abs_(A(i, q)); a += x * x; b += y * y; g += conj_(A(i, p)) * A(i, q); }
                LD ag = abs_(g);
                if (ag == 0 || std::sqrt(a) <= neg || std::sqrt(b) <= neg || ag <= tol * std::sqrt(a) * std::sqrt(b)) continue;
                rot = true;
                X0 ph = g * X0(1 / ag);
                LD z = (b - a) / (2 * ag), t = (z >= 0 ? 1 : -1) / (std::fabs(z) + std::sqrt(1 + z * z)), cs = 1 / std::sqrt(1 + t * t), sn = cs * t;
                for (int i = 0; i < m; i++) {
                    X0 x = A(i, p), y = A(i, q) * conj_(ph);
                    A(i, p) = X0(cs) * x - X0(sn) * y;
                    A(i, q) = X0(sn) * x + X0(cs) * y;
                }
            }
        if (!rot) break;
    }
    std::vector<LD> s(n);
    for (int j = 0; j < n; j++) { LD v = 0; for (int i = 0; i < m; i++) { LD x = abs_(A(i, j)); v += x * x; } s[j] = std::sqrt(v); }
    std::sort(s.begin(), s.end(), std::greater<LD>());
    return s;
}
struct Gesdd : Op {
    int ju, jv, m, n, lda, ldu, ldvt, k;
    D T{};
    bool haveT = false;
    Mat<T0> *A, *U, *V;
    Mat<R0> *S;
    void dropT() { if (haveT) plasma_desc_destroy(&T); haveT = false; }
    ~Gesdd() { dropT(); }
    void cleanup() override { dropT(); }
    D *handed() override { return &T; }
    void forget() override { haveT = false; T = D{}; }
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        owns_desc = true; unique_out = false;
        ju = std::vector<int>{PlasmaNoVec, PlasmaSomeVec, PlasmaAllVec}[c.s.u(3)];
        jv = ju;
        int other = ju == PlasmaNoVec ? PlasmaAllVec : PlasmaNoVec;
        args.push_back({1, "jobu", &ju, {0, 999, 110, 190}});
        args.push_back({2, "jobvt", &jv, {0, 999, 110, other}});
        show("job", ju);
        a_dim(c, 3, "m", m, 0, std::min(cfg.cap, 36)); a_dim(c, 4, "n", n, 0, std::min(cfg.cap, 36));
        if (c.s.u(4) == 0) { n = m; shown.back().second = n; }
        k = std::min(m, n);
        if (k && cfg.nb > k) cfg.nb = 1 + (int)c.s.u(k);        // the routine needs tiles no larger than the matrix
        draw_data(c);
        int sh = c.s.u(7);
        show("shape", sh);
        lda = draw_ld(c, m); a_ld(6, "lda", lda, m);
        bool v = ju != PlasmaNoVec;
        ldu = draw_ld(c, v ? m : 1); a_ld(10, "ldu", ldu, v ? m : 1);
        int vr = ju == PlasmaAllVec ? n : ju == PlasmaSomeVec ? k : 1;
        ldvt = draw_ld(c, vr); a_ld(12, "ldvt", ldvt, vr);
        A = &mat<T0>("A", m, n, lda);
        DX a(m, n);
        if (sh < 4) a = wgen(dg, 1, m, n, sh);
        else if (sh == 4) {                                      // low rank
            int r = k ? (int)c.s.u(std::min(k, 3) + 1) : 0;
            a = mul(wgen(dg, 2, m, r, 0), wgen(dg, 3, r, n, 0));
        }
        else if (sh == 5) for (int i = 0; i < k; i++) a((i * 7 + (int)(dg.seed % 5)) % m, (int)((i * 5 + dg.seed) % n)) = X0(LD(1 + (hash2(dg.seed, i) % 3)));   // repeated singular values
        else for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i == j || i + 1 == j) a(i, j) = umod(dg, 1, i, j);   // already bidiagonal
        harden(c, *this, a, false, 90, 900);      // nearly dependent columns: bdsdc itself loses orthogonality then
        store(*A, a);
        A->access_all(R_ | W_);
        S = &mat<R0>("S", k, 1, std::max(k, 1));
        S->access_all(W_);
        U = &mat<T0>("U", v ? m : 0, v ? (ju == PlasmaAllVec ? m : k) : 1, ldu);
        V = &mat<T0>("VT", v ? vr : 0, v ? n : 1, ldvt);
        U->access_all(W_); V->access_all(W_);
        empty = k == 0;
        if (empty) { U->acc.assign(U->acc.size(), 0); V->acc.assign(V->acc.size(), 0); }
        finish_gen();
    }
    void call() override
    {
        dropT();
        info = PL::gesdd(ju, jv, m, n, A->p, lda, &T, S->p, U->p, ldu, V->p, ldvt);
        haveT = info == 0 && !empty;
    }
    void check(Ctx &c) override
    {
        if (empty) return;
        DX a = A->xo();
        std::vector<LD> s = refsv(a);
        LD s1 = s[0], u = ulp<T0>() * (m + n + 8), tiny = 64 * (LD)std::numeric_limits<R0>::min();
        for (int i = 0; i < k; i++) {
            LD x = (LD)S->p[i];
            if (!(x >= 0)) bad(c, "nonnegative", "singular value " + std::to_string(i) + " is " + std::to_string((double)x));
            if (i && !(S->p[i] <= S->p[i - 1])) bad(c, "order", "singular values are not in descending order at " + std::to_string(i));
            need(c, *this, "values", std::fabs(x - s[i]), 6 * u * s1 + tiny);
        }
        if (ju == PlasmaNoVec) return;
        DX x = U->x(), y = V->x();
        DX R = add(mul(opx(x, PlasmaConjTrans), x), eye<X0>(x.n), X0(-1));
        need(c, *this, "leftorthogonal", maxabs(R), 8 * u);
        R = add(mul(y, opx(y, PlasmaConjTrans)), eye<X0>(y.m), X0(-1));
        need(c, *this, "rightorthogonal", maxabs(R), 8 * u);
        DX us = sub(x, 0, 0, m, k);
        for (int j = 0; j < k; j++) for (int i = 0; i < m; i++) us(i, j) *= X0((LD)S->p[j]);
        R = add(mul(us, sub(y, 0, 0, k, n)), a, X0(-1));
        need(c, *this, "reconstruct", fro(R), 8 * u * (s1 * std::sqrt((LD)k)) + tiny);
    }
};
REG_OP(Gesdd, "gesdd", "svd", false, "")
}

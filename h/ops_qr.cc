// QR/LQ factorization, generation and application of Q; least squares.  Families "qr" (C07) and "ls" (C08).
#include "gen.h"
namespace {   // one copy per precision

static const int CTR = is_cplx<T0> ? PlasmaConjTrans : PlasmaTrans;
static const std::vector<int> NCT{PlasmaNoTrans, CTR};
static const std::vector<int> BADNCT{0, 999, 110, 190, is_cplx<T0> ? PlasmaTrans : PlasmaConjTrans};

struct Ortho : Op {
    D T{};
    bool haveT = false;
    D *factors() override { return haveT ? &T : nullptr; }
    void dropT() { if (haveT) plasma_desc_destroy(&T); haveT = false; }
    ~Ortho() { dropT(); }
    void cleanup() override { if (owns_desc) dropT(); }
    D *handed() override { return owns_desc ? &T : nullptr; }
    void forget() override { haveT = false; T = D{}; }
    // runs f with the library initialized for this configuration (deterministic schedule when outside the call)
    template<class F> void with_lib(F f)
    {
        bool inited = plasma_context_self() != nullptr;
        if (!inited) { Cfg g = cfg; g.sc = rt::Sched(); g.sc.nthreads = cfg.sc.nthreads; begin_plasma(g); }
        else { rt::Sched s; s.nthreads = 1 + (int)(dg.seed % 4); rt::configure(s); }   // Q is the same whatever team applies it
        f();
        if (!inited) end_plasma();
    }
    // explicit Q from the routine that applies it; left=true: QR
    DX fullQ(Ctx &c, bool qr, int am, int k, T0 *A, int lda)
    {
        DX Q = eye<X0>(am);
        if (k == 0 || am == 0) return Q;
        std::vector<T0> I((size_t)am * am, T0(0));
        for (int i = 0; i < am; i++) I[i + (size_t)i * am] = T0(1);
        int r = -1;
        with_lib([&]() { r = qr ? PL::unmqr(PlasmaLeft, PlasmaNoTrans, am, am, k, A, lda, T, I.data(), am) : PL::unmlq(PlasmaLeft, PlasmaNoTrans, am, am, k, A, lda, T, I.data(), am); });
        if (r) bad(c, "applyinfo", "applying Q to the identity returned " + std::to_string(r));
        for (int j = 0; j < am; j++) for (int i = 0; i < am; i++) Q(i, j) = tox(I[i + (size_t)j * am]);
        return Q;
    }
    void check_ortho(Ctx &c, const DX &Q)       // Q^H Q = I
    {
        DX R = add(mul(opx(Q, PlasmaConjTrans), Q), eye<X0>(Q.n), X0(-1));
        need(c, *this, "orthogonal", maxabs(R), 8 * (LD)(Q.m + 8) * ulp<T0>());
    }
    // columnwise |Q R - A| <= c u |A_j|_2
    void check_cols(Ctx &c, const char *what, const DX &P, const DX &A, LD scale, const DX &norms)
    {
        for (int j = 0; j < A.n; j++) {
            LD e = 0, s = 0;
            for (int i = 0; i < A.m; i++) { LD v = abs_(P(i, j) - A(i, j)); e += v * v; if (!(v == v)) e = v; }
            for (int i = 0; i < norms.m; i++) { LD v = abs_(norms(i, j)); s += v * v; }
            need(c, *this, what, std::sqrt(e), 10 * scale * ulp<T0>() * std::sqrt(s) + 64 * (LD)std::numeric_limits<R0>::min());
        }
    }
};
// ---------------------------------------------------------------- geqrf, gelqf
template<bool QR> struct Gef : Ortho {
    int m, n, lda;
    Mat<T0> *A;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        owns_desc = true; unique_out = false;
        a_dim(c, 1, "m", m); a_dim(c, 2, "n", n);
        lda = draw_ld(c, m);
        a_ld(4, "lda", lda, m);
        draw_data(c);
        A = &mat<T0>("A", m, n, lda);
        fill(*this, *A, 1);
        { DX a = A->x(); harden(c, *this, a, true, 60, 500); store(*A, a); }
        A->access_all(R_ | W_);
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override
    {
        dropT();
        info = QR ? PL::geqrf(m, n, A->p, lda, &T) : PL::gelqf(m, n, A->p, lda, &T);
        haveT = info == 0 && !empty;
    }
    void check(Ctx &c) override
    {
        if (empty) return;
        int am = QR ? m : n, k = std::min(m, n);
        DX F = A->x(), A0 = A->xo();
        DX Q = fullQ(c, QR, am, k, A->p, lda);
        check_ortho(c, Q);
        LD sc = m + n + 8;
        if (QR) check_cols(c, "factor", mul(Q, tri(F, PlasmaUpper, PlasmaNonUnit)), A0, sc, A0);
        else {
            DX P = opx(mul(tri(F, PlasmaLower, PlasmaNonUnit), Q), PlasmaTrans), At = opx(A0, PlasmaTrans);
            check_cols(c, "factor", P, At, sc, At);
        }
    }
};
typedef Gef<true> Geqrf;
typedef Gef<false> Gelqf;
REG_OP(Geqrf, "geqrf", "qr", false, "")
REG_OP(Gelqf, "gelqf", "qr", false, "")

// a factorization prepared for the routines that use Q
struct UseQ : Ortho {
    int lda;
    Mat<T0> *A;
    DX A0;           // matrix factored
    // QR: am x kf, LQ: kf x am, of which k reflectors are used
    void factor(Ctx &c, bool qr, int am, int kf, int k, int ldpos, int ldmin = 0)
    {
        int r = qr ? am : kf, cc = qr ? kf : am;
        lda = draw_ld(c, qr ? am : std::max(kf, ldmin));
        a_ld(ldpos, "lda", lda, qr ? am : ldmin ? ldmin : k);
        A = &mat<T0>("A", r, cc, lda);
        fill(*this, *A, 1);
        { DX a = A->x(); harden(c, *this, a, true, 60, 500); store(*A, a); }
        A0 = A->x();
        if (r && cc) {
            int inf = -1;
            with_lib([&]() { inf = qr ? PL::geqrf(r, cc, A->p, lda, &T) : PL::gelqf(r, cc, A->p, lda, &T); });
            if (inf) bad(c, "setup", "factorization returned " + std::to_string(inf));
            haveT = true;
        }
        A->access([&](int i, int j) { return qr ? j < k : i < k; }, R_);
        rt::stats_reset();
    }
};
// ---------------------------------------------------------------- ungqr, unglq
template<bool QR> struct Ung : UseQ {
    int m, n, k, ldq;
    Mat<T0> *Q;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        // QR: m >= n >= k ; LQ: n >= m >= k
        int big, small;
        big = draw_dim(c, cfg, (mode & M_NONEMPTY) ? 1 : 0);
        small = c.s.range((mode & M_NONEMPTY) ? 1 : 0, big);
        if (c.s.u(3) == 0) small = big;
        k = c.s.u(2) == 0 ? small : c.s.range((mode & M_NONEMPTY) && small ? 1 : 0, small);
        m = QR ? big : small; n = QR ? small : big;
        args.push_back({1, "m", &m, {-1}}); args.push_back({2, "n", &n, {-1}}); args.push_back({3, "k", &k, {-1, small + 1}});
        show("m", m); show("n", n); show("k", k);
        int kf = c.s.u(2) == 0 ? k : c.s.range(k, big + 2);
        kf = std::max(kf, 1);
        show("factored", kf);
        draw_data(c);
        factor(c, QR, QR ? m : n, kf, k, 5, m);
        ldq = draw_ld(c, m);
        a_ld(8, "ldq", ldq, m);
        Q = &mat<T0>("Q", m, n, ldq);
        Q->access_all(W_);
        empty = m == 0 || n == 0;
        finish_gen();
    }
    void call() override { info = QR ? PL::ungqr(m, n, k, A->p, lda, T, Q->p, ldq) : PL::unglq(m, n, k, A->p, lda, T, Q->p, ldq); }
    void check(Ctx &c) override
    {
        if (empty) return;
        DX q = Q->x(), F = fullQ(c, QR, QR ? m : n, k, A->p, lda);
        if (QR) {
            check_ortho(c, q);
            check_cols(c, "sameQ", q, sub(F, 0, 0, m, n), m + n + 8, eye<X0>(n));
            DX R = tri(sub(A->xo(), 0, 0, k, k), PlasmaUpper, PlasmaNonUnit);
            DX Ak = sub(A0, 0, 0, m, k);
            check_cols(c, "factor", mul(sub(q, 0, 0, m, k), R), Ak, m + n + 8, Ak);
        }
        else {
            q = opx(q, PlasmaConjTrans);
            check_ortho(c, q);
            check_cols(c, "sameQ", q, opx(sub(F, 0, 0, m, n), PlasmaConjTrans), m + n + 8, eye<X0>(m));
            DX L = opx(tri(sub(A->xo(), 0, 0, k, k), PlasmaLower, PlasmaNonUnit), PlasmaConjTrans);
            DX Ak = opx(sub(A0, 0, 0, k, n), PlasmaConjTrans);
            check_cols(c, "factor", mul(sub(q, 0, 0, n, k), L), Ak, m + n + 8, Ak);
        }
    }
};
typedef Ung<true> Ungqr;
typedef Ung<false> Unglq;
REG_OP(Ungqr, "ungqr", "qr", false, "")
REG_OP(Unglq, "unglq", "qr", false, "")

// ---------------------------------------------------------------- unmqr, unmlq
template<bool QR> struct Unm : UseQ {
    int side, tr, m, n, k, ldc;
    Mat<T0> *C;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        a_enum(c, 1, "side", side, SIDES); a_enum(c, 2, "trans", tr, NCT, BADNCT);
        a_dim(c, 3, "m", m); a_dim(c, 4, "n", n);
        int am = side == PlasmaLeft ? m : n, lo = (mode & M_NONEMPTY) ? 1 : 0;
        k = c.s.u(2) == 0 ? am : c.s.range(std::min(lo, am), am);
        args.push_back({5, "k", &k, {-1, am + 1}});
        show("k", k);
        int kf = c.s.u(2) == 0 ? k : c.s.range(k, am + 2);
        kf = std::max(kf, 1);
        show("factored", kf);
        draw_data(c);
        factor(c, QR, am, kf, k, 7);
        ldc = draw_ld(c, m);
        a_ld(10, "ldc", ldc, m);
        C = &mat<T0>("C", m, n, ldc);
        fill(*this, *C, 2);
        C->access_all(R_ | W_);
        empty = m == 0 || n == 0 || k == 0;
        finish_gen();
    }
    void call() override { info = QR ? PL::unmqr(side, tr, m, n, k, A->p, lda, T, C->p, ldc) : PL::unmlq(side, tr, m, n, k, A->p, lda, T, C->p, ldc); }
    void check(Ctx &c) override
    {
        if (empty) return;
        int am = side == PlasmaLeft ? m : n;
        DX Q = fullQ(c, QR, am, k, A->p, lda), q = opx(Q, tr == PlasmaNoTrans ? PlasmaNoTrans : PlasmaConjTrans), x = C->x(), x0 = C->xo();
        check_ortho(c, Q);
        if (QR) { DX Ak = sub(A0, 0, 0, am, k); check_cols(c, "factor", mul(sub(Q, 0, 0, am, k), tri(sub(A->xo(), 0, 0, k, k), PlasmaUpper, PlasmaNonUnit)), Ak, am + 8, Ak); }
        else {
            DX Ak = opx(sub(A0, 0, 0, k, am), PlasmaTrans);
            check_cols(c, "factor", opx(mul(tri(sub(A->xo(), 0, 0, k, k), PlasmaLower, PlasmaNonUnit), sub(Q, 0, 0, k, am)), PlasmaTrans), Ak, am + 8, Ak);
        }
        if (side == PlasmaLeft) check_cols(c, "apply", x, mul(q, x0), am + 8, x0);
        else { DX a = opx(x, PlasmaTrans), b = opx(mul(x0, q), PlasmaTrans); check_cols(c, "apply", a, b, am + 8, opx(x0, PlasmaTrans)); }
    }
};
typedef Unm<true> Unmqr;
typedef Unm<false> Unmlq;
REG_OP(Unmqr, "unmqr", "qr", false, "")
REG_OP(Unmlq, "unmlq", "qr", false, "")

// ---------------------------------------------------------------- least squares
// M tall: least squares solution x of M x = b, tail rows of B carry the residual norm
struct LsBase : UseQ {
    int m, n, nrhs, ldb;
    Mat<T0> *B;
    static LD colnorm(const DX &A, int j, int i0 = 0, int i1 = -1) { LD s = 0; for (int i = i0; i < (i1 < 0 ? A.m : i1); i++) { LD v = abs_(A(i, j)); s += v * v; } return std::sqrt(s); }
    static LD gcond(const DX &M, DX &Gi)    // condition estimate of a tall matrix
    {
        DX G = mul(opx(M, PlasmaConjTrans), M);
        if (!solvex(G, eye<X0>(M.n), Gi)) return 1e30L;
        LD k = std::sqrt(one(G) * one(Gi));
        return k == k ? k : 1e30L;
    }
    void check_ls(Ctx &c, const DX &M, const DX &b, const DX &full, bool tail)
    {
        int p = M.m, q = M.n;
        DX x = sub(full, 0, 0, q, nrhs), r = add(b, mul(M, x), X0(-1)), g = mul(opx(M, PlasmaConjTrans), r);
        LD fm = fro(M), u = ulp<T0>() * 10 * (p + q + 8);
        for (int j = 0; j < nrhs; j++) {
            LD nx = colnorm(x, j), nr = colnorm(r, j), nb_ = colnorm(b, j);
            need(c, *this, "leastsquares", colnorm(g, j), u * fm * (fm * nx + nr + nb_) + 64 * (LD)std::numeric_limits<R0>::min());
            if (tail && p > q) need(c, *this, "residualnorm", std::fabs(colnorm(full, j, q, p) - nr), u * (fm * nx + nb_) + 64 * (LD)std::numeric_limits<R0>::min());
        }
    }
    // W wide (q x p): minimum norm solution x of W x = b
    void check_mn(Ctx &c, const DX &W, const DX &b, const DX &x)
    {
        DX M = opx(W, PlasmaConjTrans), Gi;
        LD kap = gcond(M, Gi), fm = fro(W), u = ulp<T0>() * 10 * (W.m + W.n + 8);
        DX r = add(mul(W, x), b, X0(-1)), px = add(x, mul(M, mul(Gi, mul(W, x))), X0(-1));
        for (int j = 0; j < nrhs; j++) {
            LD nx = colnorm(x, j);
            need(c, *this, "residual", colnorm(r, j), u * (fm * nx + colnorm(b, j)) + 64 * (LD)std::numeric_limits<R0>::min());
            need(c, *this, "minimumnorm", colnorm(px, j), u * nx * kap + 1e-17L * kap * kap * nx + 64 * (LD)std::numeric_limits<R0>::min());
        }
    }
    void full_rank(const DX &A)       // the routine assumes full rank
    {
        DX Gi, M = A.m >= A.n ? A : opx(A, PlasmaConjTrans);
        for (auto &x : M.a) x = tox(fromx(x));
        LD kap = M.n ? gcond(M, Gi) : 0;        // from the normal equations in extended precision: no use beyond 1e7
        if (!(kap < 1e7L && kap * ulp<T0>() * 200 * (A.m + A.n) < 1)) throw Discard();
    }
    DX lsmat(Ctx &c) { int sh = c.s.u(4); show("shape", sh); DX a = wgen(dg, 1, m, n, sh); harden(c, *this, a, true, 60, 500); return a; }
};
struct Gels : LsBase {
    int tr;
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        owns_desc = true;
        a_enum(c, 1, "trans", tr, NCT, BADNCT);
        a_dim(c, 2, "m", m); a_dim(c, 3, "n", n); a_dim(c, 4, "nrhs", nrhs);
        draw_data(c);
        lda = draw_ld(c, m); ldb = draw_ld(c, std::max(m, n));
        a_ld(6, "lda", lda, m); a_ld(9, "ldb", ldb, std::max(m, n));
        A = &mat<T0>("A", m, n, lda);
        DX a = lsmat(c);
        full_rank(a);
        store(*A, a); A->access_all(R_ | W_);
        B = &mat<T0>("B", std::max(m, n), nrhs, ldb);
        int rb = tr == PlasmaNoTrans ? m : n;
        for (int j = 0; j < nrhs; j++) for (int i = 0; i < rb; i++) (*B)(i, j) = dg.v<T0>(2, i, j);
        B->access([&](int i, int) { return i < rb; }, R_);
        B->access_all(W_);
        empty = m == 0 || n == 0 || nrhs == 0;
        finish_gen();
    }
    void call() override { dropT(); info = PL::gels(tr, m, n, nrhs, A->p, lda, &T, B->p, ldb); haveT = info == 0 && !empty; }
    void check(Ctx &c) override
    {
        if (empty) {
            for (int j = 0; j < nrhs; j++) for (int i = 0; i < B->m; i++) if (!is0((*B)(i, j))) bad(c, "emptyzero", "the solution of an empty problem is not zero");
            return;
        }
        DX a = A->xo(), op = opx(a, tr == PlasmaNoTrans ? PlasmaNoTrans : PlasmaConjTrans), full = B->x();
        DX b = sub(B->xo(), 0, 0, op.m, nrhs);
        if (op.m >= op.n) check_ls(c, op, b, full, true); else check_mn(c, op, b, sub(full, 0, 0, op.n, nrhs));
        if (op.m == op.n) { DX x = sub(full, 0, 0, op.n, nrhs); for (int j = 0; j < nrhs; j++) need(c, *this, "square", colnorm(add(mul(op, x), b, X0(-1)), j), 10 * (LD)(m + n + 8) * ulp<T0>() * (fro(op) * colnorm(x, j) + colnorm(b, j)) + 64 * (LD)std::numeric_limits<R0>::min()); }
        // A holds the factorization geqrf / gelqf would return
        DX F = A->x(), Q = fullQ(c, m >= n, std::max(m, n), std::min(m, n), A->p, lda);
        if (m >= n) check_cols(c, "factor", mul(Q, tri(F, PlasmaUpper, PlasmaNonUnit)), a, m + n + 8, a);
        else check_cols(c, "factor", opx(mul(tri(F, PlasmaLower, PlasmaNonUnit), Q), PlasmaTrans), opx(a, PlasmaTrans), m + n + 8, opx(a, PlasmaTrans));
    }
};
REG_OP(Gels, "gels", "ls", false, "")

template<bool QR> struct Geqs : LsBase {
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        int lo = (mode & M_NONEMPTY) ? 1 : 0, big = draw_dim(c, cfg, lo), small = c.s.u(4) == 0 ? big : c.s.range(std::min(lo, big), big);
        m = QR ? big : small; n = QR ? small : big;
        if (QR) { args.push_back({1, "m", &m, {-1}}); args.push_back({2, "n", &n, {-1, big + 1}}); }
        else { args.push_back({1, "m", &m, {-1}}); args.push_back({2, "n", &n, {-1, small - 1}}); }
        show("m", m); show("n", n);
        a_dim(c, 3, "nrhs", nrhs);
        draw_data(c);
        lda = draw_ld(c, m); ldb = draw_ld(c, big);
        a_ld(5, "lda", lda, m); a_ld(8, "ldb", ldb, big);
        A = &mat<T0>("A", m, n, lda);
        DX a = lsmat(c);
        full_rank(a);
        store(*A, a); A->access_all(R_);
        A0 = A->x();
        if (m && n) {
            int inf = -1;
            with_lib([&]() { inf = QR ? PL::geqrf(m, n, A->p, lda, &T) : PL::gelqf(m, n, A->p, lda, &T); });
            if (inf) bad(c, "setup", "factorization returned " + std::to_string(inf));
            haveT = true;
        }
        rt::stats_reset();
        B = &mat<T0>("B", big, nrhs, ldb);
        for (int j = 0; j < nrhs; j++) for (int i = 0; i < m; i++) (*B)(i, j) = dg.v<T0>(2, i, j);
        B->access([&](int i, int) { return i < m; }, R_);
        B->access_all(W_);
        empty = m == 0 || n == 0 || nrhs == 0;
        finish_gen();
    }
    void call() override { info = QR ? PL::geqrs(m, n, nrhs, A->p, lda, T, B->p, ldb) : PL::gelqs(m, n, nrhs, A->p, lda, T, B->p, ldb); }
    void check(Ctx &c) override
    {
        if (empty) return;
        DX b = sub(B->xo(), 0, 0, m, nrhs), full = B->x();
        if (QR) check_ls(c, A0, b, full, true); else check_mn(c, A0, b, full);
    }
};
typedef Geqs<true> Geqrs;
typedef Geqs<false> Gelqs;
REG_OP(Geqrs, "geqrs", "ls", false, "")
REG_OP(Gelqs, "gelqs", "ls", false, "")
}

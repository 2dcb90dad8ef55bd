// Tile kernels against their documented local operation (compiled once per precision).
#include "kern.h"
#if PREC == 1
#define K_(x) plasma_core_s##x
#define KUN(x) plasma_core_sor##x
#define LANGE plasma_core_slange
#elif PREC == 2
#define K_(x) plasma_core_d##x
#define KUN(x) plasma_core_dor##x
#define LANGE plasma_core_dlange
#elif PREC == 3
#define K_(x) plasma_core_c##x
#define KUN(x) plasma_core_cun##x
#define LANGE plasma_core_clange
#else
#define K_(x) plasma_core_z##x
#define KUN(x) plasma_core_zun##x
#define LANGE plasma_core_zlange
#endif
namespace {
typedef DM<X0> M;
const int CT0 = is_cplx<T0> ? PlasmaConjTrans : PlasmaTrans;
inline T0 fromx(X0 v) { return mk<T0>((double)re_(v), (double)im_(v)); }
std::string S(long v) { return std::to_string(v); }

struct Guard {                       // the arrays of one call
    std::vector<std::unique_ptr<MatBase>> v;
    Mat<T0> &mat(const char *nm, int m, int n, int ld) { auto *x = new Mat<T0>(nm, m, n, ld); v.emplace_back(x); return *x; }
    Mat<R0> &rmat(const char *nm, int m, int n, int ld) { auto *x = new Mat<R0>(nm, m, n, ld); v.emplace_back(x); return *x; }
    void arm(int variant) { for (auto &m : v) { m->poison(variant); m->snapshot(); } }
    void verify(Ctx &c, const std::string &k)
    {
        std::string w;
        for (auto &m : v) if (!m->outside_ok(&w)) c.fail(k + ".footprint", w);
        if (!rt::check_canaries(&w)) c.fail(k + ".footprint", w);
    }
};
struct Gen {
    uint64_t seed; int kind; int zc = -1;
    Gen(Ctx &c) { seed = c.s.u(65536) + 1; kind = (int)c.s.u(5); c.desc << " data=" << kind << " seed=" << seed; }
    T0 v(uint64_t tag, int i, int j) const
    {
        auto h = [&](int part) { return hash2(hash2(seed, tag * 4 + part), ((uint64_t)(unsigned)i << 20) ^ (unsigned)j); };
        auto f = [&](int part) -> double {
            uint64_t x = h(part);
            switch (kind) {
            case 0: return (double)(int)(x % 7) - 3;
            case 2: return ((double)(x % 20001) / 10000.0 - 1) * std::pow(2.0, (double)((int)((x >> 32) % 17) - 8));
            case 3: return (x >> 40) % 3 ? 0.0 : (double)(int)(x % 5) - 2;          // sparse: zero columns and tails are common
            default: return (double)(x % 20001) / 10000.0 - 1;
            }
        };
        if (kind == 4 && (h(7) % 4) == 0) return T0(0);
        return mk<T0>(f(0), is_cplx<T0> ? f(1) : 0.0);
    }
    void fill(Mat<T0> &A, uint64_t tag) { for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) A(i, j) = v(tag, i, j); }
};
// ib distribution that includes 1, non-divisors, n and more than n
int draw_ib(Ctx &c, int n) { return 1 + (int)c.s.u(n + 2); }
int dim(Ctx &c, int hi) { return 1 + (int)c.s.u(c.s.u(4) == 3 ? hi * 2 : hi); }

// reflectors and triangular factors of one factorization
struct Fac {
    int kind; bool lq; int m, n, m2, ib, k;   // GE: m x n;  TS/TT: A1 is k x k, A2 is m2 x k (QR) or k x m2 (LQ)
    M V;                                       // GE: order x k columns v_j;  TS/TT: m2 x k
    M T;                                       // ib x k
    std::string nm;
};
// matrices V over the product space and Q of order d (TS/TT: first d1 coordinates belong to A1)
M build_q(const Fac &f, int d1, int d, int k)
{
    M H = eye<X0>(d);
    for (int b = 0; b < k; b += f.ib) {
        int kb = std::min(f.ib, k - b);
        M Vb(d, kb), Tb(kb, kb);
        for (int j = 0; j < kb; j++) {
            if (f.kind == 0) for (int i = 0; i < d; i++) Vb(i, j) = f.V(i, b + j);
            else { Vb(b + j, j) = 1; for (int i = 0; i < f.m2; i++) Vb(d1 + i, j) = f.V(i, b + j); }
            for (int i = 0; i <= j; i++) Tb(i, j) = f.T(i, b + j);
        }
        H = add(H, mul(mul(mul(H, Vb), Tb), opx(Vb, PlasmaConjTrans)), X0(-1));
    }
    return f.lq ? opx(H, PlasmaConjTrans) : H;
}
bool inV(const Fac &f, int i, int j) { return f.kind == 0 ? i > j : f.kind == 1 ? true : i <= j; }   // stored entries of v_j
void require(Ctx &c, const std::string &key, LD err, LD bound, const std::string &what)
{
    if (!(err <= bound)) { std::ostringstream o; o << what << ": error " << (double)err << ", bound " << (double)bound; c.fail(key, o.str()); }
}

Fac factor(Ctx &c, int kind, bool lq)
{
    static const char *qn[] = {"geqrt", "tsqrt", "ttqrt"}, *ln[] = {"gelqt", "tslqt", "ttlqt"};
    Fac f; f.kind = kind; f.lq = lq; f.nm = std::string(1, PC) + (lq ? ln[kind] : qn[kind]);
    Guard g;
    int e;
    if (kind == 0) {
        int m = f.m = dim(c, 9), n = f.n = dim(c, 9);
        int k = f.k = std::min(m, n);
        int ib = f.ib = draw_ib(c, k);
        int lda = m + c.s.u(4), ldt = ib + c.s.u(3), nt = lq ? m : n;
        c.desc << f.nm << " m=" << m << " n=" << n << " ib=" << ib << " lda=" << lda << " ldt=" << ldt;
        Gen d(c);
        auto &A = g.mat("A", m, n, lda); auto &T = g.mat("T", ib, nt, ldt);
        auto &tau = g.mat("tau", nt, 1, nt); auto &w = g.mat("work", ib * nt, 1, ib * nt);
        d.fill(A, 1);
        A.access_all(R_ | W_); tau.access_all(W_); w.access_all(W_);
        for (int j = 0; j < k; j++) for (int i = 0; i < std::min(ib, j % ib + 1); i++) T.at(i, j) |= W_;
        g.arm(c.s.u(3));
        M A0 = A.x();
        e = lq ? K_(gelqt)(m, n, ib, cp(A.p), lda, cp(T.p), ldt, cp(tau.p), cp(w.p)) : K_(geqrt)(m, n, ib, cp(A.p), lda, cp(T.p), ldt, cp(tau.p), cp(w.p));
        if (e) c.fail(f.nm + ".info", "returned " + S(e));
        g.verify(c, f.nm);
        int d0 = lq ? n : m;
        f.V = M(d0, k); f.T = M(ib, k);
        for (int j = 0; j < k; j++) {
            f.V(j, j) = 1;
            for (int i = j + 1; i < d0; i++) f.V(i, j) = lq ? conj_(tox(A(j, i))) : tox(A(i, j));
            for (int i = 0; i <= j % ib; i++) f.T(i, j) = tox(T(i, j));
        }
        M F(m, n);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (lq ? i >= j : i <= j) F(i, j) = tox(A(i, j));
        M Q = build_q(f, 0, d0, k);
        LD u = 40 * (d0 + k + 4) * ulp<T0>();
        require(c, f.nm + ".orthogonality", fro(add(mul(opx(Q, PlasmaConjTrans), Q), eye<X0>(d0), X0(-1))), u, "Q^H Q - I");
        M B = lq ? mul(F, Q) : mul(Q, F);
        require(c, f.nm + ".reconstruction", fro(add(A0, B, X0(-1))), u * fro(A0), "factors do not multiply to the tile");
    }
    else {
        int k = f.k = dim(c, 8), m2 = f.m2 = dim(c, 8);
        int ib = f.ib = draw_ib(c, k);
        int am = lq ? k : m2, an = lq ? m2 : k;                    // A2
        int lda1 = std::max(k, am) + c.s.u(3), lda2 = am + c.s.u(3), ldt = ib + c.s.u(3);
        c.desc << f.nm << " k=" << k << " m2=" << m2 << " ib=" << ib << " lda1=" << lda1 << " lda2=" << lda2 << " ldt=" << ldt;
        Gen d(c);
        auto &A1 = g.mat("A1", k, k, lda1); auto &A2 = g.mat("A2", am, an, lda2); auto &T = g.mat("T", ib, k, ldt);
        auto &tau = g.mat("tau", k, 1, k); auto &w = g.mat("work", ib * k, 1, ib * k);
        d.fill(A1, 1); d.fill(A2, 2);
        A1.access([&](int i, int j) { return lq ? i >= j : i <= j; }, R_ | W_);
        A2.access([&](int i, int j) { return lq ? inV(f, j, i) : inV(f, i, j); }, R_ | W_);
        tau.access_all(W_); w.access_all(W_);
        for (int j = 0; j < k; j++) for (int i = 0; i <= j % ib; i++) T.at(i, j) |= W_;
        g.arm(c.s.u(3));
        M A0(lq ? k : k + m2, lq ? k + m2 : k);
        auto load = [&](M &X, bool a2) {
            for (int j = 0; j < k; j++) for (int i = 0; i < k; i++) if (lq ? i >= j : i <= j) X(i, j) = tox(A1(i, j));
            if (a2) for (int j = 0; j < an; j++) for (int i = 0; i < am; i++) if (A2.at(i, j)) X(lq ? i : k + i, lq ? k + j : j) = tox(A2(i, j));
        };
        load(A0, true);
        if (kind == 1) e = lq ? K_(tslqt)(am, an, ib, cp(A1.p), lda1, cp(A2.p), lda2, cp(T.p), ldt, cp(tau.p), cp(w.p))
                              : K_(tsqrt)(am, an, ib, cp(A1.p), lda1, cp(A2.p), lda2, cp(T.p), ldt, cp(tau.p), cp(w.p));
        else e = lq ? K_(ttlqt)(am, an, ib, cp(A1.p), lda1, cp(A2.p), lda2, cp(T.p), ldt, cp(tau.p), cp(w.p))
                    : K_(ttqrt)(am, an, ib, cp(A1.p), lda1, cp(A2.p), lda2, cp(T.p), ldt, cp(tau.p), cp(w.p));
        if (e) c.fail(f.nm + ".info", "returned " + S(e));
        g.verify(c, f.nm);
        f.V = M(m2, k); f.T = M(ib, k);
        for (int j = 0; j < k; j++) {
            for (int i = 0; i < m2; i++) if (inV(f, i, j)) f.V(i, j) = lq ? conj_(tox(A2(j, i))) : tox(A2(i, j));
            for (int i = 0; i <= j % ib; i++) f.T(i, j) = tox(T(i, j));
        }
        M F(A0.m, A0.n);
        load(F, false);
        int d0 = k + m2;
        M Q = build_q(f, k, d0, k);
        LD u = 40 * (d0 + k + 4) * ulp<T0>();
        require(c, f.nm + ".orthogonality", fro(add(mul(opx(Q, PlasmaConjTrans), Q), eye<X0>(d0), X0(-1))), u, "Q^H Q - I");
        M B = lq ? mul(F, Q) : mul(Q, F);
        require(c, f.nm + ".reconstruction", fro(add(A0, B, X0(-1))), u * fro(A0), "factors do not multiply to the tiles");
    }
    c.label(f.nm.substr(1) + (f.ib > f.k ? " ib>k" : f.k % f.ib ? " ragged" : ""));
    return f;
}
void apply(Ctx &c, const Fac &f)
{
    static const char *qn[] = {"mqr", "tsmqr", "ttmqr"}, *ln[] = {"mlq", "tsmlq", "ttmlq"};
    std::string nm = std::string(1, PC) + (f.kind ? "" : is_cplx<T0> ? "un" : "or") + (f.lq ? ln[f.kind] : qn[f.kind]);
    Guard g;
    int side = c.s.pick({PlasmaLeft, PlasmaRight}), trans = c.s.pick({(int)PlasmaNoTrans, CT0});
    int k = f.k - (int)(c.s.u(3) == 2 ? c.s.u(f.k) : 0), o = dim(c, 7);      // reflectors used; the other dimension of C
    bool left = side == PlasmaLeft;
    c.desc << "; " << nm << " " << (left ? "left" : "right") << (trans == PlasmaNoTrans ? " N" : " H") << " k=" << k << " other=" << o;
    Gen d(c);
    int ldt = f.ib + c.s.u(3), ib = f.ib, e;
    auto &T = g.mat("T", ib, k, ldt);
    for (int j = 0; j < k; j++) for (int i = 0; i <= j % ib; i++) { T.at(i, j) |= R_; T(i, j) = mk<T0>((double)re_(f.T(i, j)), (double)im_(f.T(i, j))); }
    auto loadV = [&](Mat<T0> &V) {
        for (int j = 0; j < k; j++) for (int i = 0; i < f.V.m; i++) if (inV(f, i, j)) {
            X0 v = f.lq ? conj_(f.V(i, j)) : f.V(i, j);
            int r = f.lq ? j : i, s = f.lq ? i : j;
            V(r, s) = mk<T0>((double)re_(v), (double)im_(v)); V.at(r, s) |= R_;
        }
    };
    M Q, C0, C1;
    int d0;
    LD u;
    if (f.kind == 0) {
        d0 = f.V.m;
        int m = left ? d0 : o, n = left ? o : d0, ldc = m + c.s.u(3);
        auto &V = g.mat("V", f.lq ? k : d0, f.lq ? d0 : k, (f.lq ? k : d0) + c.s.u(3));
        loadV(V);
        auto &C = g.mat("C", m, n, ldc);
        d.fill(C, 5);
        C.access_all(R_ | W_);
        int ldw = (left ? n : m) + c.s.u(2);
        auto &w = g.mat("work", ldw, ib, ldw);
        for (auto &a : w.acc) a = W_;
        g.arm(c.s.u(3));
        C0 = C.x();
        e = f.lq ? KUN(mlq)(side, trans, m, n, k, ib, cp(V.p), V.ld, cp(T.p), ldt, cp(C.p), ldc, cp(w.p), ldw)
                 : KUN(mqr)(side, trans, m, n, k, ib, cp(V.p), V.ld, cp(T.p), ldt, cp(C.p), ldc, cp(w.p), ldw);
        if (e) c.fail(nm + ".info", "returned " + S(e));
        g.verify(c, nm);
        C1 = C.x();
        Q = build_q(f, 0, d0, k);
    }
    else {
        int d1 = k + c.s.u(3);                                     // extent of A1 on the side Q acts on
        d0 = d1 + f.m2;
        int m1 = left ? d1 : o, n1 = left ? o : d1, m2 = left ? f.m2 : o, n2 = left ? o : f.m2;
        auto &V = g.mat("V", f.lq ? k : f.m2, f.lq ? f.m2 : k, (f.lq ? k : f.m2) + c.s.u(3));
        loadV(V);
        auto &A1 = g.mat("A1", m1, n1, m1 + c.s.u(3)); auto &A2 = g.mat("A2", m2, n2, m2 + c.s.u(3));
        d.fill(A1, 5); d.fill(A2, 6);
        A1.access([&](int i, int j) { return (left ? i : j) < k; }, R_ | W_);   // only the coordinates of the reflectors are involved
        A2.access_all(R_ | W_);
        int ldw = (left ? ib : std::max(m1, n1)) + c.s.u(2), nw = left ? std::max(m1, n1) : ib;
        auto &w = g.mat("work", ldw, nw, ldw);
        for (auto &a : w.acc) a = W_;
        g.arm(c.s.u(3));
        auto load = [&](M &X) {
            X = M(left ? d0 : o, left ? o : d0);
            for (int j = 0; j < n1; j++) for (int i = 0; i < m1; i++) X(i, j) = A1.at(i, j) ? tox(A1(i, j)) : X0(0);
            for (int j = 0; j < n2; j++) for (int i = 0; i < m2; i++) X(left ? d1 + i : i, left ? j : d1 + j) = tox(A2(i, j));
        };
        load(C0);
        if (f.kind == 1) e = f.lq ? K_(tsmlq)(side, trans, m1, n1, m2, n2, k, ib, cp(A1.p), A1.ld, cp(A2.p), A2.ld, cp(V.p), V.ld, cp(T.p), ldt, cp(w.p), ldw)
                                  : K_(tsmqr)(side, trans, m1, n1, m2, n2, k, ib, cp(A1.p), A1.ld, cp(A2.p), A2.ld, cp(V.p), V.ld, cp(T.p), ldt, cp(w.p), ldw);
        else e = f.lq ? K_(ttmlq)(side, trans, m1, n1, m2, n2, k, ib, cp(A1.p), A1.ld, cp(A2.p), A2.ld, cp(V.p), V.ld, cp(T.p), ldt, cp(w.p), ldw)
                      : K_(ttmqr)(side, trans, m1, n1, m2, n2, k, ib, cp(A1.p), A1.ld, cp(A2.p), A2.ld, cp(V.p), V.ld, cp(T.p), ldt, cp(w.p), ldw);
        if (e) c.fail(nm + ".info", "returned " + S(e));
        g.verify(c, nm);
        load(C1);
        Q = build_q(f, d1, d0, k);
    }
    M op = trans == PlasmaNoTrans ? Q : opx(Q, PlasmaConjTrans);
    M E = left ? mul(op, C0) : mul(C0, op);
    u = 40 * (d0 + k + 4) * ulp<T0>();
    require(c, nm + ".result", fro(add(E, C1, X0(-1))), u * fro(C0), "C differs from the product with Q");
    c.label(nm.substr(f.kind ? 1 : 3) + (left ? " left" : " right") + (k < f.k ? " k<factored" : ""));
    c.nontrivial = f.k > 1 && f.ib < f.k;
}
void k_qr(Ctx &c)
{
    int kind = (int)c.s.u(3);
    bool lq = c.s.u(2);
    Fac f = factor(c, kind, lq);
    apply(c, f);
    c.weight = 2;
}

// ---------------------------------------------------------------- block reflector application with arbitrary V, T
void k_parfb(Ctx &c)
{
    std::string nm = std::string(1, PC) + "parfb";
    Guard g;
    int side = c.s.pick({PlasmaLeft, PlasmaRight}), trans = c.s.pick({(int)PlasmaNoTrans, CT0});
    int storev = c.s.pick({PlasmaColumnwise, PlasmaRowwise});
    bool left = side == PlasmaLeft, col = storev == PlasmaColumnwise;
    int k = dim(c, 6), q = dim(c, 7), o = dim(c, 6), l = (int)c.s.u(std::min(k, q) + 1), d1 = k + c.s.u(3);
    c.desc << nm << (left ? " left" : " right") << (trans == PlasmaNoTrans ? " N" : " H") << (col ? " col" : " row") << " k=" << k << " q=" << q << " other=" << o << " l=" << l << " d1=" << d1;
    Gen d(c);
    int m1 = left ? d1 : o, n1 = left ? o : d1, m2 = left ? q : o, n2 = left ? o : q;
    auto &A1 = g.mat("A1", m1, n1, m1 + c.s.u(3)); auto &A2 = g.mat("A2", m2, n2, m2 + c.s.u(3));
    auto &V = g.mat("V", col ? q : k, col ? k : q, (col ? q : k) + c.s.u(3)); auto &T = g.mat("T", k, k, k + c.s.u(3));
    d.fill(A1, 1); d.fill(A2, 2); d.fill(V, 3); d.fill(T, 4);
    A1.access([&](int i, int j) { return (left ? i : j) < k; }, R_ | W_);
    A2.access_all(R_ | W_);
    T.access([](int i, int j) { return i <= j; }, R_);
    V.access([&](int r, int s) { int i = col ? r : s, j = col ? s : r; return i < q - l || j >= l || i - (q - l) <= j; }, R_);   // the last l rows hold a triangle in the first l columns
    int ldw = (left ? k : o) + c.s.u(2), nw = left ? o : k;
    auto &w = g.mat("work", ldw, nw, ldw);
    for (auto &a : w.acc) a = W_;
    g.arm(c.s.u(3));
    auto load = [&](M &X) {
        X = M(left ? d1 + q : o, left ? o : d1 + q);
        for (int j = 0; j < n1; j++) for (int i = 0; i < m1; i++) X(i, j) = A1.at(i, j) ? tox(A1(i, j)) : X0(0);
        for (int j = 0; j < n2; j++) for (int i = 0; i < m2; i++) X(left ? d1 + i : i, left ? j : d1 + j) = tox(A2(i, j));
    };
    M C0, C1, U(d1 + q, k), Tx(k, k);
    load(C0);
    for (int j = 0; j < k; j++) {
        U(j, j) = 1;
        for (int i = 0; i < q; i++) { int r = col ? i : j, s = col ? j : i; if (V.at(r, s)) U(d1 + i, j) = col ? tox(V(r, s)) : conj_(tox(V(r, s))); }
        for (int i = 0; i <= j; i++) Tx(i, j) = tox(T(i, j));
    }
    int e = K_(parfb)(side, trans, PlasmaForward, storev, m1, n1, m2, n2, k, l, cp(A1.p), A1.ld, cp(A2.p), A2.ld, cp(V.p), V.ld, cp(T.p), T.ld, cp(w.p), ldw);
    if (e) c.fail(nm + ".info", "returned " + S(e));
    g.verify(c, nm);
    load(C1);
    M P = mul(mul(U, opx(Tx, trans == PlasmaNoTrans ? PlasmaNoTrans : PlasmaConjTrans)), opx(U, PlasmaConjTrans));
    M E = left ? add(C0, mul(P, C0), X0(-1)) : add(C0, mul(C0, P), X0(-1));
    auto aU = absm(U), aT = absm(opx(Tx, trans == PlasmaNoTrans ? PlasmaNoTrans : PlasmaConjTrans)), aC = absm(C0);
    auto aP = mul(mul(aU, aT), opx(aU, PlasmaTrans));
    auto B = left ? add(aC, mul(aP, aC)) : add(aC, mul(aC, aP));
    for (size_t i = 0; i < E.a.size(); i++)
        require(c, nm + ".result", abs_(E.a[i] - C1.a[i]), 8 * (d1 + q + k) * ulp<T0>() * B.a[i], "element " + S(i));
    c.label(std::string("parfb") + (l == 0 ? " rectangle" : l == k ? " triangle" : " trapezoid") + (left ? " left" : " right") + (col ? " columnwise" : " rowwise"));
    c.nontrivial = k > 1 && l > 0;
}
void k_pemv(Ctx &c)
{
    std::string nm = std::string(1, PC) + "pemv";
    Guard g;
    bool col = c.s.u(2) == 0;
    int trans = col ? c.s.pick({PlasmaConjTrans, PlasmaTrans}) : PlasmaNoTrans;
    int m = dim(c, 8), n = dim(c, 8), l = (int)c.s.u(std::min(m, n) + 1), incx = 1 + c.s.u(3), incy = 1 + c.s.u(3);
    Gen d(c);
    static const double sc[] = {1, 0, -1, 0.5, 3};
    T0 al = mk<T0>(sc[c.s.u(5)], is_cplx<T0> ? sc[1 + c.s.u(4)] : 0), be = mk<T0>(sc[c.s.u(5)], is_cplx<T0> && c.s.u(2) ? 0.25 : 0);
    c.desc << nm << " trans=" << trans << " m=" << m << " n=" << n << " l=" << l << " incx=" << incx << " incy=" << incy << " alpha=" << al << " beta=" << be;
    int nx = col ? m : n, ny = col ? n : m;
    auto &A = g.mat("A", m, n, m + c.s.u(3));
    auto &x = g.mat("x", (nx - 1) * incx + 1, 1, (nx - 1) * incx + 1); auto &y = g.mat("y", (ny - 1) * incy + 1, 1, (ny - 1) * incy + 1);
    auto &w = g.mat("work", l, 1, std::max(l, 1));
    d.fill(A, 1); d.fill(x, 2); d.fill(y, 3);
    int ll = l < 2 ? 0 : l;
    // columnwise: last l rows, first l columns upper triangular; rowwise: last l columns, first l rows lower triangular
    A.access([&](int i, int j) { return col ? (i < m - ll || j >= ll || i - (m - ll) <= j) : (j < n - ll || i >= ll || j - (n - ll) <= i); }, R_);
    for (int i = 0; i < nx; i++) x.at(i * incx, 0) |= R_;
    bool keep = al == T0(0) && be == T0(1);
    for (int i = 0; i < ny; i++) y.at(i * incy, 0) |= (be == T0(0) ? 0 : R_) | (keep ? 0 : W_);
    w.access_all(W_);
    // alpha = 0 does not promise that A and x are left unread: give finite values
    int variant = al == T0(0) ? 1 : (int)c.s.u(3);
    g.arm(variant);
    M X(nx, 1), Y(ny, 1), Ax(m, n);
    for (int i = 0; i < nx; i++) X(i, 0) = tox(x(i * incx, 0));
    for (int i = 0; i < ny; i++) Y(i, 0) = be == T0(0) ? X0(0) : tox(y(i * incy, 0));
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (A.at(i, j)) Ax(i, j) = tox(A(i, j));
    int e = K_(pemv)(trans, col ? PlasmaColumnwise : PlasmaRowwise, m, n, l, cs(al), cp(A.p), A.ld, cp(x.p), incx, cs(be), cp(y.p), incy, cp(w.p));
    if (e) c.fail(nm + ".info", "returned " + S(e));
    g.verify(c, nm);
    M op = opx(Ax, trans), E = mul(op, X);
    auto B = mul(absm(op), absm(X));
    for (int i = 0; i < ny; i++) {
        X0 want = tox(al) * E(i, 0) + tox(be) * Y(i, 0);
        LD b = abs_(al) * B(i, 0) + abs_(be) * abs_(Y(i, 0));
        require(c, nm + ".result", abs_(want - tox(y(i * incy, 0))), 8 * (nx + 4) * ulp<T0>() * b, "y[" + S(i) + "]");
    }
    c.label(std::string("pemv") + (col ? " columnwise" : " rowwise") + (l == 0 ? " rectangle" : l == std::min(m, n) ? " full triangle" : " trapezoid"));
    c.nontrivial = l >= 2;
}
void k_larfb(Ctx &c)
{
    std::string nm = std::string(1, PC) + "larfb_gemm";
    Guard g;
    int side = c.s.pick({PlasmaLeft, PlasmaRight}), trans = c.s.pick({(int)PlasmaNoTrans, (int)PlasmaConjTrans});
    bool left = side == PlasmaLeft;
    int m = dim(c, 7), n = dim(c, 7), q = left ? m : n, k = dim(c, 5);
    c.desc << nm << (left ? " left" : " right") << (trans == PlasmaNoTrans ? " N" : " H") << " m=" << m << " n=" << n << " k=" << k;
    Gen d(c);
    auto &V = g.mat("V", q, k, q + c.s.u(3)); auto &T = g.mat("T", k, k, k + c.s.u(3)); auto &C = g.mat("C", m, n, m + c.s.u(3));
    d.fill(V, 1); d.fill(T, 2); d.fill(C, 3);
    V.access_all(R_); T.access([](int i, int j) { return i <= j; }, R_); C.access_all(R_ | W_);
    int ldw = (left ? n : m) + c.s.u(2);
    auto &w = g.mat("work", ldw, k, ldw);
    for (auto &a : w.acc) a = W_;
    g.arm(c.s.u(3));
    M C0 = C.x(), Vx = V.x(), Tx(k, k);
    for (int j = 0; j < k; j++) for (int i = 0; i <= j; i++) Tx(i, j) = tox(T(i, j));
    int e = K_(larfb_gemm)(side, trans, PlasmaForward, PlasmaColumnwise, m, n, k, cp(V.p), V.ld, cp(T.p), T.ld, cp(C.p), C.ld, cp(w.p), ldw);
    if (e) c.fail(nm + ".info", "returned " + S(e));
    g.verify(c, nm);
    M To = opx(Tx, trans), P = mul(mul(Vx, To), opx(Vx, PlasmaConjTrans));
    M E = left ? add(C0, mul(P, C0), X0(-1)) : add(C0, mul(C0, P), X0(-1)), C1 = C.x();
    auto aV = absm(Vx), aC = absm(C0);
    auto aP = mul(mul(aV, absm(To)), opx(aV, PlasmaTrans));
    auto B = left ? add(aC, mul(aP, aC)) : add(aC, mul(aC, aP));
    for (size_t i = 0; i < E.a.size(); i++) require(c, nm + ".result", abs_(E.a[i] - C1.a[i]), 8 * (2 * q + k + 4) * ulp<T0>() * B.a[i], "element " + S(i));
    c.label(std::string("larfb_gemm") + (left ? " left" : " right"));
    c.nontrivial = k > 1;
}
// ---------------------------------------------------------------- scaled sums of squares
void k_ssq(Ctx &c)
{
    Guard g;
    int which = (int)c.s.u(is_cplx<T0> ? 4 : 3);
    static const char *nms[] = {"gessq", "syssq", "trssq", "hessq"};
    std::string nm = std::string(1, PC) + nms[which];
    int uplo = c.s.pick({PlasmaLower, PlasmaUpper}), diag = c.s.pick({PlasmaNonUnit, PlasmaUnit});
    int m = dim(c, 8), n = which == 1 || which == 3 ? m : dim(c, 8);
    int ex = (int)c.s.u(5), start = (int)c.s.u(3);
    if (which == 1 || which == 3) start = 0;               // the symmetric kernels start from an empty sum
    c.desc << nm << " uplo=" << uplo << " diag=" << diag << " m=" << m << " n=" << n << " scaleclass=" << ex << " start=" << start;
    Gen d(c);
    // magnitudes far outside the range whose squares are representable
    bool sp = sizeof(R0) == 4;
    double s0 = ex == 0 || ex == 1 ? 1 : ex == 2 ? (sp ? 1e30 : 1e250) : ex == 3 ? (sp ? 1e-30 : 1e-250) : (sp ? 1e10 : 1e100);
    auto &A = g.mat("A", m, n, m + c.s.u(3));
    d.fill(A, 1);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A(i, j) *= (R0)s0;
    if (which == 0) A.access_all(R_);
    else A.access([&](int i, int j) { if (i == j && which == 2 && diag == PlasmaUnit) return false; return uplo == PlasmaUpper ? i <= j : i >= j; }, R_);
    // imaginary parts on the diagonal of a Hermitian tile do not count
    if (which == 3) for (int i = 0; i < m; i++) A(i, i) = c.s.u(2) ? mk<T0>((double)re_(A(i, i)), 0) : A(i, i);
    auto &r = g.rmat("scale,sumsq", 2, 1, 2);
    r.access_all(R_ | W_);
    r(0, 0) = start == 0 ? 0 : start == 1 ? (R0)s0 : (R0)(s0 * 16);
    r(1, 0) = start == 0 ? 1 : (R0)3;
    g.arm(c.s.u(3));
    LD sum = (LD)r(0, 0) * r(0, 0) * r(1, 0);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            LD w;
            if (which == 0) w = 1;
            else if (which == 2) { if (i == j && diag == PlasmaUnit) { sum += 1; continue; } w = A.at(i, j) ? 1 : 0; }
            else w = i == j ? 1 : A.at(i, j) ? 2 : 0;
            if (w == 0) continue;
            X0 v = tox(A(i, j));
            LD re = re_(v), im = which == 3 && i == j ? 0 : im_(v);
            sum += w * (re * re + im * im);
        }
    R0 *sc = r.p, *sq = r.p + 1;
    switch (which) {
    case 0: K_(gessq)(m, n, cp(A.p), A.ld, sc, sq); break;
    case 1: K_(syssq)(uplo, n, cp(A.p), A.ld, sc, sq); break;
    case 2: K_(trssq)(uplo, diag, m, n, cp(A.p), A.ld, sc, sq); break;
    default:
#if PREC >= 3
        K_(hessq)(uplo, n, cp(A.p), A.ld, sc, sq);
#endif
        break;
    }
    g.verify(c, nm);
    LD got = (LD)*sc * std::sqrt((LD)*sq), want = std::sqrt(sum);
    if (!(*sq >= 0) || !std::isfinite((double)*sc) || !std::isfinite((double)*sq)) c.fail(nm + ".result", "scale=" + std::to_string(*sc) + " sumsq=" + std::to_string(*sq));
    require(c, nm + ".result", std::fabs(got - want), 8 * (m * n + 8) * ulp<T0>() * want, "scale*sqrt(sumsq) differs from the norm");
    c.label(nms[which] + std::string(ex == 2 ? " huge" : ex == 3 ? " tiny" : "") + (start ? " accumulated" : ""));
    c.nontrivial = m > 1 && n > 1;
}
// ---------------------------------------------------------------- elementwise kernels on rectangular tiles
void k_elem(Ctx &c)
{
    Guard g;
    int which = (int)c.s.u(5);
    static const char *nms[] = {"geadd", "tradd", "lacpy", "laset", "lascl"};
    std::string nm = std::string(1, PC) + nms[which];
    int uplo = which == 1 ? c.s.pick({PlasmaLower, PlasmaUpper}) : c.s.pick({PlasmaGeneral, PlasmaLower, PlasmaUpper});
    int trans = c.s.pick({PlasmaNoTrans, PlasmaTrans, PlasmaConjTrans});
    int m = dim(c, 8), n = dim(c, 8);
    Gen d(c);
    static const double sc[] = {1, 0, -1, 0.5, 3};
    T0 al = mk<T0>(sc[c.s.u(5)], is_cplx<T0> ? sc[1 + c.s.u(4)] : 0), be = mk<T0>(sc[c.s.u(5)], is_cplx<T0> && c.s.u(2) ? 0.25 : 0);
    c.desc << nm << " uplo=" << uplo << " trans=" << trans << " m=" << m << " n=" << n << " alpha=" << al << " beta=" << be;
    auto inU = [&](int i, int j) { return uplo == PlasmaGeneral || (uplo == PlasmaUpper ? i <= j : i >= j); };
    if (which <= 1) {
        auto &A = g.mat("A", trans == PlasmaNoTrans ? m : n, trans == PlasmaNoTrans ? n : m, (trans == PlasmaNoTrans ? m : n) + c.s.u(3));
        auto &B = g.mat("B", m, n, m + c.s.u(3));
        d.fill(A, 1); d.fill(B, 2);
        if (which == 0) uplo = PlasmaGeneral;
        bool tr = trans != PlasmaNoTrans;
        A.access([&](int i, int j) { return inU(tr ? j : i, tr ? i : j); }, R_);
        B.access(inU, R_ | W_);
        g.arm(c.s.u(3));
        M A0 = A.x(), B0 = B.x();
        int e = which == 0 ? K_(geadd)(trans, m, n, cs(al), cp(A.p), A.ld, cs(be), cp(B.p), B.ld) : K_(tradd)(uplo, trans, m, n, cs(al), cp(A.p), A.ld, cs(be), cp(B.p), B.ld);
        if (e) c.fail(nm + ".info", "returned " + S(e));
        g.verify(c, nm);
        M op = opx(A0, trans);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (inU(i, j)) {
            X0 want = tox(al) * op(i, j) + tox(be) * B0(i, j);
            LD b = abs_(al) * abs_(op(i, j)) + abs_(be) * abs_(B0(i, j));
            require(c, nm + ".result", abs_(want - tox(B(i, j))), 8 * ulp<T0>() * b, "B(" + S(i) + "," + S(j) + ")");
        }
    }
    else if (which == 2) {
        bool tr = trans != PlasmaNoTrans;
        auto &A = g.mat("A", m, n, m + c.s.u(3)); auto &B = g.mat("B", tr ? n : m, tr ? m : n, (tr ? n : m) + c.s.u(3));
        d.fill(A, 1);
        A.access(inU, R_);
        B.access([&](int i, int j) { return inU(tr ? j : i, tr ? i : j); }, W_);
        g.arm(c.s.u(3));
        M A0 = A.x();
        K_(lacpy)(uplo, trans, m, n, cp(A.p), A.ld, cp(B.p), B.ld);
        g.verify(c, nm);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (inU(i, j)) {
            X0 want = trans == PlasmaConjTrans ? conj_(A0(i, j)) : A0(i, j);
            if (!(tox(tr ? B(j, i) : B(i, j)) == want)) c.fail(nm + ".result", "element (" + S(i) + "," + S(j) + ") not copied");
        }
    }
    else if (which == 3) {
        auto &A = g.mat("A", m, n, m + c.s.u(2));
        bool zero = c.s.u(3) == 0;
        if (zero) al = be = T0(0);
        A.access(inU, W_);
        // only the leading min(m,n) diagonal elements receive beta
        g.arm(c.s.u(3));
        K_(laset)(uplo, m, n, cs(al), cs(be), cp(A.p), A.ld);
        g.verify(c, nm);
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (inU(i, j)) if (!(A(i, j) == (i == j ? be : al))) c.fail(nm + ".result", "element (" + S(i) + "," + S(j) + ")");
    }
    else {
        auto &A = g.mat("A", m, n, m + c.s.u(3));
        d.fill(A, 1);
        A.access(inU, R_ | W_);
        bool sp = sizeof(R0) == 4;
        int e1 = (int)c.s.u(5), e2 = (int)c.s.u(5);
        static const double ed[] = {1, 4, 1e200, 1e-200, 3}, es[] = {1, 4, 1e25, 1e-25, 3};
        double f = (R0)(sp ? es[e1] : ed[e1]), t = (R0)(sp ? es[e2] : ed[e2]);
        c.desc << " cfrom=" << f << " cto=" << t;
        g.arm(c.s.u(3));
        M A0 = A.x();
        K_(lascl)(uplo, (R0)f, (R0)t, m, n, cp(A.p), A.ld);
        g.verify(c, nm);
        LD big = std::numeric_limits<R0>::max(), tinyv = std::numeric_limits<R0>::min();
        for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (inU(i, j)) {
            X0 want = A0(i, j) * X0((LD)t) / X0((LD)f);
            if (abs1_(want) > big / 4) continue;
            require(c, nm + ".result", abs_(want - tox(A(i, j))), 32 * ulp<T0>() * abs_(want) + 4 * tinyv, "element (" + S(i) + "," + S(j) + ")");
        }
    }
    c.label(nms[which] + std::string(m > n ? " tall" : m < n ? " wide" : " square"));
    c.nontrivial = m != n || trans != PlasmaNoTrans;
}
// ---------------------------------------------------------------- tile norms
void k_norm(Ctx &c)
{
    Guard g;
    int which = (int)c.s.u(is_cplx<T0> ? 4 : 3);
    static const char *nms[] = {"lange", "lansy", "lantr", "lanhe"};
    std::string nm = std::string(1, PC) + nms[which];
    int norm = c.s.pick({PlasmaMaxNorm, PlasmaOneNorm, PlasmaInfNorm, PlasmaFrobeniusNorm});
    int uplo = c.s.pick({PlasmaLower, PlasmaUpper}), diag = c.s.pick({PlasmaNonUnit, PlasmaUnit});
    int m = dim(c, 8), n = which == 1 || which == 3 ? m : dim(c, 8);
    c.desc << nm << " norm=" << norm << " uplo=" << uplo << " diag=" << diag << " m=" << m << " n=" << n;
    Gen d(c);
    auto &A = g.mat("A", m, n, m + c.s.u(3));
    d.fill(A, 1);
    if (which == 0) A.access_all(R_);
    else A.access([&](int i, int j) { if (i == j && which == 2 && diag == PlasmaUnit) return false; return uplo == PlasmaUpper ? i <= j : i >= j; }, R_);
    int wl = std::max(m, n);
    auto &w = g.rmat("work", wl, 1, wl); auto &v = g.rmat("value", 1, 1, 1);
    w.access_all(W_); v.access_all(W_);
    g.arm(c.s.u(3));
    DM<LD> B(m, n);
    for (int j = 0; j < n; j++)
        for (int i = 0; i < m; i++) {
            bool unit = which == 2 && i == j && diag == PlasmaUnit;
            bool st = A.at(i, j) & R_;
            if (unit) B(i, j) = 1;
            else if (st) B(i, j) = which == 3 && i == j ? std::fabs((LD)re_(tox(A(i, j)))) : abs_(A(i, j));
            else if (which == 1 || which == 3) B(i, j) = abs_(A(j, i));
        }
    switch (which) {
    case 0: K_(lange)(norm, m, n, cp(A.p), A.ld, w.p, v.p); break;
    case 1: K_(lansy)(norm, uplo, n, cp(A.p), A.ld, w.p, v.p); break;
    case 2: K_(lantr)(norm, uplo, diag, m, n, cp(A.p), A.ld, w.p, v.p); break;
    default:
#if PREC >= 3
        K_(lanhe)(norm, uplo, n, cp(A.p), A.ld, w.p, v.p);
#endif
        break;
    }
    g.verify(c, nm);
    LD want = 0;
    if (norm == PlasmaMaxNorm) want = maxabs(B);
    else if (norm == PlasmaOneNorm) want = one(B);
    else if (norm == PlasmaInfNorm) want = one(opx(B, PlasmaTrans));
    else want = fro(B);
    require(c, nm + ".result", std::fabs(want - (LD)v(0, 0)), 8 * (m + n + 8) * ulp<T0>() * want, "norm");
    c.label(nms[which]);
    c.nontrivial = m > 1 && n > 1;
}
// ---------------------------------------------------------------- row and column exchanges on tiled matrices
void k_geswp(Ctx &c)
{
    std::string nm = std::string(1, PC) + "geswp";
    int nb = 1 + (int)c.s.u(4), m = dim(c, 7), n = dim(c, 7);
    bool row = c.s.u(2) == 0, fwd = c.s.u(2) == 0;
    int len = row ? m : n, other = row ? n : m;
    if (!row && m > nb) { m = nb; other = m; }          // columns are exchanged within one tile row
    if (row && n > nb) { n = nb; other = n; }           // rows within one tile column
    int k1 = 1 + (int)c.s.u(len), k2 = k1 + (int)c.s.u(len - k1 + 1);
    c.desc << nm << (row ? " rows" : " columns") << (fwd ? " forward" : " backward") << " m=" << m << " n=" << n << " nb=" << nb << " k1=" << k1 << " k2=" << k2;
    (void)other;
    rt::configure(rt::Sched());
    plasma_init();
    D A;
    int pr = PREC == 1 ? PlasmaRealFloat : PREC == 2 ? PlasmaRealDouble : PREC == 3 ? PlasmaComplexFloat : PlasmaComplexDouble;
    if (plasma_desc_general_create((plasma_enum_t)pr, nb, nb, m, n, 0, 0, m, n, &A)) c.fail(nm + ".create", "descriptor");
    auto at = [&](int i, int j) -> T0 & {
        int ld = plasma_tile_mmain(A, i / nb);
        return ((T0 *)plasma_tile_addr(A, i / nb, j / nb))[i % nb + (size_t)(j % nb) * ld];
    };
    std::vector<int> lab((size_t)m * n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) at(i, j) = mk<T0>(i * 100 + j, is_cplx<T0> ? j : 0);
    int *piv = (int *)rt::guarded(len * sizeof(int));
    std::vector<int> perm(len);
    for (int i = 0; i < len; i++) perm[i] = i;
    for (int i = 0; i < len; i++) piv[i] = 1 + (c.s.u(2) ? i : (int)c.s.u(len));
    for (int t = k1 - 1; t < k2; t++) { int i = fwd ? t : k1 - 1 + k2 - 1 - t; std::swap(perm[i], perm[piv[i] - 1]); }
    K_(geswp)(row ? PlasmaRowwise : PlasmaColumnwise, A, k1, k2, piv, fwd ? 1 : -1);
    std::string bad;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        int si = row ? perm[i] : i, sj = row ? j : perm[j];
        if (at(i, j) != mk<T0>(si * 100 + sj, is_cplx<T0> ? sj : 0)) bad = "element (" + S(i) + "," + S(j) + ") is not the one the interchanges put there";
    }
    plasma_desc_destroy(&A);
    plasma_finalize();
    if (!bad.empty()) c.fail(nm + ".result", bad);
    c.label(std::string("geswp") + (row ? " rows" : " columns") + (fwd ? "" : " backward"));
    c.nontrivial = len > nb && k2 > k1;
}
// ---------------------------------------------------------------- tile BLAS and LAPACK kernels
void k_blas(Ctx &c)
{
    Guard g;
    enum { GEMM, SYMM, HEMM, SYRK, HERK, SYR2K, HER2K, TRMM, TRSM, TRTRI, LAUUM, POTRF, HEGST, NW };
    static const char *nms[] = {"gemm", "symm", "hemm", "syrk", "herk", "syr2k", "her2k", "trmm", "trsm", "trtri", "lauum", "potrf", "hegst"};
    int which = (int)c.s.u(NW);
    if (!is_cplx<T0>) which = which == HEMM ? SYMM : which == HERK ? SYRK : which == HER2K ? SYR2K : which;
    std::string nm = std::string(1, PC) + (which == HEGST && !is_cplx<T0> ? "sygst" : nms[which]);
    bool herm = which == HEMM || which == HERK || which == HER2K || which >= LAUUM;
    const int CTt = PlasmaConjTrans;
    int side = c.s.pick({PlasmaLeft, PlasmaRight}), uplo = c.s.pick({PlasmaLower, PlasmaUpper}), diag = c.s.pick({PlasmaNonUnit, PlasmaUnit});
    int ta = c.s.pick({(int)PlasmaNoTrans, (int)PlasmaTrans, CTt}), tb = c.s.pick({(int)PlasmaNoTrans, (int)PlasmaTrans, CTt}), itype = 1 + (int)c.s.u(3);
    if (which == HERK || which == HER2K) { if (ta == PlasmaTrans) ta = CTt; }
    else if (which == SYRK || which == SYR2K) { if (ta == CTt) ta = PlasmaTrans; }
    int m = dim(c, 8), n = dim(c, 8), k = dim(c, 8);
    c.desc << nm << " side=" << side << " uplo=" << uplo << " diag=" << diag << " transa=" << ta << " transb=" << tb << " m=" << m << " n=" << n << " k=" << k << " itype=" << itype;
    Gen d(c);
    T0 al = d.v(91, 0, 0), be = d.v(92, 0, 0);
    switch (c.s.u(5)) { case 0: al = T0(0); break; case 1: al = T0(1); break; case 2: be = T0(0); break; case 3: be = T0(1); break; default: break; }
    if (which == HERK) al = T0(std::real(al));
    if (which == HERK || which == HER2K) be = T0(std::real(be));
    bool left = side == PlasmaLeft, tra = ta != PlasmaNoTrans, trb = tb != PlasmaNoTrans;
    auto tri = [&](int i, int j) { return uplo == PlasmaUpper ? i <= j : i >= j; };
    auto full = [&](Mat<T0> &A, bool h) {       // Hermitian or symmetric matrix of the stored triangle
        M F(A.m, A.m);
        for (int j = 0; j < A.m; j++) for (int i = 0; i < A.m; i++) {
            X0 v = tri(i, j) ? tox(A(i, j)) : h ? conj_(tox(A(j, i))) : tox(A(j, i));
            F(i, j) = h && i == j ? X0(re_(v)) : v;
        }
        return F;
    };
    auto trim = [&](Mat<T0> &A, int ul, bool unit) {
        M F(A.m, A.m);
        for (int j = 0; j < A.m; j++) for (int i = 0; i < A.m; i++)
            F(i, j) = i == j && unit ? X0(1) : (ul == PlasmaUpper ? i <= j : i >= j) ? tox(A(i, j)) : X0(0);
        return F;
    };
    auto ld = [&](int r) { return r + (int)c.s.u(3); };
    auto cmp = [&](const M &E, const DM<LD> &B, Mat<T0> &C, LD f, bool triangle) {
        for (int j = 0; j < C.n; j++) for (int i = 0; i < C.m; i++)
            if (!triangle || tri(i, j)) require(c, nm + ".result", abs_(E(i, j) - tox(C(i, j))), f * ulp<T0>() * B(i, j), "element (" + S(i) + "," + S(j) + ")");
    };
    int e = 0;
    if (which <= HER2K) {
        bool rk = which >= SYRK;
        int am, an, bm = 0, bn = 0, cm = m, cn = n;
        if (which == GEMM) { am = tra ? k : m; an = tra ? m : k; bm = trb ? n : k; bn = trb ? k : n; }
        else if (!rk) { am = an = left ? m : n; bm = m; bn = n; }
        else { am = tra ? k : n; an = tra ? n : k; cm = cn = n; if (which >= SYR2K) { bm = am; bn = an; } }
        auto &A = g.mat("A", am, an, ld(am)); auto &C = g.mat("C", cm, cn, ld(cm));
        Mat<T0> *B = bm ? &g.mat("B", bm, bn, ld(bm)) : nullptr;
        d.fill(A, 1); d.fill(C, 3);
        if (B) { d.fill(*B, 2); B->access_all(R_); }
        if (!rk && which != GEMM) A.access(tri, R_); else A.access_all(R_);
        int cr = be == T0(0) ? W_ : R_ | W_;
        if (rk) C.access(tri, cr); else C.access_all(cr);
        if (herm && rk) for (int i = 0; i < n; i++) C(i, i) = T0(std::real(C(i, i)));
        g.arm(al == T0(0) ? 1 : (int)c.s.u(3));
        M Ax = !rk && which != GEMM ? full(A, herm) : A.x(), Bx, C0(cm, cn);
        if (B) Bx = B->x();
        for (int j = 0; j < cn; j++) for (int i = 0; i < cm; i++) C0(i, j) = be == T0(0) || !C.at(i, j) ? X0(0) : tox(C(i, j));
        M P;
        DM<LD> Q;
        auto acc = [&](const M &X, const M &Y, X0 s) {
            M p = mul(X, Y);
            auto q = mul(absm(X), absm(Y));
            if (!P.m) { P = M(cm, cn); Q = DM<LD>(cm, cn); }
            for (size_t i = 0; i < p.a.size(); i++) { P.a[i] += s * p.a[i]; Q.a[i] += abs_(s) * q.a[i]; }
        };
        X0 a = tox(al);
        switch (which) {
        case GEMM: acc(opx(Ax, ta), opx(Bx, tb), a); K_(gemm)((plasma_enum_t)ta, (plasma_enum_t)tb, m, n, k, cs(al), cp(A.p), A.ld, cp(B->p), B->ld, cs(be), cp(C.p), C.ld); break;
        case SYMM: if (left) acc(Ax, Bx, a); else acc(Bx, Ax, a); K_(symm)((plasma_enum_t)side, (plasma_enum_t)uplo, m, n, cs(al), cp(A.p), A.ld, cp(B->p), B->ld, cs(be), cp(C.p), C.ld); break;
        case SYRK: acc(opx(Ax, ta), opx(opx(Ax, ta), PlasmaTrans), a); K_(syrk)((plasma_enum_t)uplo, (plasma_enum_t)ta, n, k, cs(al), cp(A.p), A.ld, cs(be), cp(C.p), C.ld); break;
        case SYR2K: acc(opx(Ax, ta), opx(opx(Bx, ta), PlasmaTrans), a); acc(opx(Bx, ta), opx(opx(Ax, ta), PlasmaTrans), a);
            K_(syr2k)((plasma_enum_t)uplo, (plasma_enum_t)ta, n, k, cs(al), cp(A.p), A.ld, cp(B->p), B->ld, cs(be), cp(C.p), C.ld); break;
#if PREC >= 3
        case HEMM: if (left) acc(Ax, Bx, a); else acc(Bx, Ax, a); K_(hemm)((plasma_enum_t)side, (plasma_enum_t)uplo, m, n, cs(al), cp(A.p), A.ld, cp(B->p), B->ld, cs(be), cp(C.p), C.ld); break;
        case HERK: acc(opx(Ax, ta), opx(opx(Ax, ta), CTt), a); K_(herk)((plasma_enum_t)uplo, (plasma_enum_t)ta, n, k, (R0)std::real(al), cp(A.p), A.ld, (R0)std::real(be), cp(C.p), C.ld); break;
        case HER2K: acc(opx(Ax, ta), opx(opx(Bx, ta), CTt), a); acc(opx(Bx, ta), opx(opx(Ax, ta), CTt), conj_(a));
            K_(her2k)((plasma_enum_t)uplo, (plasma_enum_t)ta, n, k, cs(al), cp(A.p), A.ld, cp(B->p), B->ld, (R0)std::real(be), cp(C.p), C.ld); break;
#endif
        }
        g.verify(c, nm);
        for (size_t i = 0; i < P.a.size(); i++) { P.a[i] += tox(be) * C0.a[i]; Q.a[i] += abs_(be) * abs_(C0.a[i]); }
        cmp(P, Q, C, 8 * ((which == GEMM || rk ? 2 * k : left ? m : n) + 6), rk);
        c.nontrivial = m > 1 && n > 1;
    }
    else if (which == TRMM || which == TRSM) {
        int q = left ? m : n;
        auto &A = g.mat("A", q, q, ld(q)); auto &B = g.mat("B", m, n, ld(m));
        d.fill(A, 1); d.fill(B, 2);
        if (which == TRSM) for (int j = 0; j < q; j++) for (int i = 0; i < q; i++) A(i, j) = i == j ? fromx(tox(A(i, j)) + X0(d.kind == 2 ? 300 : 5)) : fromx(tox(A(i, j)) * X0(0.125));
        A.access([&](int i, int j) { return tri(i, j) && !(i == j && diag == PlasmaUnit); }, R_);
        B.access_all(R_ | W_);
        g.arm(al == T0(0) ? 1 : (int)c.s.u(3));
        M Ax = trim(A, uplo, diag == PlasmaUnit), B0 = B.x(), op = opx(Ax, ta);
        if (which == TRMM) {
            K_(trmm)((plasma_enum_t)side, (plasma_enum_t)uplo, (plasma_enum_t)ta, (plasma_enum_t)diag, m, n, cs(al), cp(A.p), A.ld, cp(B.p), B.ld);
            g.verify(c, nm);
            M P = left ? mul(op, B0) : mul(B0, op);
            auto Q = left ? mul(absm(op), absm(B0)) : mul(absm(B0), absm(op));
            for (size_t i = 0; i < P.a.size(); i++) { P.a[i] *= tox(al); Q.a[i] *= abs_(al); }
            cmp(P, Q, B, 8 * (q + 6), false);
        }
        else {
            K_(trsm)((plasma_enum_t)side, (plasma_enum_t)uplo, (plasma_enum_t)ta, (plasma_enum_t)diag, m, n, cs(al), cp(A.p), A.ld, cp(B.p), B.ld);
            g.verify(c, nm);
            M X = B.x(), P = left ? mul(op, X) : mul(X, op);
            auto Q = left ? mul(absm(op), absm(X)) : mul(absm(X), absm(op));
            for (size_t i = 0; i < P.a.size(); i++) {
                LD b = 16 * (q + 6) * ulp<T0>() * (Q.a[i] + abs_(al) * abs_(B0.a[i]));
                require(c, nm + ".result", abs_(P.a[i] - tox(al) * B0.a[i]), b, "residual " + S((long)i));
            }
        }
        c.nontrivial = q > 1;
    }
    else {
        auto &A = g.mat("A", n, n, ld(n));
        Mat<T0> *B = which == HEGST ? &g.mat("B", n, n, ld(n)) : nullptr;
        d.fill(A, 1);
        auto dominate = [&](Mat<T0> &X, bool real) {
            for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
                X(i, j) = i == j ? fromx((real ? X0(std::fabs(re_(tox(X(i, j))))) : tox(X(i, j))) + X0((d.kind == 2 ? 300 : 5) + (which == POTRF ? n : 0))) : fromx(tox(X(i, j)) * X0(0.125));
        };
        bool unit = which == TRTRI && diag == PlasmaUnit;
        if (which == TRTRI) dominate(A, false);
        if (which == POTRF) dominate(A, true);
        if (which == LAUUM || which == HEGST) for (int i = 0; i < n; i++) A(i, i) = T0(std::real(A(i, i)));
        A.access([&](int i, int j) { return tri(i, j) && !(unit && i == j); }, R_ | W_);
        if (B) { d.fill(*B, 2); dominate(*B, true); B->access(tri, R_); }
        g.arm(c.s.u(3));
        M A0 = which == HEGST || which == POTRF ? full(A, true) : trim(A, uplo, unit), H;
        auto check = [&](const M &P, const M &W, const DM<LD> &Q, LD f, const char *what) {
            for (int j = 0; j < n; j++) for (int i = 0; i < n; i++)
                if (tri(i, j)) require(c, nm + ".result", abs_(P(i, j) - W(i, j)), f * ulp<T0>() * (Q(i, j) + abs_(W(i, j))), std::string(what) + " (" + S(i) + "," + S(j) + ")");
        };
        if (which == TRTRI) {
            e = K_(trtri)((plasma_enum_t)uplo, (plasma_enum_t)diag, n, cp(A.p), A.ld);
            g.verify(c, nm);
            M X = trim(A, uplo, unit), P = mul(X, A0);
            // either X A or A X is close to the identity; both are for a dominant matrix
            check(P, eye<X0>(n), mul(absm(X), absm(A0)), 64 * (n + 6), "inverse times matrix");
        }
        else if (which == LAUUM) {
            e = K_(lauum)((plasma_enum_t)uplo, n, cp(A.p), A.ld);
            g.verify(c, nm);
            M T = opx(A0, CTt), W = uplo == PlasmaUpper ? mul(A0, T) : mul(T, A0);
            auto Q = uplo == PlasmaUpper ? mul(absm(A0), absm(T)) : mul(absm(T), absm(A0));
            check(trim(A, uplo, false), W, Q, 8 * (n + 6), "product");
        }
        else if (which == POTRF) {
            e = K_(potrf)((plasma_enum_t)uplo, n, cp(A.p), A.ld);
            g.verify(c, nm);
            M F = trim(A, uplo, false), T = opx(F, CTt), P = uplo == PlasmaUpper ? mul(T, F) : mul(F, T);
            auto Q = uplo == PlasmaUpper ? mul(absm(T), absm(F)) : mul(absm(F), absm(T));
            check(P, A0, Q, 16 * (n + 6), "product of the factors");
            for (int i = 0; i < n; i++) if (!(re_(F(i, i)) > 0) || im_(F(i, i)) != 0) c.fail(nm + ".result", "diagonal of the factor is not positive");
        }
        else {
#if PREC >= 3
            e = K_(hegst)(itype, (plasma_enum_t)uplo, n, cp(A.p), A.ld, cp(B->p), B->ld);
#else
            e = K_(sygst)(itype, (plasma_enum_t)uplo, n, cp(A.p), A.ld, cp(B->p), B->ld);
#endif
            g.verify(c, nm);
            M F = trim(*B, uplo, false), L = uplo == PlasmaUpper ? opx(F, CTt) : F, LH = opx(L, CTt), R = full(A, true);
            // itype 1: L R L^H = A;  otherwise R = L^H A L
            if (itype == 1) {
                M P = mul(mul(L, R), LH);
                require(c, nm + ".result", fro(add(P, A0, X0(-1))), 64 * (n + 6) * ulp<T0>() * (fro(L) * fro(L) * fro(R) + fro(A0)), "reduced problem");
            }
            else {
                M P = mul(mul(LH, A0), L);
                require(c, nm + ".result", fro(add(P, R, X0(-1))), 64 * (n + 6) * ulp<T0>() * fro(L) * fro(L) * fro(A0), "reduced problem");
            }
        }
        c.nontrivial = n > 1;
    }
    if (e) c.fail(nm + ".info", "returned " + S(e));
    c.label(nms[which]);
}
RegKern r1({"qr", PC, 8, k_qr});
RegKern r2({"parfb", PC, 3, k_parfb});
RegKern r3({"pemv", PC, 2, k_pemv});
RegKern r4({"larfb_gemm", PC, 1, k_larfb});
RegKern r5({"ssq", PC, 2, k_ssq});
RegKern r6({"elem", PC, 3, k_elem});
RegKern r7({"norm", PC, 1, k_norm});
RegKern r8({"geswp", PC, 2, k_geswp});
RegKern r9({"blas", PC, 3, k_blas});
}

// C20: programs of asynchronous tile calls against the same calls made one after another through the synchronous interface.
#include "lib.h"

namespace {
enum { GEMM, SYMM, HEMM, SYRK, SYR2K, TRMM, TRSM, GEADD, TRADD, LACPY, LASET, LASCL, LAUUM, TRTRI, POTRF, POTRS, POSV, POTRI, POINV, GETRF, GETRS, GESV, GETRI, GEINV, GESWP, GEQRF, GELQF, UNGQR, UNGLQ, UNMQR, UNMLQ, LANGE, LANSY, LANHE, LANTR, HERK, HER2K, GEQRS, GELQS, NOPS };
const char *NM[] = {"gemm", "symm", "hemm", "syrk", "syr2k", "trmm", "trsm", "geadd", "tradd", "lacpy", "laset", "lascl", "lauum", "trtri", "potrf", "potrs", "posv", "potri", "poinv", "getrf", "getrs", "gesv", "getri", "geinv", "geswp", "geqrf", "gelqf", "ungqr", "unglq", "unmqr", "unmlq", "lange", "lansy", "lanhe", "lantr", "herk", "her2k", "geqrs", "gelqs"};
struct Call { int op, a, b, c, e1, e2, e3, e4; double al, be; int evil = 0; int v = 0, w = 0, q = 0; };
std::string str(const Call &k)
{
    char b[160];
    snprintf(b, sizeof b, "%s(%d,%d,%d;%d,%d,%d,%d;%g,%g)%s", NM[k.op], k.a, k.b, k.c, k.e1, k.e2, k.e3, k.e4, k.al, k.be, k.evil ? (" illegal" + std::to_string(k.evil)).c_str() : "");
    if (k.q) return std::string(b) + "@" + std::to_string(k.v) + "-" + std::to_string(k.w) + ":" + std::to_string(k.q - 1);
    if (k.v || k.w) return std::string(b) + "@" + std::to_string(k.v) + "-" + std::to_string(k.w);
    return b;
}
const int NM_ = 4;        // square matrices 0..3, right-hand sides 4 and 5
template<class T> struct State {
    int n, nr;
    T *m[6];
    int *ip[NM_];
    RT<T> val[16];
    int cols(int k) const { return k < NM_ ? n : nr; }
    void alloc()
    {
        for (int k = 0; k < 6; k++) m[k] = (T *)rt::guarded(sizeof(T) * n * cols(k));
        for (int k = 0; k < NM_; k++) ip[k] = (int *)rt::guarded(sizeof(int) * n);
        for (auto &v : val) v = -7;
    }
    void copy(const State &o)
    {
        for (int k = 0; k < 6; k++) memcpy((void *)m[k], o.m[k], sizeof(T) * n * cols(k));
        for (int k = 0; k < NM_; k++) memcpy(ip[k], o.ip[k], sizeof(int) * n);
        memcpy(val, o.val, sizeof val);
    }
};
template<class T> struct Runner {
    Ctx &c;
    Cfg g;
    State<T> st;
    D A[6], Td[NM_], W;
    bool hasT[NM_] = {};
    Ws ws;
    std::vector<RT<T> *> work;
    bool async;
    Runner(Ctx &c_) : c(c_) {}
    // synchronous interface on LAPACK arrays
    int sync(const Call &k, int step)
    {
        typedef P<T> F;
        int ld = st.n, o = k.v * g.nb, n = ld - o - k.w;     // sub-matrices that start at tile (v,v) and leave out the last w rows and columns
        T al = mk<T>(k.al, 0), be = mk<T>(k.be, 0);
        auto sub = [&](int x) { return st.m[x] + o + (x < NM_ ? (size_t)o * ld : 0); };
        auto cols = [&](int x) { return x < NM_ ? n : st.nr; };
        T *a = sub(k.a), *b = sub(k.b), *cc = sub(k.c);
        int na = cols(k.a), nb = cols(k.b), nc = cols(k.c);
        // rectangular operands: q restricts the inner dimension, or the columns, or with the matrix on the right the rows
        int q = k.q ? std::min(k.q - 1, n) : n, sl = (k.op == TRMM || k.op == TRSM ? nb : nc) == n ? k.e1 : (int)PlasmaLeft;
        auto qc = [&](int x) { return k.q ? std::min(q, x) : x; };
        auto qm = [&](int) { return sl == PlasmaLeft ? n : q; };
        auto qn = [&](int x) { return sl == PlasmaLeft ? qc(x) : n; };
        switch (k.op) {
        case GEMM: return F::gemm(k.e1, k.b < NM_ ? k.e2 : PlasmaNoTrans, n, nc, q, al, a, ld, b, ld, be, cc, ld);
        case SYMM: return F::symm(sl, k.e2, qm(nc), qn(nc), al, a, ld, b, ld, be, cc, ld);
        case HEMM: return F::hemm(sl, k.e2, qm(nc), qn(nc), al, a, ld, b, ld, be, cc, ld);
        case SYRK: return F::syrk(k.e2, k.e1, n, q, al, a, ld, be, cc, ld);
        case SYR2K: return F::syr2k(k.e2, k.e1, n, q, al, a, ld, b, ld, be, cc, ld);
        case TRMM: return F::trmm(sl, k.e2, k.e3, k.e4, qm(nb), qn(nb), al, a, ld, b, ld);
        case TRSM: return F::trsm(sl, k.e2, k.e3, k.e4, qm(nb), qn(nb), al, a, ld, b, ld);
        case GEADD: return F::geadd(k.e1, n, k.e1 == PlasmaNoTrans ? qc(n) : n, al, a, ld, be, b, ld);
        case TRADD: return F::tradd(k.e2, k.e1, n, k.e1 == PlasmaNoTrans ? qc(n) : n, al, a, ld, be, b, ld);
        case LACPY: return F::lacpy(k.e2, PlasmaNoTrans, n, qc(nb), a, ld, b, ld);
        case LASET: return F::laset(k.e2, n, qc(na), al, be, a, ld);
        case LASCL: return F::lascl(k.e2, 2.0, 1.0, n, qc(na), a, ld);
        case LAUUM: return F::lauum(k.e2, n, a, ld);
        case TRTRI: return F::trtri(k.e2, k.e4, n, a, ld);
        case POTRF: return F::potrf(k.e2, n, a, ld);
        case POTRS: return F::potrs(k.e2, n, qc(nb), a, ld, b, ld);
        case POSV: return F::posv(k.e2, n, qc(nb), a, ld, b, ld);
        case POTRI: return F::potri(k.e2, n, a, ld);
        case POINV: return F::poinv(k.e2, n, a, ld);
        case GETRF: return F::getrf(n, n, a, ld, st.ip[k.a]);
        case GETRS: return F::getrs(k.e1, n, qc(nb), a, ld, st.ip[k.a], b, ld);
        case GESV: return F::gesv(n, qc(nb), a, ld, st.ip[k.a], b, ld);
        case GETRI: return F::getri(n, a, ld, st.ip[k.a]);
        case GEINV: return F::geinv(n, n, a, ld, st.ip[k.a]);
        case GESWP: return F::geswp(k.e1, n, nb, b, ld, st.ip[k.a], k.e3);
        case GEQRF: case GELQF: {
            if (hasT[k.a]) plasma_desc_destroy(&Td[k.a]);
            hasT[k.a] = true;
            return k.op == GEQRF ? F::geqrf(n, n, a, ld, &Td[k.a]) : F::gelqf(n, n, a, ld, &Td[k.a]);
        }
        case UNGQR: return F::ungqr(n, n, n, a, ld, Td[k.a], b, ld);
        case UNGLQ: return F::unglq(n, n, n, a, ld, Td[k.a], b, ld);
        case UNMQR: return F::unmqr(nb == n ? k.e1 : PlasmaLeft, k.e3, n, nb, n, a, ld, Td[k.a], b, ld);
        case UNMLQ: return F::unmlq(nb == n ? k.e1 : PlasmaLeft, k.e3, n, nb, n, a, ld, Td[k.a], b, ld);
        case LANGE: st.val[step] = F::lange(k.e3, n, n, a, ld); return 0;
        case LANHE: st.val[step] = F::lanhe(k.e3, k.e2, n, a, ld); return 0;
        case LANTR: st.val[step] = F::lantr(k.e3, k.e2, k.e4, n, n, a, ld); return 0;
        case HERK: return F::herk(k.e2, k.e1, n, q, (RT<T>)k.al, a, ld, (RT<T>)k.be, cc, ld);
        case HER2K: return F::her2k(k.e2, k.e1, n, q, al, a, ld, b, ld, (RT<T>)k.be, cc, ld);
        case GEQRS: return F::geqrs(n, n, qc(nb), a, ld, Td[k.a], b, ld);
        case GELQS: return F::gelqs(n, n, qc(nb), a, ld, Td[k.a], b, ld);
        default: st.val[step] = F::lansy(k.e3, k.e2, n, a, ld); return 0;
        }
    }
    void tile(const Call &k, int step, Sq *s, Rq *r)
    {
        typedef P<T> F;
        int o = k.v * g.nb, n = st.n - o - k.w;
        T al = mk<T>(k.al, 0), be = mk<T>(k.be, 0);
        auto view = [&](int x) { return o || k.w ? plasma_desc_view(A[x], o, x < NM_ ? o : 0, n, x < NM_ ? n : st.nr) : A[x]; };
        D a = view(k.a), b = view(k.b), cc = view(k.c), t = k.a < NM_ ? Td[k.a] : Td[0];
        int nb = k.b < NM_ ? n : st.nr, nc = k.c < NM_ ? n : st.nr;
        int e1 = k.e1, e2 = k.e2, e3 = k.e3;
        if (k.q) {
            int q = std::min(k.q - 1, n);
            auto rows = [&](D &x) { x = plasma_desc_view(x, 0, 0, q, x.n); };
            auto colsq = [&](D &x) { x = plasma_desc_view(x, 0, 0, x.m, std::min(q, x.n)); };
            switch (k.op) {
            case GEMM: if (k.e1 == PlasmaNoTrans) colsq(a); else rows(a); if (k.b >= NM_ || k.e2 == PlasmaNoTrans) rows(b); else colsq(b); break;
            case SYRK: case HERK: if (k.e1 == PlasmaNoTrans) colsq(a); else rows(a); break;
            case SYR2K: case HER2K: if (k.e1 == PlasmaNoTrans) { colsq(a); colsq(b); } else { rows(a); rows(b); } break;
            case SYMM: case HEMM: if (nc == n && k.e1 == PlasmaRight) { rows(b); rows(cc); } else { colsq(b); colsq(cc); } break;
            case TRMM: case TRSM: if (nb == n && k.e1 == PlasmaRight) rows(b); else colsq(b); break;
            case GEADD: case TRADD: if (k.e1 == PlasmaNoTrans) { colsq(a); colsq(b); } break;
            case LACPY: colsq(a); colsq(b); break;
            case LASET: case LASCL: colsq(a); break;
            case POTRS: case POSV: case GETRS: case GESV: case GEQRS: case GELQS: colsq(b); break;
            }
        }
        switch (k.evil) {
        case 1: a.nb = 0; b.nb = 0; break;
        case 2: a.type = 999; b.type = 999; break;
        case 3: a.m = -1; b.m = -1; break;
        case 4: a.precision = 0; b.precision = 0; break;
        case 5: a.i = 1; b.i = 1; a.mb = b.mb = 2; break;
        case 6: e1 = e2 = e3 = 999; break;
        case 7: s = nullptr; break;
        case 8: r = nullptr; break;
        }
        switch (k.op) {
        case GEMM: F::o_gemm(e1, k.evil == 6 || k.b < NM_ ? (k.evil == 6 ? e2 : k.e2) : (int)PlasmaNoTrans, al, a, b, be, cc, s, r); break;
        case SYMM: F::o_symm(nc == n ? e1 : (int)PlasmaLeft, e2, al, a, b, be, cc, s, r); break;
        case HEMM: F::o_hemm(nc == n ? e1 : (int)PlasmaLeft, e2, al, a, b, be, cc, s, r); break;
        case SYRK: F::o_syrk(e2, e1, al, a, be, cc, s, r); break;
        case SYR2K: F::o_syr2k(e2, e1, al, a, b, be, cc, s, r); break;
        case TRMM: F::o_trmm(nb == n ? e1 : (int)PlasmaLeft, e2, e3, k.e4, al, a, b, s, r); break;
        case TRSM: F::o_trsm(nb == n ? e1 : (int)PlasmaLeft, e2, e3, k.e4, al, a, b, s, r); break;
        case GEADD: F::o_geadd(e1, al, a, be, b, s, r); break;
        case TRADD: F::o_tradd(e2, e1, al, a, be, b, s, r); break;
        case LACPY: F::o_lacpy(e2, k.evil == 6 ? 999 : (int)PlasmaNoTrans, a, b, s, r); break;
        case LASET: F::o_laset(e2, al, be, a, s, r); break;
        case LASCL: F::o_lascl(e2, 2.0, 1.0, a, s, r); break;
        case LAUUM: F::o_lauum(e2, a, s, r); break;
        case TRTRI: F::o_trtri(e2, k.e4, a, s, r); break;
        case POTRF: F::o_potrf(e2, a, s, r); break;
        case POTRS: F::o_potrs(e2, a, b, s, r); break;
        case POSV: F::o_posv(e2, a, b, s, r); break;
        case POTRI: F::o_potri(e2, a, s, r); break;
        case POINV: F::o_poinv(e2, a, s, r); break;
        case GETRF: F::o_getrf(a, st.ip[k.a], s, r); break;
        case GETRS: F::o_getrs(e1, a, st.ip[k.a], b, s, r); break;
        case GESV: F::o_gesv(a, st.ip[k.a], b, s, r); break;
        case GETRI: F::o_getri(a, st.ip[k.a], W, s, r); break;
        case GEINV: F::o_geinv(a, st.ip[k.a], W, s, r); break;
        case GESWP: F::o_geswp(e1, b, st.ip[k.a], k.e3, s, r); break;
        case GEQRF: F::o_geqrf(a, t, ws, s, r); break;
        case GELQF: F::o_gelqf(a, t, ws, s, r); break;
        case UNGQR: F::o_ungqr(a, t, b, ws, s, r); break;
        case UNGLQ: F::o_unglq(a, t, b, ws, s, r); break;
        case UNMQR: F::o_unmqr(nb == n ? e1 : (int)PlasmaLeft, e3, a, t, b, ws, s, r); break;
        case UNMLQ: F::o_unmlq(nb == n ? e1 : (int)PlasmaLeft, e3, a, t, b, ws, s, r); break;
        case LANGE: F::o_lange(e3, a, work[step], &st.val[step], s, r); break;
        case LANHE: F::o_lanhe(e3, e2, a, work[step], &st.val[step], s, r); break;
        case LANTR: F::o_lantr(e3, e2, k.e4, a, work[step], &st.val[step], s, r); break;
        case HERK: F::o_herk(e2, e1, (RT<T>)k.al, a, (RT<T>)k.be, cc, s, r); break;
        case HER2K: F::o_her2k(e2, e1, al, a, b, (RT<T>)k.be, cc, s, r); break;
        case GEQRS: F::o_geqrs(a, t, b, ws, s, r); break;
        case GELQS: F::o_gelqs(a, t, b, ws, s, r); break;
        default: F::o_lansy(e3, e2, a, work[step], &st.val[step], s, r); break;
        }
    }
    static bool has_enum(int op) { return op != GETRF && op != GESV && op != GETRI && op != GEINV && op != GEQRF && op != GELQF && op != UNGQR && op != UNGLQ && op != GEQRS && op != GELQS; }
    void create(int steps)
    {
        for (int k = 0; k < 6; k++) plasma_desc_general_create(dtype_of<T>(), g.nb, g.nb, st.n, st.cols(k), 0, 0, st.n, st.cols(k), &A[k]);
        for (int k = 0; k < NM_; k++) { plasma_descT_create(A[k], std::min(g.ib, g.nb), g.hh, &Td[k]); hasT[k] = true; }
        plasma_desc_general_create(dtype_of<T>(), g.nb, g.nb, st.n, g.nb, 0, 0, st.n, g.nb, &W);
        plasma_workspace_create(&ws, (size_t)g.nb * g.nb * 4 + (size_t)g.nb * g.ib * 4 + 64, dtype_of<T>());
        for (int k = 0; k < steps; k++) work.push_back((RT<T> *)rt::guarded(sizeof(RT<T>) * ((size_t)4 * A[0].mt * A[0].nt + (size_t)(A[0].mt + A[0].nt) * st.n * 2 + 8)));
    }
    void destroy()
    {
        for (int k = 0; k < 6; k++) plasma_desc_destroy(&A[k]);
        for (int k = 0; k < NM_; k++) plasma_desc_destroy(&Td[k]);
        plasma_desc_destroy(&W);
        plasma_workspace_destroy(&ws);
    }
    void to_tiles(Sq *s, Rq *r) { for (int k = 0; k < 6; k++) P<T>::o_ge2desc(st.m[k], st.n, A[k], s, r); }
    void from_tiles(Sq *s, Rq *r) { for (int k = 0; k < 6; k++) P<T>::o_desc2ge(A[k], st.m[k], st.n, s, r); }
};
// reflectors of a view whose last tile is stored in a taller one: the BLAS may round differently with another leading dimension
bool g_loose = false;
template<class T> double size_of(const State<T> &a, int k)
{
    double m = 1;
    for (size_t i = 0; i < (size_t)a.n * a.cols(k); i++) { double v = std::abs(std::complex<double>(re_(tox(a.m[k][i])), im_(tox(a.m[k][i])))); if (v > m) m = v; }
    return m;
}
template<class T> void compare(Ctx &c, const State<T> &a, const State<T> &b, int vals, const char *key, const std::string &how)
{
    for (int k = 0; k < 6; k++)
        for (int j = 0; j < a.cols(k); j++)
            for (int i = 0; i < a.n; i++)
                if (memcmp(&a.m[k][i + (size_t)j * a.n], &b.m[k][i + (size_t)j * a.n], sizeof(T))) {
                    T x = a.m[k][i + (size_t)j * a.n], y = b.m[k][i + (size_t)j * a.n];
                    if (isnan_(x) && isnan_(y)) continue;
                    if (g_loose && std::abs(std::complex<double>((double)(re_(tox(x)) - re_(tox(y))), (double)(im_(tox(x)) - im_(tox(y))))) <= 1e4 * std::numeric_limits<RT<T>>::epsilon() * size_of(a, k)) continue;
                    char t[200];
                    snprintf(t, sizeof t, "matrix %d element (%d,%d): %.9g synchronously, %.9g asynchronously ", k, i, j, (double)re_(tox(x)), (double)re_(tox(y)));
                    c.fail(key, t + how);
                }
    for (int k = 0; k < NM_; k++) for (int i = 0; i < a.n; i++) if (a.ip[k][i] != b.ip[k][i]) c.fail(key, "pivot " + std::to_string(i) + " of matrix " + std::to_string(k) + " differs " + how);
    for (int k = 0; k < vals; k++) if (memcmp(&a.val[k], &b.val[k], sizeof a.val[k]) && !(g_loose && std::abs((double)(a.val[k] - b.val[k])) <= 1e4 * std::numeric_limits<RT<T>>::epsilon() * std::abs((double)a.val[k])) && !(std::isnan((double)a.val[k]) && std::isnan((double)b.val[k]))) c.fail(key, "norm of step " + std::to_string(k) + " differs " + how);
}
template<class T> void program(Ctx &c, bool race = false)
{
    Runner<T> S(c), Y(c);       // synchronous, asynchronous
    Cfg g;
    draw_cfg(c, g, true);
    if (g.nb > 24) g.nb = 1 + g.nb % 24;
    g.ib = std::min(g.ib, g.nb);
    int n = 1 + draw_dim(c, g, 0, std::min(4 * g.nb, 40)), nr = 1 + (int)c.s.u(2 * g.nb + 2);
    if (race) {
        // the monitor works with whole pages: tiles are multiples of a page
        g.nb = 32; g.ib = sizeof(T) == 4 ? 32 : sizeof(T) == 16 ? 8 : 16;
        g.sc.quantum = 0; g.sc.immediate_pct = 0;
        g.sc.nthreads = std::max(2, g.sc.nthreads);
        n = 32 * (1 + (int)c.s.u(5)); nr = 32 * (1 + (int)c.s.u(3));
    }
    int len = 2 + (int)c.s.u(6);
    int kind = race ? 0 : (int)c.s.u(8);               // 0..4 plain, 5,6 illegal argument, 7 numerical failure
    bool lu = false, syncs = false;
    int lus = 0;
    g_loose = false;
    bool touched[6] = {};
    std::vector<Call> prog;
    int fv[NM_] = {}, fw[NM_] = {}, pv[NM_] = {}, pw[NM_] = {};       // which view the reflectors / pivots of a matrix belong to
    bool qr[NM_] = {}, lq[NM_] = {}, piv[NM_] = {true, true, true, true};
    auto sq = [&](std::initializer_list<int> not_) { int k; do k = (int)c.s.u(NM_); while (0); for (int t = 0; t < NM_ + 2; t++) { bool bad = false; for (int x : not_) bad |= x == k; if (!bad) break; k = (k + 1) % NM_; } return k; };
    auto put = [&](Call k) { if (prog.size() < 15) prog.push_back(k); };
    for (int step = 0; step < len; step++) {
        Call k{};
        k.op = (int)c.s.u(NOPS);
        k.a = sq({}); k.b = sq({k.a}); k.c = sq({k.a, k.b});
        bool rhs = c.s.u(3) == 2;
        static const double AL[] = {1, 0.5, -1, 0, 0.25};
        k.al = AL[c.s.u(5)]; k.be = AL[c.s.u(5)];
        auto uplo = [&]() { return c.s.pick({(int)PlasmaLower, (int)PlasmaUpper}); };
        auto side = [&]() { return c.s.pick({(int)PlasmaLeft, (int)PlasmaRight}); };
        auto trans = [&]() { return c.s.pick({(int)PlasmaNoTrans, (int)PlasmaTrans, (int)PlasmaConjTrans}); };
        k.e1 = k.e2 = k.e3 = k.e4 = 0;
        bool spd = false, reg = false;
        switch (k.op) {
        case GEMM: k.e1 = trans(); k.e2 = trans(); if (rhs) { k.b = 4; k.c = 5; } break;
        case SYMM: case HEMM: k.e1 = side(); k.e2 = uplo(); if (rhs) { k.b = 4; k.c = 5; } break;
        case SYRK: case SYR2K: k.e1 = c.s.pick({(int)PlasmaNoTrans, (int)PlasmaTrans}); k.e2 = uplo(); break;
        case TRMM: k.e1 = side(); k.e2 = uplo(); k.e3 = trans(); k.e4 = c.s.pick({(int)PlasmaNonUnit, (int)PlasmaUnit}); if (rhs) k.b = 4; break;
        case TRSM: k.e1 = side(); k.e2 = uplo(); k.e3 = trans(); k.e4 = c.s.pick({(int)PlasmaNonUnit, (int)PlasmaUnit}); if (rhs) k.b = 4; reg = c.s.u(2); break;
        case GEADD: k.e1 = trans(); break;
        case TRADD: k.e1 = PlasmaNoTrans; k.e2 = uplo(); break;
        case LACPY: k.e2 = c.s.pick({(int)PlasmaGeneral, (int)PlasmaLower, (int)PlasmaUpper}); if (rhs) { k.a = 4; k.b = 5; k.e2 = PlasmaGeneral; } break;
        case LASET: k.e2 = c.s.pick({(int)PlasmaGeneral, (int)PlasmaLower, (int)PlasmaUpper}); if (k.be == 0) k.be = 3; if (rhs) { k.a = 4; k.e2 = PlasmaGeneral; } break;
        case LASCL: k.e2 = c.s.pick({(int)PlasmaGeneral, (int)PlasmaLower, (int)PlasmaUpper}); if (rhs) { k.a = 4; k.e2 = PlasmaGeneral; } break;
        case LAUUM: k.e2 = uplo(); break;
        case TRTRI: k.e2 = uplo(); k.e4 = c.s.pick({(int)PlasmaNonUnit, (int)PlasmaUnit}); reg = true; break;
        case POTRF: case POTRI: case POINV: k.e2 = uplo(); spd = true; break;
        case POSV: k.e2 = uplo(); spd = true; if (rhs) k.b = 4; break;
        case POTRS: k.e2 = uplo(); reg = c.s.u(2); if (rhs) k.b = 4; break;
        case GETRF: case GEINV: lu = true; lus++; break;
        case GESV: lu = true; lus++; if (rhs) k.b = 4; break;
        case GETRS: k.e1 = trans(); reg = c.s.u(2); if (rhs) k.b = 4; break;
        case GETRI: reg = true; break;
        case GESWP: k.e1 = PlasmaRowwise; k.e3 = c.s.pick({1, -1}); if (rhs) k.b = 4; else k.e1 = c.s.pick({(int)PlasmaRowwise, (int)PlasmaColumnwise}); break;
        case GEQRF: qr[k.a] = true; lq[k.a] = false; break;
        case GELQF: lq[k.a] = true; qr[k.a] = false; break;
        case UNGQR: case UNMQR: case UNGLQ: case UNMLQ: case GEQRS: case GELQS: {
            bool isq = k.op == UNGQR || k.op == UNMQR || k.op == GEQRS;
            bool *f = isq ? qr : lq;
            for (int t = 0; t < NM_ && !f[k.a]; t++) k.a = (k.a + 1) % NM_;
            if (!f[k.a]) { Call q{}; q.op = isq ? GEQRF : GELQF; q.a = k.a; q.b = q.c = (k.a + 1) % NM_; put(q); fv[k.a] = fw[k.a] = 0; f[k.a] = true; (isq ? lq : qr)[k.a] = false; }
            if (k.b == k.a) k.b = (k.a + 1) % NM_;
            k.e1 = side(); k.e3 = c.s.pick({(int)PlasmaNoTrans, is_cplx<T> ? (int)PlasmaConjTrans : (int)PlasmaTrans});
            if (rhs && (k.op != UNGQR && k.op != UNGLQ)) k.b = 4;
            break;
        }
        case HERK: case HER2K: k.e1 = c.s.pick({(int)PlasmaNoTrans, is_cplx<T> ? (int)PlasmaConjTrans : (int)PlasmaTrans}); k.e2 = uplo(); break;
        case LANGE: case LANSY: case LANHE: case LANTR: syncs = true; k.e4 = c.s.pick({(int)PlasmaNonUnit, (int)PlasmaUnit}); k.e2 = uplo(); k.e3 = c.s.pick({(int)PlasmaMaxNorm, (int)PlasmaOneNorm, (int)PlasmaInfNorm, (int)PlasmaFrobeniusNorm}); break;
        }
        bool needs_t = (k.op >= UNGQR && k.op <= UNMLQ) || k.op == GEQRS || k.op == GELQS, needs_p = k.op == GETRS || k.op == GETRI || k.op == GESWP;
        if (needs_t) { k.v = fv[k.a]; k.w = fw[k.a]; }
        else if (needs_p) { k.v = pv[k.a]; k.w = pw[k.a]; }
        else if (n > 1 && (c.s.u(3) == 2 || ((k.op == GEQRF || k.op == GELQF) && !touched[k.a]))) {
            k.v = (int)c.s.u((n - 1) / g.nb + 1);
            k.w = c.s.u(2) ? (int)c.s.u(n - k.v * g.nb) : 0;
            if ((k.op == GEQRF || k.op == GELQF) && touched[k.a]) k.w = 0;
            c.label("views");
        }
        if (k.op == GEQRF || k.op == GELQF) { fv[k.a] = k.v; fw[k.a] = k.w; if (k.w) { g_loose = true; c.label("reflectors of ragged views"); } }
        if (k.op == GETRF || k.op == GESV || k.op == GEINV) { pv[k.a] = k.v; pw[k.a] = k.w; }
        if (c.s.u(4) == 3) { k.q = 1 + (c.s.u(3) == 2 ? 0 : (int)c.s.u(n + 1)); if (k.op == GESV && k.q == 1) k.q = 2; c.label("rectangular operands"); }
        // keep definite and triangular problems solvable: diagonally dominant matrix first
        if ((spd && c.s.u(8) != 7) || reg) { Call q{}; q.op = LASET; q.a = k.a; q.b = q.c = (k.a + 1) % NM_; q.e2 = PlasmaGeneral; q.al = 0.125; q.be = n + 1; put(q); }
        put(k);
        touched[k.a] = touched[k.b] = touched[k.c] = true;
        if (g_loose) {       // reflectors of untouched random data are well determined; use them once and stop
            Call q = k;
            bool isq = k.op == GEQRF;
            q.b = (k.a + 1 + (int)c.s.u(NM_ - 1)) % NM_;
            q.op = c.s.pick({(int)UNMQR, (int)UNGQR}) == UNMQR ? (isq ? UNMQR : UNMLQ) : (isq ? UNGQR : UNGLQ);
            q.e1 = side(); q.e3 = c.s.pick({(int)PlasmaNoTrans, is_cplx<T> ? (int)PlasmaConjTrans : (int)PlasmaTrans});
            put(q);
            break;
        }
    }
    len = (int)prog.size();
    // Cooperating panel tasks of LU need all their threads at once; with several factorizations in flight, or a
    // master thread that waits inside a norm, more panel threads than that leaves over can block each other.
    if (lu && (lus > 1 || syncs)) g.mtpf = std::max(1, std::min(g.mtpf, (g.sc.nthreads - 1) / std::max(1, lus)));
    if (g.mtpf > 1) g.sc.immediate_pct = 0;
    S.g = Y.g = g;
    S.st.n = Y.st.n = n; S.st.nr = Y.st.nr = nr;
    S.st.alloc(); Y.st.alloc();
    DG dg; dg.seed = c.s.u(65536) + 1; dg.kind = 1 + (int)c.s.u(2);
    for (int k = 0; k < 6; k++) for (int j = 0; j < S.st.cols(k); j++) for (int i = 0; i < n; i++) {
        T v = dg.v<T>(k, i, j);
        if (k < NM_ && i == j) v = mk<T>(2 + (double)n, 0);
        S.st.m[k][i + (size_t)j * n] = v;
    }
    for (int k = 0; k < NM_; k++) for (int i = 0; i < n; i++) S.st.ip[k][i] = 1 + i + (int)(hash2(dg.seed, k * 1000 + i) % (n - i));
    int at = kind >= 5 && kind <= 6 ? (int)c.s.u(len) : -1;
    int evil = at >= 0 ? 1 + (int)c.s.u(8) : 0;
    if (evil == 6 && !Runner<T>::has_enum(prog[at].op)) evil = 1;
    if (evil == 5 && n < 4) evil = 3;
    if (kind == 7) {
        // break one matrix: zero it out, then factor it
        int p = (int)c.s.u(len + 1);
        Call z{}, f{};
        z.op = LASET; z.a = (int)c.s.u(NM_); z.b = z.c = (z.a + 1) % NM_; z.e2 = PlasmaGeneral; z.al = c.s.u(2) ? 1 : 0; z.be = c.s.u(2) && n > 1 && z.al != 0 ? 1 : 0;
        static const int F[] = {POTRF, POSV, POINV, GETRF, GESV, TRTRI, GEINV};
        f = z; f.op = F[c.s.u(7)]; f.e2 = PlasmaLower; f.e4 = PlasmaNonUnit;
        if (f.op == POTRF || f.op == POSV || f.op == POINV) { z.al = 1; z.be = n > 1 ? c.s.u(2) : 0; }
        if ((f.op == GETRF || f.op == GESV || f.op == GEINV) && n == 1) z.al = z.be = 0;
        if (f.op == TRTRI) z.be = 0;
        if (f.op == GETRF || f.op == GESV || f.op == GEINV) { g.mtpf = 1; S.g = Y.g = g; }
        prog.insert(prog.begin() + p, f);
        prog.insert(prog.begin() + p, z);
        len = (int)prog.size();
        if (len > 16) throw Discard();
    }
    c.desc << std::string(1, P<T>::pc) << " n=" << n << " nrhs=" << nr << " " << g.str() << ":";
    for (int i = 0; i < len; i++) { Call k = prog[i]; if (i == at) k.evil = evil; c.desc << " " << str(k); c.label(NM[k.op]); }
    note_case_text(c.desc.str());
    State<T> start = S.st;
    start.alloc();
    start.copy(S.st);
    Y.st.copy(S.st);
    // reference
    Cfg gs = g;
    gs.sc.policy = 0; gs.sc.quantum = 0; gs.sc.immediate_pct = 0;
    begin_plasma(gs);
    int stop = at >= 0 ? at : len, failed = -1, code = 0;
    for (int i = 0; i < stop; i++) {
        int e = S.sync(prog[i], i);
        if (e < 0) c.fail("async.syncinfo", "synchronous step " + std::to_string(i) + " returned " + std::to_string(e));
        if (e > 0) { failed = i; code = e; break; }
    }
    for (int k = 0; k < NM_; k++) if (S.hasT[k]) plasma_desc_destroy(&S.Td[k]);
    // asynchronous run under the drawn schedule
    rt::configure(g.sc);
    rt::stats_reset();
    note_case_text(c.desc.str() + " (asynchronous)");
    if (race) rt::race_begin();
    Y.create(len);
    Sq q, q0;
    Rq r[17], r0;
    plasma_sequence_init(&q); plasma_sequence_init(&q0); plasma_request_init(&r0);
    for (auto &x : r) plasma_request_init(&x);
    bool split = c.s.u(2);          // conversions in the same region as the calls or not
    if (split) rt::parallel_master([&]() { Y.to_tiles(&q0, &r0); });
    rt::parallel_master([&]() {
        if (!split) Y.to_tiles(&q0, &r0);
        for (int i = 0; i < stop; i++) Y.tile(prog[i], i, &q, &r[i]);
        if (!split) Y.from_tiles(&q0, &r0);
    });
    if (split) rt::parallel_master([&]() { Y.from_tiles(&q0, &r0); });
    if (race) {
        std::string w = rt::race_end();
        if (!w.empty()) c.fail("async.race", "chain of asynchronous calls: " + w);
        c.label("race monitor on a chain");
    }
    c.nontrivial = stop >= 2 && rt::stats().tasks >= 20;
    c.weight = len + 1;
    if (q0.status) c.fail("async.status", "conversion sequence failed");
    if (failed >= 0) {
        c.label("numerical failure");
        if (q.status <= 0) c.fail("async.failstatus", "sequence status " + std::to_string(q.status) + " although step " + std::to_string(failed) + " fails with " + std::to_string(code));
        bool any = false;
        for (int i = 0; i < stop; i++) {
            any |= r[i].status == q.status;
            if (i < failed && r[i].status) c.fail("async.request", "request of step " + std::to_string(i) + " has status " + std::to_string(r[i].status) + ", only a later step fails");
        }
        if (!any) c.fail("async.request", "no request carries the status " + std::to_string(q.status) + " of the sequence");
    }
    else {
        if (q.status) c.fail("async.status", "sequence status " + std::to_string(q.status) + " although every step succeeds");
        for (int i = 0; i < stop; i++) if (r[i].status) c.fail("async.request", "request of step " + std::to_string(i) + " has status " + std::to_string(r[i].status));
        compare(c, S.st, Y.st, stop, "async.result", split ? "" : "(conversion in the same region)");
    }
    if (at >= 0 && failed < 0) {
        // an illegal call stops its sequence: nothing submitted afterwards has an effect
        Call bad = prog[at];
        bad.evil = evil;
        rt::parallel_master([&]() {
            Y.tile(bad, at, &q, &r[at]);
            if (evil < 7) for (int i = at + 1; i < len; i++) Y.tile(prog[i], i, &q, &r[i]);
        });
        if (evil != 7 && q.status != PlasmaErrorIllegalValue) c.fail("async.illegal", "sequence status " + std::to_string(q.status) + " after an illegal argument");
        if (evil != 8 && r[at].status != PlasmaErrorIllegalValue) c.fail("async.illegal", "request status " + std::to_string(r[at].status) + " after an illegal argument");
        if (evil < 7 && q.request != &r[at]) c.fail("async.illegal", "the sequence does not name the failed request");
        c.label("illegal argument");
    }
    if ((at >= 0 && failed < 0 && evil < 7) || failed >= 0) {
        // the failed sequence accepts calls without effect, a fresh one works
        State<T> before = Y.st;
        before.alloc();
        before.copy(Y.st);
        if (failed >= 0) {
            int sv = q.status;
            Y.st.copy(start);
            rt::parallel_master([&]() { Y.to_tiles(&q0, &r0); });
            rt::parallel_master([&]() { for (int i = 0; i < len; i++) Y.tile(prog[i], i, &q, &r[i]); });
            rt::parallel_master([&]() { Y.from_tiles(&q0, &r0); });
            compare(c, start, Y.st, 0, "async.deadsequence", "after calls submitted to a failed sequence");
            if (!q.status) c.fail("async.deadsequence", "a failed sequence became successful again, was " + std::to_string(sv));
        }
        else {
            rt::parallel_master([&]() { Y.from_tiles(&q0, &r0); });
            compare(c, before, Y.st, stop, "async.deadsequence", "after calls submitted to a failed sequence");
            // go on with a new sequence
            Sq q2; plasma_sequence_init(&q2);
            Rq r2[17];
            for (auto &x : r2) plasma_request_init(&x);
            bool okay = true;
            rt::parallel_master([&]() { for (int i = at; i < len; i++) Y.tile(prog[i], i, &q2, &r2[i]); });
            rt::parallel_master([&]() { Y.from_tiles(&q0, &r0); });
            S.st.copy(before);
            // the T factors live in Y; repeat the whole program for the reference
            S.st.copy(start);
            for (auto &h : S.hasT) h = false;
            rt::configure(gs.sc);
            for (int i = 0; i < len && okay; i++) okay = S.sync(prog[i], i) == 0;
            for (int k = 0; k < NM_; k++) if (S.hasT[k]) plasma_desc_destroy(&S.Td[k]);
            if (okay) { if (q2.status) c.fail("async.newsequence", "a new sequence failed with " + std::to_string(q2.status)); compare(c, S.st, Y.st, len, "async.newsequence", "in a new sequence after a failed one"); }
            else if (q2.status <= 0) c.fail("async.failstatus", "sequence status " + std::to_string(q2.status) + " although a step fails");
        }
    }
    std::string w;
    if (!rt::check_canaries(&w)) c.fail("async.outside", w);
    Y.destroy();
    end_plasma();
}

// A step that fails while later steps of its sequence are already waiting for its result: the waiting steps must do
// nothing, the status is that of the failed step, and another sequence in the same region is not affected.
template<class T> void inflight(Ctx &c)
{
    Runner<T> S(c), Y(c);
    Cfg g;
    draw_cfg(c, g, true);
    if (g.nb > 24) g.nb = 1 + g.nb % 24;
    g.ib = std::min(g.ib, g.nb);
    bool single = c.s.u(3) == 2;
    int n = single ? 1 + (int)c.s.u(g.nb) : 1 + draw_dim(c, g, 0, std::min(4 * g.nb, 40)), nr = 1 + (int)c.s.u(2 * g.nb + 2);
    if (c.s.u(4)) { g.sc.immediate_pct = 0; if (c.s.u(2)) g.sc.quantum = 0; }     // mostly submit everything first
    if (g.mtpf > 1) g.sc.immediate_pct = 0;
    auto uplo = [&]() { return c.s.pick({(int)PlasmaLower, (int)PlasmaUpper}); };
    auto side = [&]() { return c.s.pick({(int)PlasmaLeft, (int)PlasmaRight}); };
    auto trans = [&]() { return c.s.pick({(int)PlasmaNoTrans, (int)PlasmaTrans, (int)PlasmaConjTrans}); };
    std::vector<Call> p1, p2;
    Call f{};
    static const int F[] = {GETRF, GESV, POTRF, POSV, POINV, TRTRI};
    f.op = F[c.s.u(single ? 6 : 2)]; f.a = 0; f.b = 4; f.c = 1; f.e2 = uplo(); f.e4 = PlasmaNonUnit; f.al = f.be = 1;
    bool lu = f.op == GETRF || f.op == GESV;
    int dead = lu ? (int)c.s.u(std::min(n, g.nb)) : 0;        // the first zero column
    int len = 1 + (int)c.s.u(6), len2 = (int)c.s.u(4);
    static const double AL[] = {1, 0.5, -1, 0.25};
    for (int i = 0; i < len; i++) {
        Call k{};
        static const int O[] = {GEADD, GEMM, SYMM, HEMM, SYRK, TRMM, TRSM, TRADD, LACPY, LASCL, LAUUM, TRTRI, POTRF, POTRS, POSV, POTRI, GETRF, GETRS, GESV, GEQRF, GELQF, UNMQR, GEADD, GEMM};
        k.op = O[c.s.u(sizeof O / sizeof *O)];
        k.a = 0; k.b = c.s.u(2) ? 4 : 1; k.c = k.b == 4 ? 5 : 1;
        k.al = AL[c.s.u(4)]; k.be = AL[c.s.u(4)];
        k.e1 = k.e3 = trans(); k.e2 = uplo(); k.e4 = c.s.pick({(int)PlasmaNonUnit, (int)PlasmaUnit});
        if (k.op == GEMM || k.op == SYMM || k.op == HEMM) { k.b = 4; k.c = 5; }
        if (k.op == GEMM) k.e2 = PlasmaNoTrans;
        if (k.op == SYMM || k.op == HEMM || k.op == TRMM || k.op == TRSM || k.op == UNMQR) k.e1 = side();
        if (k.op == SYRK) { k.c = 1; k.e1 = c.s.pick({(int)PlasmaNoTrans, (int)PlasmaTrans}); }
        if (k.op == GEADD || k.op == TRADD || k.op == LACPY) { k.b = 1; if (c.s.u(3) == 2) { k.a = 1; k.b = 0; } if (k.op == TRADD) k.e1 = PlasmaNoTrans; }
        if (k.op == UNMQR) k.e3 = c.s.pick({(int)PlasmaNoTrans, is_cplx<T> ? (int)PlasmaConjTrans : (int)PlasmaTrans});
        if (!lu && (k.op == GETRS || k.op == GESV)) k.op = POTRS;
        p1.push_back(k);
    }
    for (int i = 0; i < len2; i++) {
        Call k{};
        static const int O[] = {GEADD, SYRK, TRMM, LASET, LASCL, LACPY, LAUUM, TRADD};
        k.op = O[c.s.u(8)];
        k.a = 2 + (int)c.s.u(2); k.b = k.c = 5 - k.a;
        k.al = AL[c.s.u(4)]; k.be = AL[c.s.u(4)];
        k.e1 = k.op == TRMM ? side() : k.op == GEADD ? trans() : (int)PlasmaNoTrans; k.e2 = uplo(); k.e3 = trans(); k.e4 = c.s.pick({(int)PlasmaNonUnit, (int)PlasmaUnit});
        p2.push_back(k);
    }
    S.g = Y.g = g;
    S.st.n = Y.st.n = n; S.st.nr = Y.st.nr = nr;
    S.st.alloc(); Y.st.alloc();
    DG dg; dg.seed = c.s.u(65536) + 1; dg.kind = 1 + (int)c.s.u(2);
    for (int k = 0; k < 6; k++) for (int j = 0; j < S.st.cols(k); j++) for (int i = 0; i < n; i++) {
        T v = dg.v<T>(k, i, j);
        if (k == 0 && (!lu || j >= dead)) v = mk<T>(0, 0);
        S.st.m[k][i + (size_t)j * n] = v;
    }
    for (int k = 0; k < NM_; k++) for (int i = 0; i < n; i++) S.st.ip[k][i] = 1 + i;
    Y.st.copy(S.st);
    c.desc << std::string(1, P<T>::pc) << " n=" << n << " nrhs=" << nr << " " << g.str() << " in flight: " << str(f) << " dead column " << dead << " then";
    for (auto &k : p1) { c.desc << " " << str(k); c.label(NM[k.op]); }
    c.desc << "; other sequence:";
    for (auto &k : p2) c.desc << " " << str(k);
    note_case_text(c.desc.str());
    Cfg gs = g;
    gs.sc.policy = 0; gs.sc.quantum = 0; gs.sc.immediate_pct = 0;
    begin_plasma(gs);
    // reference: the failing step alone (the synchronous interface would not convert the tiles of a failed step back)
    S.create(0);
    {
        Sq qa, qb; Rq ra, rb;
        plasma_sequence_init(&qa); plasma_sequence_init(&qb); plasma_request_init(&ra); plasma_request_init(&rb);
        rt::configure(gs.sc);
        rt::parallel_master([&]() { S.to_tiles(&qb, &rb); });
        rt::parallel_master([&]() { S.tile(f, 0, &qa, &ra); });
        rt::parallel_master([&]() { S.from_tiles(&qb, &rb); });
        S.destroy();
        for (auto &h : S.hasT) h = false;
        f.evil = qa.status;
    }
    int code = f.evil;
    f.evil = 0;
    if (code <= 0) { c.fail("async.syncinfo", "a singular matrix gives " + std::to_string(code)); return; }
    for (auto &k : p2) { int e = S.sync(k, 0); if (e) c.fail("async.syncinfo", "a synchronous step of the other sequence returned " + std::to_string(e)); }
    rt::configure(g.sc);
    rt::stats_reset();
    Y.create(0);
    Sq q, q0, q2;
    Rq r0, r[8], r2[4];
    plasma_sequence_init(&q); plasma_sequence_init(&q0); plasma_sequence_init(&q2); plasma_request_init(&r0);
    for (auto &x : r) plasma_request_init(&x);
    for (auto &x : r2) plasma_request_init(&x);
    rt::parallel_master([&]() { Y.to_tiles(&q0, &r0); });
    rt::parallel_master([&]() {
        Y.tile(f, 0, &q, &r[0]);
        for (int i = 0; i < std::max(len, len2); i++) {
            if (i < len2) Y.tile(p2[i], 0, &q2, &r2[i]);
            if (i < len) Y.tile(p1[i], 0, &q, &r[i + 1]);
        }
    });
    rt::parallel_master([&]() { Y.from_tiles(&q0, &r0); });
    if (q0.status) c.fail("async.status", "conversion sequence failed");
    if (q.status != code) c.fail("async.failstatus", "sequence status " + std::to_string(q.status) + " in flight, the failed step returns " + std::to_string(code));
    if (r[0].status != code) c.fail("async.request", "request status of the failed step is " + std::to_string(r[0].status) + " instead of " + std::to_string(code));
    if (q.request != &r[0]) c.fail("async.request", "the sequence does not name the request that failed");
    if (q2.status) c.fail("async.othersequence", "the failure of one sequence reached another: status " + std::to_string(q2.status));
    memcpy(S.st.ip[0], Y.st.ip[0], sizeof(int) * n);       // the pivots of a factorization that is not done have no meaning
    compare(c, S.st, Y.st, 0, "async.inflight", "after a failure in flight");
    std::string w;
    if (!rt::check_canaries(&w)) c.fail("async.outside", w);
    Y.destroy();
    end_plasma();
    c.nontrivial = true;
    c.weight = len + len2 + 1;
    c.label("failure in flight");
}

// ---------------------------------------------------------------- every asynchronous entry point: illegal arguments and failed sequences
enum { GA, GB, GC, BD, PB, TRI, TQ, TQ2, WD, TBND, LO, NSLOT };
template<class T> struct Slots {
    D d_[NSLOT];
    std::vector<std::pair<char *, size_t>> mem;     // all data a call may reach
    std::vector<std::vector<char>> keep;
    int *ip, *ip2;
    T *buf, *u, *vt;
    RT<T> *work, *val;
    Ws ws;
    int target = -1, pos = 0, how = 0;
    bool hit = false;
    plasma_enum_t e(int v) { if (pos++ == target) { hit = true; return 999; } return v; }
    D d(int k)
    {
        D x = d_[k];
        if (pos++ == target) {
            hit = true;
            switch (how) {
            case 0: x.nb = 0; break;
            case 1: x.type = 999; break;
            case 2: x.m = -1; break;
            case 3: x.precision = 0; break;
            case 4: x.n = x.gn + 1; break;
            default: x.mb = -x.mb; break;
            }
        }
        return x;
    }
    void add(void *p, size_t n) { mem.push_back({(char *)p, n}); }
    void snap() { keep.clear(); for (auto &m : mem) keep.emplace_back(m.first, m.first + m.second); }
    bool same() { for (size_t k = 0; k < mem.size(); k++) if (memcmp(mem[k].first, keep[k].data(), mem[k].second)) return false; return true; }
};
typedef Slots<double> SD;
typedef Slots<std::complex<double>> SZ;
inline int checked_args(const char *t) { int n = 0; for (; *t; t++) if ((*t == 'E' || *t == 'X') && t[1] == '(') n++; return n; }
template<class S> struct EP { const char *name; int valid; int nargs; std::function<void(S &, Sq *, Rq *)> f; };   // valid: a call with these arguments succeeds; 2: to be made outside of a parallel region
#define E(v) x.e(v)
#define X(k) x.d(k)
#define EPD(NAME, V, ...) {#NAME, V, checked_args(#__VA_ARGS__), [](SD &x, Sq *s, Rq *r) { NAME(__VA_ARGS__, s, r); }}
#define EPZ(NAME, V, ...) {#NAME, V, checked_args(#__VA_ARGS__), [](SZ &x, Sq *s, Rq *r) { NAME(__VA_ARGS__, s, r); }}
#define ZB cp(x.buf)
const std::vector<EP<SD>> &eps_d()
{
    static const std::vector<EP<SD>> v{
        EPD(plasma_omp_damax, 1, E(PlasmaColumnwise), X(GA), x.work, x.val), EPD(plasma_omp_dgbmm, 1, E(PlasmaNoTrans), E(PlasmaNoTrans), 1.0, X(BD), X(GB), 0.5, X(GC)),
        EPD(plasma_omp_dgbsv, 1, X(BD), x.ip, X(GB)), EPD(plasma_omp_dgbtrf, 1, X(BD), x.ip), EPD(plasma_omp_dgbtrs, 1, E(PlasmaNoTrans), X(BD), x.ip, X(GB)),
        EPD(plasma_omp_ddesc2ge, 1, X(GA), x.buf, 8), EPD(plasma_omp_ddesc2pb, 1, X(PB), x.buf, 8), EPD(plasma_omp_ddesc2tr, 1, X(TRI), x.buf, 8), EPD(plasma_omp_dgb2desc, 1, x.buf, 8, X(BD)),
        EPD(plasma_omp_dge2desc, 1, x.buf, 8, X(GA)), EPD(plasma_omp_dpb2desc, 1, x.buf, 8, X(PB)), EPD(plasma_omp_dtr2desc, 1, x.buf, 8, X(TRI)),
        EPD(plasma_omp_dgeadd, 1, E(PlasmaNoTrans), 1.0, X(GA), 0.5, X(GB)), EPD(plasma_omp_dgeinv, 1, X(GA), x.ip, X(WD)), EPD(plasma_omp_dgelqf, 1, X(GA), X(TQ), x.ws),
        EPD(plasma_omp_dgelqs, 1, X(GA), X(TQ), X(GB), x.ws), EPD(plasma_omp_dgels, 1, E(PlasmaNoTrans), X(GA), X(TQ), X(GB), x.ws),
        EPD(plasma_omp_dgemm, 1, E(PlasmaNoTrans), E(PlasmaNoTrans), 1.0, X(GA), X(GB), 0.5, X(GC)), EPD(plasma_omp_dgeqrf, 1, X(GA), X(TQ), x.ws), EPD(plasma_omp_dgeqrs, 1, X(GA), X(TQ), X(GB), x.ws),
        EPD(plasma_omp_dgesv, 1, X(GA), x.ip, X(GB)), EPD(plasma_omp_dgetrf, 1, X(GA), x.ip), EPD(plasma_omp_dgetri, 1, X(GA), x.ip, X(WD)), EPD(plasma_omp_dgetri_aux, 1, X(GA), X(WD)),
        EPD(plasma_omp_dgetrs, 1, E(PlasmaNoTrans), X(GA), x.ip, X(GB)), EPD(plasma_omp_dsymm, 1, E(PlasmaLeft), E(PlasmaLower), 1.0, X(GA), X(GB), 0.5, X(GC)),
        EPD(plasma_omp_dsyr2k, 1, E(PlasmaLower), E(PlasmaNoTrans), 1.0, X(GA), X(GB), 0.5, X(GC)), EPD(plasma_omp_dsyrk, 1, E(PlasmaLower), E(PlasmaNoTrans), 1.0, X(GA), 0.5, X(GC)),
        EPD(plasma_omp_dsytrf, 0, E(PlasmaLower), X(TRI), x.ip, X(TBND), x.ip2, X(TQ2)), EPD(plasma_omp_dsysv, 0, E(PlasmaLower), X(TRI), x.ip, X(TBND), x.ip2, X(GB), X(TQ2)), EPD(plasma_omp_dsytrs, 0, E(PlasmaLower), X(TRI), x.ip, X(TBND), x.ip2, X(GB)),
        EPD(plasma_omp_dlacpy, 1, E(PlasmaLower), E(PlasmaNoTrans), X(GA), X(GB)), EPD(plasma_omp_dlangb, 1, E(PlasmaOneNorm), X(BD), x.work, x.val), EPD(plasma_omp_dlange, 1, E(PlasmaOneNorm), X(GA), x.work, x.val),
        EPD(plasma_omp_dlansy, 1, E(PlasmaOneNorm), E(PlasmaLower), X(GA), x.work, x.val), EPD(plasma_omp_dlantr, 1, E(PlasmaOneNorm), E(PlasmaLower), E(PlasmaUnit), X(GA), x.work, x.val),
        EPD(plasma_omp_dlascl, 1, E(PlasmaLower), 2.0, 1.0, X(GA)), EPD(plasma_omp_dlaset, 1, E(PlasmaLower), 2.0, 1.0, X(GA)), EPD(plasma_omp_dgeswp, 1, E(PlasmaRowwise), X(GA), x.ip, 1), EPD(plasma_omp_dlauum, 1, E(PlasmaLower), X(GA)),
        EPD(plasma_omp_dpbsv, 1, E(PlasmaLower), X(PB), X(GB)), EPD(plasma_omp_dpbtrf, 1, E(PlasmaLower), X(PB)), EPD(plasma_omp_dpbtrs, 1, E(PlasmaLower), X(PB), X(GB)), EPD(plasma_omp_dpoinv, 1, E(PlasmaLower), X(GA)),
        EPD(plasma_omp_dposv, 1, E(PlasmaLower), X(GA), X(GB)), EPD(plasma_omp_dpotrf, 1, E(PlasmaLower), X(GA)), EPD(plasma_omp_dpotri, 1, E(PlasmaLower), X(GA)), EPD(plasma_omp_dpotrs, 1, E(PlasmaLower), X(GA), X(GB)),
        EPD(plasma_omp_dtradd, 1, E(PlasmaLower), E(PlasmaNoTrans), 1.0, X(GA), 0.5, X(GB)), EPD(plasma_omp_dtrmm, 1, E(PlasmaLeft), E(PlasmaLower), E(PlasmaNoTrans), E(PlasmaUnit), 1.0, X(GA), X(GB)),
        EPD(plasma_omp_dtrsm, 1, E(PlasmaLeft), E(PlasmaLower), E(PlasmaNoTrans), E(PlasmaUnit), 1.0, X(GA), X(GB)), EPD(plasma_omp_dtrtri, 1, E(PlasmaLower), E(PlasmaUnit), X(GA)),
        EPD(plasma_omp_dorglq, 1, X(GA), X(TQ), X(GB), x.ws), EPD(plasma_omp_dorgqr, 1, X(GA), X(TQ), X(GB), x.ws), EPD(plasma_omp_dormlq, 1, E(PlasmaLeft), E(PlasmaNoTrans), X(GA), X(TQ), X(GB), x.ws),
        EPD(plasma_omp_dormqr, 1, E(PlasmaLeft), E(PlasmaNoTrans), X(GA), X(TQ), X(GB), x.ws), EPD(plasma_omp_dgesdd, 2, E(PlasmaNoVec), E(PlasmaNoVec), X(GA), X(TQ), x.val, x.u, 8, x.vt, 8, x.ws),
        EPD(plasma_omp_dlag2s, 1, X(GA), X(LO)), EPD(plasma_omp_slag2d, 1, X(LO), X(GA)),
    };
    return v;
}
const std::vector<EP<SZ>> &eps_z()
{
    static const std::vector<EP<SZ>> v{
        EPZ(plasma_omp_zherk, 1, E(PlasmaLower), E(PlasmaNoTrans), 1.0, X(GA), 0.5, X(GC)), EPZ(plasma_omp_zher2k, 1, E(PlasmaLower), E(PlasmaNoTrans), cs(std::complex<double>(1)), X(GA), X(GB), 0.5, X(GC)),
        EPZ(plasma_omp_zhemm, 1, E(PlasmaLeft), E(PlasmaLower), cs(std::complex<double>(1)), X(GA), X(GB), cs(std::complex<double>(1)), X(GC)), EPZ(plasma_omp_zlanhe, 1, E(PlasmaOneNorm), E(PlasmaLower), X(GA), x.work, x.val),
        EPZ(plasma_omp_zposv, 1, E(PlasmaLower), X(GA), X(GB)), EPZ(plasma_omp_zunmqr, 1, E(PlasmaLeft), E(PlasmaNoTrans), X(GA), X(TQ), X(GB), x.ws), EPZ(plasma_omp_zgemm, 1, E(PlasmaNoTrans), E(PlasmaConjTrans), cs(std::complex<double>(1)), X(GA), X(GB), cs(std::complex<double>(1)), X(GC)),
        EPZ(plasma_omp_zlag2c, 1, X(GA), X(LO)), EPZ(plasma_omp_clag2z, 1, X(LO), X(GA)), EPZ(plasma_omp_zhetrf, 0, E(PlasmaLower), X(TRI), x.ip, X(TBND), x.ip2, X(TQ2)),
    };
    return v;
}
#undef E
#undef X
template<class T> void endpoint(Ctx &c, const std::vector<EP<Slots<T>>> &eps)
{
    const auto &ep = eps[c.s.u((uint32_t)eps.size())];
    int kind = (int)c.s.u(5);        // 0 valid call, 1 illegal argument, 2 missing sequence or request, 3 failed sequence, 4 library not initialized
    Cfg g;
    g.nb = 1 + c.s.u(5); g.ib = 1 + c.s.u(g.nb); g.hh = PlasmaFlatHouseholder;
    draw_sched(c, g.sc, false);
    int n = g.nb + (int)c.s.u(7), nb = g.nb, kd = (int)c.s.u(n);
    begin_plasma(g);
    Slots<T> x;
    int tk = (kd + nb - 1) / nb, tku = (2 * kd + nb - 1) / nb;
    typedef T Lo;
    int lodt = is_cplx<T> ? PlasmaComplexFloat : PlasmaRealFloat;
    const int dt = dtype_of<T>();
    int rc = 0;
    for (int k : {GA, GB, GC}) rc |= plasma_desc_general_create(dt, nb, nb, n, n, 0, 0, n, n, &x.d_[k]);
    rc |= plasma_desc_general_band_create(dt, PlasmaGeneral, nb, nb, (tk + tku + 1) * nb, n, 0, 0, n, n, kd, kd, &x.d_[BD]);
    rc |= plasma_desc_general_band_create(dt, PlasmaLower, nb, nb, (tk + 1) * nb, n, 0, 0, n, n, kd, kd, &x.d_[PB]);
    rc |= plasma_desc_triangular_create(dt, PlasmaLower, nb, nb, n, n, 0, 0, n, n, &x.d_[TRI]);
    rc |= plasma_descT_create(x.d_[GA], g.ib, g.hh, &x.d_[TQ]);
    rc |= plasma_desc_general_create(dt, nb, nb, n, nb, 0, 0, n, nb, &x.d_[WD]);
    int w5 = nb * (1 + 5 * x.d_[GA].mt);
    rc |= plasma_desc_general_create(dt, nb, nb, w5, nb, 0, 0, w5, nb, &x.d_[TQ2]);
    int kt = std::min(nb, n - 1), lm = ((kt + nb - 1) / nb + (2 * kt + nb - 1) / nb + 1) * nb;
    rc |= plasma_desc_general_band_create(dt, PlasmaGeneral, nb, nb, lm, n, 0, 0, n, n, kt, kt, &x.d_[TBND]);
    rc |= plasma_desc_general_create(lodt, nb, nb, n, n, 0, 0, n, n, &x.d_[LO]);
    rc |= plasma_workspace_create(&x.ws, (size_t)8 * nb * nb + 64, dt);
    if (rc) c.fail("async.setup", "creation of descriptors failed");
    // diagonally dominant values everywhere
    auto fill = [&](D &d, bool band) {
        for (int q = 0; q < d.nt; q++) for (int p = 0; p < d.mt; p++) {
            if (band ? !(p - q < d.klt && q - p < d.kut) : (d.type == PlasmaLower && p < q)) continue;
            char *t = (char *)plasma_tile_addr(d, p, q);
            int h = band ? nb : plasma_tile_mmain(d, p), w = plasma_tile_nmain(d, q);
            for (int j = 0; j < w; j++) for (int i = 0; i < h; i++) {
                double v = p * nb + i == q * nb + j ? n + 2 : 0.25;
                if (band && (p * d.mb + i - q * nb - j > d.kl || q * nb + j - p * d.mb - i > d.ku)) v = 0;
                if (d.precision == lodt) ((CT<std::complex<float>> *)0, lodt == PlasmaRealFloat ? (void)(((float *)t)[i + j * h] = (float)v) : (void)(((std::complex<float> *)t)[i + j * h] = (float)v));
                else ((T *)t)[i + j * h] = mk<T>(v, 0);
            }
        }
    };
    for (int k = 0; k < NSLOT; k++) {
        D &d = x.d_[k];
        size_t es = plasma_element_size(d.precision), bytes = (size_t)d.gm * d.gn * es;
        if (k == TRI) { size_t t = d.gm / d.mb; bytes = (t * (t + 1) / 2 * nb * nb + (size_t)d.gm * (d.gn % nb)) * es; }
        memset(d.matrix, 0, bytes);
        if (k != TQ && k != TQ2) fill(d, k == BD || k == PB || k == TBND);
        x.add(d.matrix, bytes);
    }
    x.ip = (int *)rt::guarded(sizeof(int) * (n + 1)); x.ip2 = (int *)rt::guarded(sizeof(int) * (n + 1));
    for (int i = 0; i < n; i++) x.ip[i] = x.ip2[i] = i + 1;
    x.add(x.ip, sizeof(int) * n); x.add(x.ip2, sizeof(int) * n);
    size_t nbuf = (size_t)8 * n * 2 + 8 * 30;
    x.buf = (T *)rt::guarded(sizeof(T) * nbuf); x.u = (T *)rt::guarded(sizeof(T) * 8 * n * 2); x.vt = (T *)rt::guarded(sizeof(T) * 8 * n * 2);
    for (size_t i = 0; i < nbuf; i++) x.buf[i] = mk<T>((double)i + 1, 0);
    x.val = (RT<T> *)rt::guarded(sizeof(RT<T>) * (n + 1)); x.work = (RT<T> *)rt::guarded(sizeof(RT<T>) * (8 * n * n + 64));
    for (int i = 0; i <= n; i++) x.val[i] = -5;
    // the workspace of the norms and maxima is documented as output: what it holds before the call must not matter
    bool norm = strstr(ep.name, "lan") || strstr(ep.name, "amax");
    for (int i = 0; i < 8 * n * n + 64; i++) x.work[i] = norm ? (RT<T>)(1e20 + i) : 0;
    int nw = 8 * n * n + 64;
    x.add(x.val, sizeof(RT<T>) * (n + 1)); x.add(x.buf, sizeof(T) * nbuf);
    x.snap();
    Sq q; Rq r; plasma_sequence_init(&q); plasma_request_init(&r);
    Sq *ps = &q; Rq *pr = &r;
    if (n > 8 && strstr(ep.name, "2")) n = 8;     // the layout conversions use arrays with eight rows
    if (x.d_[GA].m > 8 && strstr(ep.name, "desc")) throw Discard();
    std::string w = ep.name;
    if (kind == 1) { x.target = (int)c.s.u(ep.nargs); x.how = (int)c.s.u(6); w += " with illegal argument " + std::to_string(x.target) + "/" + std::to_string(x.how); }
    if (kind == 2) { if (c.s.u(2)) { pr = nullptr; w += " without request"; } else { ps = nullptr; w += " without sequence"; } }
    if (kind == 3) { q.status = PlasmaErrorIllegalValue; w += " in a failed sequence"; }
    if (kind == 4) w += " before initialization";
    if (kind == 0 && !ep.valid) throw Discard();
    // a conversion of a band array needs enough rows
    if (kind == 0 && strstr(ep.name, "pb") && strstr(ep.name, "desc") && kd + 1 > 8) throw Discard();
    c.desc << w << " n=" << x.d_[GA].m << " kd=" << kd << " " << g.str();
    note_case_text(c.desc.str());
    std::string nm(ep.name);
    rt::stats_reset();
    if (kind == 4) plasma_finalize();
    if (ep.valid == 2) ep.f(x, ps, pr);
    else rt::parallel_master([&]() { ep.f(x, ps, pr); });
    if (kind == 4) plasma_init();
    if (kind == 1 && !x.hit) c.fail(nm + ".harness", "argument not reached");
    if (kind == 0) {
        if (q.status || r.status) c.fail(nm + ".status", "valid call: sequence status " + std::to_string(q.status) + ", request status " + std::to_string(r.status));
        if (norm) {
            std::vector<RT<T>> v(x.val, x.val + n + 1);
            for (int i = 0; i < nw; i++) x.work[i] = 0;
            plasma_sequence_init(&q); plasma_request_init(&r);
            rt::parallel_master([&]() { ep.f(x, ps, pr); });
            if (memcmp((void *)v.data(), (void *)x.val, sizeof(RT<T>) * v.size())) c.fail(nm + ".workspace", w + ": the result depends on what the workspace held before the call: " + std::to_string((double)v[0]) + " instead of " + std::to_string((double)x.val[0]));
            c.label("norm with a used workspace");
        }
    }
    else {
        if (!x.same()) c.fail(nm + ".effect", w + ": data changed");
        if (kind == 1 && (r.status != q.status || (r.status != PlasmaErrorIllegalValue && r.status != PlasmaErrorNotSupported))) c.fail(nm + ".illegal", w + ": sequence status " + std::to_string(q.status) + ", request status " + std::to_string(r.status));
        if (kind == 1 && q.request != &r) c.fail(nm + ".illegal", w + ": the sequence does not name the failed request");
        if (kind == 2 && pr && r.status != PlasmaErrorIllegalValue) c.fail(nm + ".illegal", w + ": request status " + std::to_string(r.status));
        if (kind == 2 && ps && q.status != PlasmaErrorIllegalValue) c.fail(nm + ".illegal", w + ": sequence status " + std::to_string(q.status));
        if (kind == 4 && ((q.status != PlasmaErrorIllegalValue && q.status != PlasmaErrorNotInitialized) || r.status != q.status)) c.fail(nm + ".illegal", w + ": sequence status " + std::to_string(q.status) + ", request status " + std::to_string(r.status));
        if (kind == 3 && q.status == PlasmaSuccess) c.fail(nm + ".revived", w + ": the sequence became successful");
    }
    std::string cw;
    if (!rt::check_canaries(&cw)) c.fail(nm + ".outside", cw);
    for (int k = 0; k < NSLOT; k++) plasma_desc_destroy(&x.d_[k]);
    plasma_workspace_destroy(&x.ws);
    end_plasma();
    c.nontrivial = true;
    static const char *L[] = {"entry valid", "entry illegal argument", "entry without sequence or request", "entry failed sequence", "entry before initialization"};
    c.label(L[kind]);
}
void c20(Ctx &c)
{
    switch (c.s.u(8)) {
    case 6: if (c.s.u(2)) return inflight<double>(c); return inflight<std::complex<float>>(c);
    case 7: if (c.s.u(2)) return inflight<float>(c); return inflight<std::complex<double>>(c);
    case 4: return endpoint<double>(c, eps_d());
    case 5: if (c.s.u(3)) return endpoint<double>(c, eps_d()); return endpoint<std::complex<double>>(c, eps_z());
    case 0: return program<double>(c);
    case 1: return program<float>(c);
    case 2: return program<std::complex<double>>(c);
    default: return program<std::complex<float>>(c);
    }
}
}
void async_chain_races(Ctx &c)
{
    switch (c.s.u(4)) {
    case 0: return program<double>(c, true);
    case 1: return program<float>(c, true);
    case 2: return program<std::complex<double>>(c, true);
    default: return program<std::complex<float>>(c, true);
    }
}
static RegProp rp20({"C20", "at least two calls were chained and they created at least 20 tasks, or an entry point was called with an illegal argument, without sequence or request, in a failed sequence, or for success", c20, 30000, 400000});

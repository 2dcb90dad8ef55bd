// C21: descriptors, views and layout translation.
#include "lib.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>

namespace {
const int DT[4] = {PlasmaRealDouble, PlasmaRealFloat, PlasmaComplexDouble, PlasmaComplexFloat};
std::string dstr(const D &A)
{
    char b[300];
    snprintf(b, sizeof b, "desc(type=%d uplo=%d prec=%d mb=%d nb=%d gm=%d gn=%d i=%d j=%d m=%d n=%d kl=%d ku=%d)", A.type, A.type == PlasmaGeneralBand ? A.uplo : 0, A.precision, A.mb, A.nb, A.gm, A.gn, A.i, A.j, A.m, A.n, A.kl, A.ku);
    return b;
}
bool tile_exists(const D &A, int m, int n)
{
    if (A.type == PlasmaGeneralBand) return m - n < A.klt && n - m < A.kut;
    if (A.type == PlasmaUpper) return m <= n;
    if (A.type == PlasmaLower) return m >= n;
    return true;
}
int tile_rows(const D &A, int m, int) { return plasma_tile_mmain(A, m); }
size_t should_size(const D &A)
{
    size_t e = plasma_element_size(A.precision);
    if (A.type == PlasmaUpper || A.type == PlasmaLower) { size_t t = A.gm / A.mb; return (t * (t + 1) / 2 * A.mb * A.nb + (size_t)A.gm * (A.gn % A.nb)) * e; }
    return (size_t)A.gm * A.gn * e;
}
// the tiles of the whole matrix of A (A is not a view)
struct Shape { int type, uplo, prec, mb, nb, gm, gn, m, n, kl, ku; };
Shape draw_shape(Ctx &c, bool huge)
{
    Shape s{};
    s.prec = DT[c.s.u(4)];
    int k = (int)c.s.u(6);     // general x2, upper, lower, band x2
    s.mb = 1 + c.s.u(9);
    s.nb = k < 2 && c.s.u(2) ? 1 + (int)c.s.u(9) : s.mb;
    if (huge) { s.mb = 64 + c.s.u(1000); s.nb = k < 2 ? 64 + (int)c.s.u(1000) : s.mb; }
    int lim = huge ? 300 : 5;
    auto dim = [&](int b) { int v = b * (int)c.s.u(lim) + (c.s.u(3) ? (int)c.s.u(b) : 0); return std::max(v, 0); };
    s.uplo = PlasmaGeneral;
    if (k < 2) { s.type = PlasmaGeneral; s.gm = dim(s.mb); s.gn = dim(s.nb); s.m = s.gm; s.n = s.gn; }
    else if (k < 4) { s.type = k == 2 ? PlasmaUpper : PlasmaLower; s.gm = s.gn = s.m = s.n = dim(s.mb); }
    else {
        s.type = PlasmaGeneralBand;
        s.uplo = c.s.pick({PlasmaGeneral, PlasmaUpper, PlasmaLower});
        s.m = std::max(1, dim(s.mb)); s.n = s.uplo == PlasmaGeneral && c.s.u(2) ? std::max(1, dim(s.mb)) : s.m;
        s.kl = (int)c.s.u(std::min(s.m, huge ? 3000 : 12)); s.ku = (int)c.s.u(std::min(s.n, huge ? 3000 : 12));
        if (s.uplo != PlasmaGeneral) s.kl = s.ku = std::min(s.kl, s.ku);
        int klt = s.uplo == PlasmaUpper ? 1 : 1 + (s.kl + s.mb - 1) / s.mb;
        int kut = s.uplo == PlasmaLower ? 1 : 1 + ((s.uplo == PlasmaGeneral ? s.kl : 0) + s.ku + s.mb - 1) / s.mb;
        s.gm = s.mb * (klt + kut - 1 + (int)(c.s.u(4) == 3)) ;
        s.gn = s.n;
    }
    return s;
}
int create(const Shape &s, D *A)
{
    if (s.type == PlasmaGeneral) return plasma_desc_general_create(s.prec, s.mb, s.nb, s.gm, s.gn, 0, 0, s.m, s.n, A);
    if (s.type == PlasmaGeneralBand) return plasma_desc_general_band_create(s.prec, s.uplo, s.mb, s.nb, s.gm, s.gn, 0, 0, s.m, s.n, s.kl, s.ku, A);
    return plasma_desc_triangular_create(s.prec, s.type, s.mb, s.nb, s.gm, s.gn, 0, 0, s.m, s.n, A);
}
int init(const Shape &s, void *p, D *A)
{
    if (s.type == PlasmaGeneral) return plasma_desc_general_init(s.prec, p, s.mb, s.nb, s.gm, s.gn, 0, 0, s.m, s.n, A);
    if (s.type == PlasmaGeneralBand) return plasma_desc_general_band_init(s.prec, s.uplo, p, s.mb, s.nb, s.gm, s.gn, 0, 0, s.m, s.n, s.kl, s.ku, A);
    return plasma_desc_triangular_init(s.prec, s.type, p, s.mb, s.nb, s.gm, s.gn, 0, 0, s.m, s.n, A);
}
void check_shape(Ctx &c, const D &A)
{
    int sm = 0, sn = 0;
    for (int k = 0; k < A.mt; k++) { int v = plasma_tile_mview(A, k); if (v < 1 || v > A.mb) c.fail("desc.view", "tile row " + std::to_string(k) + " has height " + std::to_string(v) + " in " + dstr(A)); sm += v; }
    for (int k = 0; k < A.nt; k++) { int v = plasma_tile_nview(A, k); if (v < 1 || v > A.nb) c.fail("desc.view", "tile column " + std::to_string(k) + " has width " + std::to_string(v) + " in " + dstr(A)); sn += v; }
    if (sm != A.m || sn != A.n) c.fail("desc.view", "tiles add up to " + std::to_string(sm) + "x" + std::to_string(sn) + " in " + dstr(A));
    if (A.type != PlasmaGeneralBand && A.gm > 0 && A.gn > 0) {
        int gm = 0, gn = 0;
        for (int k = 0; k < A.gmt; k++) { D W = A; W.i = W.j = 0; gm += plasma_tile_mmain(W, k); }
        for (int k = 0; k < A.gnt; k++) { D W = A; W.i = W.j = 0; gn += plasma_tile_nmain(W, k); }
        if (gm != A.gm || gn != A.gn) c.fail("desc.main", "stored tiles add up to " + std::to_string(gm) + "x" + std::to_string(gn) + " in " + dstr(A));
    }
}
// tiles occupy disjoint parts of the allocation (addresses only)
void check_addresses(Ctx &c, const D &A, bool all)
{
    size_t e = plasma_element_size(A.precision), total = should_size(A);
    std::vector<std::pair<uint64_t, uint64_t>> r;
    auto add = [&](int m, int n) {
        if (m < 0 || n < 0 || m >= A.mt || n >= A.nt || !tile_exists(A, m, n)) return;
        uint64_t a = (uint64_t)((char *)plasma_tile_addr(A, m, n) - (char *)A.matrix), l = (uint64_t)tile_rows(A, m, n) * plasma_tile_nmain(A, n) * e;
        if (a > total || a + l > total) c.fail("desc.outside", "tile (" + std::to_string(m) + "," + std::to_string(n) + ") lies outside the allocation of " + dstr(A));
        r.push_back({a, a + l});
    };
    if (all) { for (int n = 0; n < A.nt; n++) for (int m = 0; m < A.mt; m++) add(m, n); }
    else {
        std::set<std::pair<int, int>> t;
        for (int k = 0; k < 150; k++) {
            int m = (int)c.s.u(A.mt), n = (int)c.s.u(A.nt);
            if (A.type == PlasmaGeneralBand) m = n + A.klt - 1 - (int)c.s.u(A.klt + A.kut - 1);
            for (int d = 0; d < 2; d++) for (int f = 0; f < 2; f++) t.insert({m + d, n + f});
        }
        for (int k = 0; k < 3; k++) { t.insert({A.mt - 1 - k, A.nt - 1}); t.insert({A.mt - 1, A.nt - 1 - k}); t.insert({0, k}); t.insert({k, 0}); t.insert({0, A.nt - 1 - k}); t.insert({A.mt - 1 - k, 0}); }
        for (auto &x : t) add(x.first, x.second);
    }
    std::sort(r.begin(), r.end());
    for (size_t k = 1; k < r.size(); k++) if (r[k].first < r[k - 1].second) c.fail("desc.overlap", "two tiles overlap at offset " + std::to_string(r[k].first) + " of " + dstr(A));
    if (r.size() > 3) c.nontrivial = true;
}
void views_agree(Ctx &c, const D &A, const D &V, int ti, int tj)
{
    for (int n = 0; n < V.nt; n++)
        for (int m = 0; m < V.mt; m++) {
            if (!tile_exists(A, m + ti, n + tj)) continue;
            if (plasma_tile_addr(V, m, n) != plasma_tile_addr(A, m + ti, n + tj)) c.fail("desc.viewaddr", "tile (" + std::to_string(m) + "," + std::to_string(n) + ") of the view at tile (" + std::to_string(ti) + "," + std::to_string(tj) + ") is not the tile of " + dstr(A));
            if (plasma_tile_mmain(V, m) != plasma_tile_mmain(A, m + ti) || plasma_tile_nmain(V, n) != plasma_tile_nmain(A, n + tj)) c.fail("desc.viewmain", "stored size of a tile of a view differs from the matrix, " + dstr(A));
            if (plasma_tile_mview(V, m) > plasma_tile_mmain(V, m) || plasma_tile_nview(V, n) > plasma_tile_nmain(V, n)) c.fail("desc.viewsize", "a tile of a view is larger than the stored tile, " + dstr(V));
        }
}
void draw_view(Ctx &c, const D &A, D *V, int *ti, int *tj)
{
    *ti = A.mt ? (int)c.s.u(A.mt) : 0; *tj = A.nt ? (int)c.s.u(A.nt) : 0;
    int i = *ti * A.mb, j = *tj * A.nb;
    int m = A.m - i - (int)c.s.u(A.m - i + 1), n = A.n - j - (int)c.s.u(A.n - j + 1);
    *V = plasma_desc_view(A, i, j, m, n);
    if (V->m != m || V->n != n) c.fail("desc.view", "view has other dimensions than requested");
    if (c.s.u(3) == 2 && V->mt && V->nt) {       // view of a view
        int a = (int)c.s.u(V->mt), b = (int)c.s.u(V->nt);
        D W = plasma_desc_view(*V, a * A.mb, b * A.nb, V->m - a * A.mb, V->n - b * A.nb);
        *V = W; *ti += a; *tj += b;
    }
}
void storage(Ctx &c)
{
    bool huge = c.s.u(3) == 2;
    Shape s = draw_shape(c, huge);
    D A;
    if (huge) {
        if (init(s, (void *)((uint64_t)1 << 40), &A)) c.fail("desc.init", "initialization of a valid descriptor failed");
        if (plasma_desc_check(A)) c.fail("desc.check", "valid descriptor rejected: " + dstr(A));
        c.desc << dstr(A);
        note_case_text(dstr(A));
        check_shape(c, A);
        if (A.mt && A.nt) check_addresses(c, A, false);
        if (should_size(A) >> 31) c.label("over 2^31 bytes");
        c.label("addresses");
        return;
    }
    int e = create(s, &A);
    if (e) c.fail("desc.create", "creation of a valid descriptor returned " + std::to_string(e));
    c.desc << dstr(A);
    note_case_text(dstr(A));
    if (A.m != s.m || A.n != s.n || A.gm != s.gm || A.gn != s.gn || A.mb != s.mb || A.nb != s.nb || A.type != s.type || A.precision != s.prec) c.fail("desc.fields", "descriptor does not hold what it was created with: " + dstr(A));
    check_shape(c, A);
    check_addresses(c, A, true);
    // every element of every tile keeps what was stored in it
    size_t es = plasma_element_size(A.precision);
    for (int pass = 0; pass < 2; pass++) {
        uint64_t id = 1;
        for (int n = 0; n < A.nt; n++)
            for (int m = 0; m < A.mt; m++) {
                if (!tile_exists(A, m, n)) continue;
                uint8_t *p = (uint8_t *)plasma_tile_addr(A, m, n);
                size_t cnt = (size_t)tile_rows(A, m, n) * plasma_tile_nmain(A, n);
                for (size_t k = 0; k < cnt; k++) {
                    uint64_t h = hash2(id++, 77), h2[2] = {h, ~h};
                    if (!pass) memcpy(p + k * es, h2, es);
                    else if (memcmp(p + k * es, h2, es)) c.fail("desc.overlap", "an element of tile (" + std::to_string(m) + "," + std::to_string(n) + ") was overwritten through another tile of " + dstr(A));
                }
            }
    }
    if (s.type != PlasmaGeneralBand && A.mt && A.nt) {
        D V; int ti, tj;
        draw_view(c, A, &V, &ti, &tj);
        check_shape(c, V);
        views_agree(c, A, V, ti, tj);
        c.label("view");
    }
    std::string w;
    if (!rt::check_canaries(&w)) c.fail("desc.outside", w);
    plasma_desc_destroy(&A);
    c.label("storage");
}
// ---------------------------------------------------------------- translation
template<class T> T val(uint64_t id) { return mk<T>((double)(id % 16000000), -(double)(id % 15999989) - 1); }
template<class T> bool eq(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
struct Run { Sq q; Rq r; Run() { plasma_sequence_init(&q); plasma_request_init(&r); } };
template<class T> struct Big {      // caller array of one precision; very large ones are mapped sparsely
    T *p; size_t len; bool sparse;
    Big(size_t n) : len(n), sparse(n * sizeof(T) > ((size_t)1 << 28))
    {
        if (!sparse) p = (T *)rt::guarded(std::max<size_t>(n, 1) * sizeof(T));
        else {
            p = (T *)mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) throw Discard();
        }
    }
    ~Big() { if (sparse) munmap(p, len * sizeof(T)); }
};
template<class T> void translate(Ctx &c)
{
    Cfg g; draw_cfg(c, g, false);
    int kind = (int)c.s.u(6);       // 0,1 general, 2 triangular, 3 band with one triangle, 4 general band, 5 dense into band
    bool wide = c.s.u(160) == 159 && kind != 2 && kind != 5 && sizeof(T) == 4;
    int mb = 1 + c.s.u(9), nb = kind < 2 && c.s.u(2) ? 1 + (int)c.s.u(9) : mb;
    int m = draw_dim(c, g, 0, 30), n = kind == 2 || kind == 3 ? m : draw_dim(c, g, 0, 30);
    if (kind >= 2) { m = std::max(m, 1); n = std::max(n, 1); }
    int far = !wide && c.s.u(40) == 39 ? c.s.pick({1 << 28, 1 << 30, INT_MAX - 20}) + (int)c.s.u(20) : 0;    // ld*j leaves int after a few columns
    if (wide) { mb = nb = 32; n = 2100 + (int)c.s.u(100); m = kind >= 3 ? n : m; }
    begin_plasma(g);
    D A{}, V{};
    auto ok = [&](Run &x, const char *w) { if (x.q.status || x.r.status) c.fail("translate.status", std::string(w) + " of a valid descriptor failed"); };
    char b[200];
    rt::stats_reset();
    if (kind < 3) {
        int up = kind == 2 ? c.s.pick({PlasmaUpper, PlasmaLower}) : PlasmaGeneral;
        int e = kind < 2 ? plasma_desc_general_create(dtype_of<T>(), mb, nb, m, n, 0, 0, m, n, &A) : plasma_desc_triangular_create(dtype_of<T>(), up, mb, nb, m, n, 0, 0, m, n, &A);
        if (e) c.fail("desc.create", "creation of a valid descriptor returned " + std::to_string(e));
        V = A;
        int ti = 0, tj = 0;
        if (kind < 2 && c.s.u(2) && !wide) draw_view(c, A, &V, &ti, &tj);
        int ld = far ? far : wide ? (1 << 20) + (int)c.s.u(9) : draw_ld(c, V.m);
        snprintf(b, sizeof b, "%s view %d,%d %dx%d lda=%d of ", kind < 2 ? "ge" : "tr", V.i, V.j, V.m, V.n, ld);
        c.desc << b << dstr(A);
        note_case_text(c.desc.str());
        Big<T> S((size_t)ld * V.n), R((size_t)ld * V.n);
        auto stored = [&](int i, int j) { return up == PlasmaGeneral || (up == PlasmaUpper ? i / mb <= j / nb : i / mb >= j / nb); };
        const T mark = val<T>(9999999), pad = val<T>(8888888);
        int rows = wide || far ? std::min(ld, V.m + 3) : ld;
        for (int j = 0; j < V.n; j++) for (int i = 0; i < rows; i++) { S.p[(size_t)j * ld + i] = i < V.m ? val<T>(1 + i + (uint64_t)j * V.m) : mark; R.p[(size_t)j * ld + i] = pad; }
        // whole storage holds a pattern
        auto each = [&](auto f) {
            for (int tn = 0; tn < A.nt; tn++) for (int tm = 0; tm < A.mt; tm++) {
                if (!tile_exists(A, tm, tn)) continue;
                T *p = (T *)plasma_tile_addr(A, tm, tn);
                int h = plasma_tile_mmain(A, tm), w = plasma_tile_nmain(A, tn);
                for (int y = 0; y < w; y++) for (int x = 0; x < h; x++) f(tm * mb + x, tn * nb + y, p[(size_t)y * h + x]);
            }
        };
        each([&](int i, int j, T &x) { x = val<T>(5000000 + i * 3001 + j); });
        Run r1, r2;
        rt::parallel_master([&]() { if (kind < 2) P<T>::o_ge2desc(S.p, ld, V, &r1.q, &r1.r); else P<T>::o_tr2desc(S.p, ld, V, &r1.q, &r1.r); });
        ok(r1, "translation to tiles");
        each([&](int i, int j, T &x) {
            int vi = i - V.i, vj = j - V.j;
            bool in = vi >= 0 && vj >= 0 && vi < V.m && vj < V.n;
            T want = in ? val<T>(1 + vi + (uint64_t)vj * V.m) : val<T>(5000000 + i * 3001 + j);
            // within the diagonal tiles of a triangular matrix the other triangle may or may not be translated
            if (!eq(x, want)) c.fail(in ? "translate.in" : "translate.outside", "tile element (" + std::to_string(i) + "," + std::to_string(j) + ") is wrong after translation to tiles");
        });
        rt::parallel_master([&]() { if (kind < 2) P<T>::o_desc2ge(V, R.p, ld, &r2.q, &r2.r); else P<T>::o_desc2tr(V, R.p, ld, &r2.q, &r2.r); });
        ok(r2, "translation from tiles");
        for (int j = 0; j < V.n; j++) for (int i = 0; i < rows; i++) {
            T x = R.p[(size_t)j * ld + i], y = S.p[(size_t)j * ld + i];
            bool in = i < V.m && stored(i, j);
            if (!eq(x, in ? y : pad)) c.fail(in ? "translate.back" : "translate.pad", "element (" + std::to_string(i) + "," + std::to_string(j) + ") is wrong after translation back");
            if (!eq(y, i < V.m ? val<T>(1 + i + (uint64_t)j * V.m) : mark)) c.fail("translate.source", "translation changed its source");
        }
        c.label(kind < 2 ? "general" : "triangular");
    }
    else {
        int uplo = kind == 3 ? c.s.pick({PlasmaUpper, PlasmaLower}) : PlasmaGeneral;
        int kl = (int)c.s.u(std::min(m, 14)), ku = (int)c.s.u(std::min(n, 14));
        if (kind == 3) kl = ku;
        if (kl >= m || ku >= n) throw Discard();
        int kut = uplo == PlasmaLower ? 0 : ((uplo == PlasmaGeneral ? kl : 0) + ku + nb - 1) / nb, klt = uplo == PlasmaUpper ? 0 : (kl + nb - 1) / nb;
        int e = plasma_desc_general_band_create(dtype_of<T>(), uplo, nb, nb, (kut + klt + 1) * nb, n, 0, 0, m, n, kl, ku, &A);
        if (e) c.fail("desc.create", "creation of a valid band descriptor returned " + std::to_string(e));
        int off = uplo == PlasmaUpper ? ku : uplo == PlasmaLower ? 0 : ku + kl;
        int lo = uplo == PlasmaLower ? 0 : ku, hi = uplo == PlasmaUpper ? 0 : kl;        // -lo <= i-j <= hi
        if (kind == 5) {
            int ld = far ? far : draw_ld(c, m);
            snprintf(b, sizeof b, "dense to band lda=%d ", ld);
            c.desc << b << dstr(A);
            note_case_text(c.desc.str());
            Big<T> S((size_t)ld * n);
            for (int j = 0; j < n; j++) for (int i = 0; i < (far ? m + 1 : ld); i++) S.p[(size_t)j * ld + i] = i < m ? val<T>(1 + i + (uint64_t)j * m) : val<T>(9999999);
            Run r1;
            rt::parallel_master([&]() { P<T>::o_gb2desc(S.p, ld, A, &r1.q, &r1.r); });
            ok(r1, "translation to tiles");
            for (int j = 0; j < n; j++) for (int i = std::max(0, j - ku); i < std::min(m, j + kl + 1); i++) {
                T x = ((T *)plasma_tile_addr(A, i / nb, j / nb))[i % nb + (j % nb) * plasma_tile_mmain_band(A, i / nb, j / nb)];
                if (!eq(x, S.p[(size_t)j * ld + i])) c.fail("translate.in", "band tile element (" + std::to_string(i) + "," + std::to_string(j) + ") is wrong after translation to tiles");
            }
        }
        else {
            int ld = far ? far : wide ? (1 << 20) + (int)c.s.u(9) : uplo == PlasmaGeneral ? (kut + klt + 1) * nb + (int)c.s.u(3) : kl + 1 + (int)c.s.u(4);
            snprintf(b, sizeof b, "band ldab=%d ", ld);
            c.desc << b << dstr(A);
            note_case_text(c.desc.str());
            size_t len = (size_t)ld * n;
            Big<T> S(len), R(len);
            int rows = wide || far ? (kut + klt + 1) * nb : ld;
            const T pad = val<T>(8888888);
            for (int j = 0; j < n; j++) for (int i = 0; i < rows; i++) { S.p[(size_t)j * ld + i] = val<T>(1 + i + (uint64_t)j * rows); R.p[(size_t)j * ld + i] = pad; }
            Run r1, r2;
            rt::parallel_master([&]() { P<T>::o_pb2desc(S.p, ld, A, &r1.q, &r1.r); });
            ok(r1, "translation to tiles");
            for (int j = 0; j < n; j++) for (int i = std::max(0, j - lo); i < std::min(m, j + hi + 1); i++) {
                T x = ((T *)plasma_tile_addr(A, i / nb, j / nb))[i % nb + (j % nb) * plasma_tile_mmain_band(A, i / nb, j / nb)];
                if (!eq(x, S.p[(size_t)j * ld + off + i - j])) c.fail("translate.in", "band tile element (" + std::to_string(i) + "," + std::to_string(j) + ") is wrong after translation to tiles");
            }
            rt::parallel_master([&]() { P<T>::o_desc2pb(A, R.p, ld, &r2.q, &r2.r); });
            ok(r2, "translation from tiles");
            for (int j = 0; j < n; j++) for (int r = 0; r < rows; r++) {
                int i = r - off + j;
                bool band = i >= 0 && i < m && i - j <= hi && j - i <= lo;
                T x = R.p[(size_t)j * ld + r], y = S.p[(size_t)j * ld + r];
                if (band ? !eq(x, y) : !(eq(x, y) || eq(x, pad))) c.fail(band ? "translate.back" : "translate.pad", "band array element (" + std::to_string(r) + "," + std::to_string(j) + ") is wrong after translation back");
                if (uplo != PlasmaGeneral && !band && !eq(x, pad)) c.fail("translate.pad", "band array element (" + std::to_string(r) + "," + std::to_string(j) + ") outside the band was written");
                if (!eq(y, val<T>(1 + r + (uint64_t)j * rows))) c.fail("translate.source", "translation changed its source");
            }
        }
        c.label(kind == 5 ? "dense to band" : uplo == PlasmaGeneral ? "general band" : "triangular band");
    }
    if (wide) c.label("leading dimension over 2^20");
    if (far) c.label("leading dimension over 2^28");
    std::string w;
    if (!rt::check_canaries(&w)) c.fail("translate.outside", w);
    c.nontrivial = rt::stats().tasks >= 2 || (kind >= 3);
    plasma_desc_destroy(&A);
    end_plasma();
}
// ---------------------------------------------------------------- rejection
void malformed(Ctx &c)
{
    Shape s = draw_shape(c, false);
    if (s.m < 1 || s.n < 1) throw Discard();
    Shape t = s;
    bool band = s.type == PlasmaGeneralBand, tri = s.type == PlasmaUpper || s.type == PlasmaLower;
    int i = 0, j = 0;
    const char *w = "";
    switch (c.s.u(17)) {
    case 0: t.prec = c.s.pick({0, 999, (int)PlasmaInteger, (int)PlasmaByte}); w = "precision"; break;
    case 1: t.mb = -t.mb; w = "mb"; if (tri) t.nb = t.mb; break;
    case 2: t.nb = -t.nb; w = "nb"; if (tri) t.mb = t.nb; break;
    case 3: t.mb = 0; w = "mb"; break;
    case 4: t.nb = 0; w = "nb"; break;
    case 5: t.m = -1; w = "m"; break;
    case 6: t.n = -1; w = "n"; break;
    case 7: if (band) throw Discard(); t.m = t.gm + 1; w = "m > gm"; break;
    case 8: t.n = t.gn + 1; w = "n > gn"; break;
    case 9: i = -t.mb; w = "i < 0"; break;
    case 10: j = -t.nb; w = "j < 0"; break;
    case 11: if (t.mb < 2 || t.gm < 2 || band) throw Discard(); i = 1; t.m = 1; w = "i not aligned"; break;
    case 12: if (t.nb < 2 || t.gn < 2 || band) throw Discard(); j = 1; t.n = 1; w = "j not aligned"; break;
    case 13: if (band) throw Discard(); i = t.gm - t.gm % t.mb; if (!i) throw Discard(); t.m = t.gm % t.mb + 1; w = "submatrix out of bounds"; break;
    case 14: if (tri) { t.gm++; t.m = t.gm; w = "not square"; }
             else if (band) { t.gm = t.mb * ((t.uplo == PlasmaUpper ? 1 : 1 + (t.kl + t.mb - 1) / t.mb) + (t.uplo == PlasmaLower ? 1 : 1 + ((t.uplo == PlasmaGeneral ? t.kl : 0) + t.ku + t.mb - 1) / t.mb) - 1) - 1; w = "no room for the band"; }
             else throw Discard();
             break;
    case 15: if (!band) throw Discard(); if (c.s.u(2)) t.kl = c.s.pick({-1, t.m}); else t.ku = c.s.pick({-1, t.n}); w = "band width"; break;
    case 16: if (tri) t.type = 999; else if (band) t.uplo = 999; else throw Discard(); w = "kind"; break;
    }
    D A{};
    long live = rt::live_count();
    char b[200];
    snprintf(b, sizeof b, "illegal %s: type=%d uplo=%d prec=%d mb=%d nb=%d gm=%d gn=%d i=%d j=%d m=%d n=%d kl=%d ku=%d", w, t.type, t.uplo, t.prec, t.mb, t.nb, t.gm, t.gn, i, j, t.m, t.n, t.kl, t.ku);
    c.desc << b;
    note_case_text(b);
    int e = band ? plasma_desc_general_band_create(t.prec, t.uplo, t.mb, t.nb, t.gm, t.gn, i, j, t.m, t.n, t.kl, t.ku, &A)
          : tri ? plasma_desc_triangular_create(t.prec, t.type, t.mb, t.nb, t.gm, t.gn, i, j, t.m, t.n, &A)
                : plasma_desc_general_create(t.prec, t.mb, t.nb, t.gm, t.gn, i, j, t.m, t.n, &A);
    if (e != PlasmaErrorIllegalValue) c.fail("desc.accepted", "creation with " + std::string(b) + " returned " + std::to_string(e));
    if (rt::live_count() != live) c.fail("desc.leak", "rejected creation kept memory, " + std::string(b));
    c.nontrivial = true;
    c.label("rejected");
}
void bad_view(Ctx &c)
{
    Shape s = draw_shape(c, false);
    if (s.type == PlasmaGeneralBand || s.m < 1 || s.n < 1) throw Discard();
    D A;
    if (create(s, &A)) c.fail("desc.create", "creation of a valid descriptor failed");
    // of the descriptor itself or of a view of it: nothing may reach beyond the stored matrix
    D B = A;
    if (c.s.u(3)) {
        int bi = A.mb * (int)c.s.u(A.mt), bj = A.nb * (int)c.s.u(A.nt);
        int bm = 1 + (int)c.s.u(A.m - bi), bn = 1 + (int)c.s.u(A.n - bj);
        B = plasma_desc_view(A, bi, bj, bm, bn);
        if (B.m != bm || B.n != bn) c.fail("view.refused", "a legal view is refused");
        c.label("view of a view rejected");
    }
    int i = 0, j = 0, m = B.m, n = B.n;
    if (c.s.u(2)) { i = B.mb * (int)c.s.u(B.mt); m = B.gm - B.i - i + 1 + (int)c.s.u(3); }
    else { j = B.nb * (int)c.s.u(B.nt); n = B.gn - B.j - j + 1 + (int)c.s.u(3); }
    c.desc << "view at " << i << "," << j << " of size " << m << "x" << n << " of " << dstr(B);
    note_case_text(c.desc.str());
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        int z = open("/dev/null", 1);
        dup2(z, 2);
        (void)plasma_desc_view(B, i, j, m, n);
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) c.fail("view.accepted", "a view outside the matrix is accepted: " + c.desc.str());
    plasma_desc_destroy(&A);
    c.nontrivial = true;
    c.label("view rejected");
}
void bad_translate(Ctx &c)
{
    // the translation functions refuse inconsistent descriptors and missing arrays, mark sequence and request, and do nothing
    int mb = 1 + c.s.u(6), m = 1 + c.s.u(12), n = 1 + c.s.u(12), kind = c.s.u(4), how = c.s.u(6);
    D A;
    if (kind == 1) n = m;
    int e = kind == 1 ? plasma_desc_triangular_create(PlasmaRealDouble, PlasmaLower, mb, mb, m, n, 0, 0, m, n, &A)
          : kind == 2 ? plasma_desc_general_band_create(PlasmaRealDouble, PlasmaUpper, mb, mb, mb, n, 0, 0, n, n, 0, 0, &A)
                      : plasma_desc_general_create(PlasmaRealDouble, mb, mb, m, n, 0, 0, m, n, &A);
    if (e) c.fail("desc.create", "creation of a valid descriptor failed");
    size_t sz = should_size(A) / sizeof(double);
    for (size_t k = 0; k < sz; k++) ((double *)A.matrix)[k] = (double)k;
    double *p = (double *)rt::guarded(sizeof(double) * 12 * 16), *src = p;
    for (int k = 0; k < 12 * 16; k++) p[k] = -k - 1;
    D B = A;
    switch (how) {
    case 0: B.nb = 0; break;
    case 1: B.m = -1; break;
    case 2: B.type = 999; break;
    case 3: B.precision = 0; break;
    case 4: B.n = B.gn + 1; break;
    case 5: src = nullptr; break;
    }
    bool back = c.s.u(2);
    c.desc << (back ? "from" : "to") << " tiles, kind " << kind << " defect " << how << " " << dstr(B);
    note_case_text(c.desc.str());
    Run r;
    rt::configure(rt::Sched());
    typedef P<double> F;
    rt::parallel_master([&]() {
        if (kind == 1) { if (back) F::o_desc2tr(B, src, 16, &r.q, &r.r); else F::o_tr2desc(src, 16, B, &r.q, &r.r); }
        else if (kind == 2) { if (back) F::o_desc2pb(B, src, 16, &r.q, &r.r); else F::o_pb2desc(src, 16, B, &r.q, &r.r); }
        else { if (back) F::o_desc2ge(B, src, 16, &r.q, &r.r); else F::o_ge2desc(src, 16, B, &r.q, &r.r); }
    });
    if (r.q.status != PlasmaErrorIllegalValue || r.r.status != PlasmaErrorIllegalValue) c.fail("translate.accepted", "status of sequence " + std::to_string(r.q.status) + ", request " + std::to_string(r.r.status) + " after an illegal argument");
    for (size_t k = 0; k < sz; k++) if (((double *)A.matrix)[k] != (double)k) c.fail("translate.effect", "refused translation wrote tiles");
    for (int k = 0; k < 12 * 16; k++) if (p[k] != -k - 1) c.fail("translate.effect", "refused translation wrote the array");
    plasma_desc_destroy(&A);
    c.nontrivial = true;
    c.label("translation rejected");
}
void descT(Ctx &c)
{
    Shape s = draw_shape(c, false);
    if (s.type != PlasmaGeneral || !s.m || !s.n) throw Discard();
    D A, T;
    int ib = 1 + c.s.u(s.nb), hh = c.s.pick({PlasmaFlatHouseholder, PlasmaTreeHouseholder});
    if (create(s, &A)) c.fail("desc.create", "creation of a valid descriptor failed");
    int e = plasma_descT_create(A, ib, hh, &T);
    c.desc << "T of " << dstr(A) << " ib=" << ib << (hh == PlasmaTreeHouseholder ? " tree" : " flat");
    if (e) c.fail("descT.create", "returned " + std::to_string(e));
    if (plasma_desc_check(T)) c.fail("descT.check", "invalid descriptor");
    if (T.mt != A.mt || T.nt != A.nt * (hh == PlasmaTreeHouseholder ? 2 : 1) || T.mb != ib || T.nb != A.nb || T.precision != A.precision) c.fail("descT.shape", "T does not have one tile per tile of A: " + dstr(T));
    check_shape(c, T);
    check_addresses(c, T, true);
    plasma_desc_destroy(&T);
    plasma_desc_destroy(&A);
    c.nontrivial = true;
    c.label("T descriptor");
}
void c21(Ctx &c)
{
    int k = (int)c.s.u(16);
    if (k >= 6 && k < 13) {
        switch (c.s.u(4)) {
        case 0: return translate<double>(c);
        case 1: return translate<float>(c);
        case 2: return translate<std::complex<double>>(c);
        default: return translate<std::complex<float>>(c);
        }
    }
    rt::configure(rt::Sched());
    plasma_init();
    if (k < 6) storage(c);
    else if (k == 13) malformed(c);
    else if (k == 14) { if (c.s.u(2)) bad_translate(c); else malformed(c); }
    else { if (c.s.u(8) == 7) bad_view(c); else descT(c); }
    plasma_finalize();
}
}
static RegProp rp21({"C21", "more than three tiles, at least two translation tasks, or a rejected descriptor", c21, 120000, 1500000});

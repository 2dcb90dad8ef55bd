// Symmetric tridiagonal eigenvalues and vectors.  Family "eig" (C10), real precisions only.
#include "gen.h"
namespace {   // one copy per precision
#if PREC <= 2
// number of eigenvalues less than x
static int sturm(const std::vector<LD> &d, const std::vector<LD> &e, LD x)
{
    int cnt = 0, n = (int)d.size();
    LD q = 1;
    bool first = true;
    for (int i = 0; i < n; i++) {
        if (first || e[i - 1] == 0) q = d[i] - x;
        else { if (q == 0) q = 1e-4900L; q = (d[i] - x) - e[i - 1] * (e[i - 1] / q); }
        first = false;
        if (q < 0) cnt++;
    }
    return cnt;
}
struct Stevx2 : Op {
    int job, range, n, k, il, iu, cnt = 0;
    R0 vl, vu;
    int vlbad = 0;
    bool diagonal = false;
    Mat<R0> *Dg, *E, *Val, *Vec;
    IVec *found, *mul;
    std::vector<LD> d, e, lam;
    LD nrm = 0, tol = 0;
    bool haveVec() const { return job == PlasmaVec; }
    void gen(Ctx &c) override
    {
        mode |= M_WELL;
        unique_out = false;
        a_enum(c, 1, "job", job, std::vector<int>{PlasmaNoVec, PlasmaVec, PlasmaCount});
        a_enum(c, 2, "range", range, std::vector<int>{PlasmaRangeI, PlasmaRangeV});
        a_dim(c, 3, "n", n, 0, 48);
        draw_data(c);
        // Sturm sequences of long or tightly clustered matrices leave the exponent range unless they are rescaled
        if (!haveVec() && c.s.u(40) == 39) { n = 49 + (int)c.s.u(212); c.label("long Sturm sequence"); }
        int sh = c.s.u(haveVec() ? 9 : 11), sc = (int)c.s.u(4) == 3 ? (c.s.u(2) ? (sizeof(R0) == 4 ? (int)c.s.range(-110, 110) : (int)c.s.range(-900, 1000)) : (int)c.s.range(-12, 12)) : 0;
        show("shape", sh); show("scale", sc);
        std::vector<R0> a(n), b(std::max(n - 1, 0));
        for (int i = 0; i < n; i++) {
            double x = (double)re_(umod(dg, 1, i, 0)), y = (double)re_(umod(dg, 2, i, 0));
            int k0 = dg.kind == 0;
            switch (sh) {
            case 0: default: if (k0) { x = (int)(hash2(dg.seed, i) % 7) - 3; y = (int)(hash2(dg.seed, 500 + i) % 5) - 2; } break;
            case 1: x = 2; y = -1; break;                                                             // Toeplitz
            case 2: x = (int)(hash2(dg.seed, i) % 4); y = 0; break;                                   // diagonal with repetitions
            case 3: if (hash2(dg.seed, 900 + i) % 3 == 0) y = 0; if (k0) { x = (int)(hash2(dg.seed, i) % 3); if (y != 0) y = 1; } break;   // decoupled blocks
            case 4: x = std::fabs(n / 2 - i); y = 1; break;                                           // Wilkinson
            case 5: x *= std::ldexp(1.0, -(i % 11)); y *= std::ldexp(1.0, -(i % 7)); break;           // graded
            case 6: y *= (i % 4 == 3) ? std::ldexp(1.0, -(int)(hash2(dg.seed, 3) % 30)) : 1; break;   // weakly coupled
            case 7: x = 0; if (k0) y = 1; break;
            case 9: { int w = 2 + (int)(hash2(dg.seed, 77) % (std::numeric_limits<R0>::digits - 12)); x = 1 + std::ldexp(x, -w); y = std::ldexp(y, -w); break; }   // cluster
            case 10: x = i % 2 ? 1 : -1; y = std::ldexp(y, -8); break;                                // two clusters
            case 8: x = (int)(dg.seed % 3) - 1; y = 0; break;                                         // multiple of the identity
            }
            a[i] = (R0)std::ldexp(x, sc);
            if (i + 1 < n) b[i] = (R0)std::ldexp(y, sc);
        }
        Dg = &mat<R0>("diag", n, 1, std::max(n, 1)); E = &mat<R0>("offd", std::max(n - 1, 0), 1, std::max(n - 1, 1));
        diagonal = true;
        for (int i = 0; i < n; i++) { Dg->p[i] = a[i]; d.push_back(a[i]); }
        for (int i = 0; i + 1 < n; i++) { E->p[i] = b[i]; e.push_back(b[i]); if (b[i] != 0) diagonal = false; }
        Dg->access_all(R_); E->access_all(R_);
        for (int i = 0; i < n; i++) nrm = std::max(nrm, std::fabs(d[i]) + (i ? std::fabs(e[i - 1]) : 0) + (i + 1 < n ? std::fabs(e[i]) : 0));
        tol = 8 * (n + 4) * ulp<R0>() * nrm + 64 * (LD)std::numeric_limits<R0>::min();
        for (int i = 0; i < n; i++) {       // i-th smallest by bisection
            LD lo = -nrm * 1.01L - 1e-4000L, hi = nrm * 1.01L + 1e-4000L;
            for (int it = 0; it < 100 && lo < hi; it++) {
                LD m = (lo + hi) / 2;
                if (m == lo || m == hi) break;
                if (sturm(d, e, m) > i) hi = m; else lo = m;
            }
            lam.push_back((lo + hi) / 2);
        }
        il = iu = 1; vl = 0; vu = 1;
        if (range == PlasmaRangeI) {
            il = n ? 1 + (int)c.s.u(n) : 1;
            iu = n ? il + (int)c.s.u(n - il + 1) : 0;
            if (n && c.s.u(3) == 0) { il = 1; iu = n; }
            args.push_back({9, "il", &il, {0, -3, n + 1 + (n == 0)}});
            if (n) args.push_back({10, "iu", &iu, {il - 1, n + 1}});
            cnt = n ? iu - il + 1 : 0;
        }
        else {
            auto bound = [&]() -> R0 {
                switch (c.s.u(5)) {
                default: return (R0)(nrm * ((int)c.s.u(65) - 32) / 28);
                case 2: return n ? (R0)lam[c.s.u(n)] : (R0)0;                  // at an eigenvalue
                case 3: return n ? (R0)(Dg->p[c.s.u(n)]) : (R0)0;
                case 4: if (c.s.u(3) == 0) return (R0)std::ldexp((R0)(c.s.u(2) ? 1 : -1), (int)c.s.u(std::numeric_limits<R0>::max_exponent - 1));   // far outside
                        return (R0)(nrm * ((int)c.s.u(2) ? 3 : -3));
                }
            };
            vl = bound(); vu = bound();
            if (vu < vl) std::swap(vl, vu);
            if (!(vl < vu)) vu = vl + (R0)std::max<LD>(nrm / 2, 1);
            if (!(vl < vu)) vl = std::nextafter(vu, (R0)-std::numeric_limits<R0>::max());      // the shift was absorbed
            cnt = diagonal ? sturm(d, e, vu) - sturm(d, e, vl) : sturm(d, e, vu + tol) - sturm(d, e, vl - tol);
        }
        show("il", il); show("iu", iu); show("vl*1e6", (long)std::max(-1e15, std::min(1e15, vl * 1e6))); show("vu*1e6", (long)std::max(-1e15, std::min(1e15, vu * 1e6)));
        k = cnt + (int)c.s.u(3);
        show("k", k);
        if (job != PlasmaCount && cnt > 0 && range == PlasmaRangeI) args.push_back({4, "k", &k, {cnt - 1, -1}});
        found = &ivec("found", 1, true);
        mul = &ivec("mul", job == PlasmaCount ? 0 : k, true);
        Val = &mat<R0>("val", job == PlasmaCount ? 0 : k, 1, std::max(k, 1));
        Vec = &mat<R0>("vec", haveVec() ? n : 0, haveVec() ? k : 0, std::max(n, 1));
        Val->access_all(W_); Vec->access_all(W_);
        empty = n == 0;
        if (empty) { Val->acc.assign(Val->acc.size(), 0); Vec->acc.assign(Vec->acc.size(), 0); }
        finish_gen();
    }
    void call() override { info = pl_stevx2(job, range, n, k, Dg->p, E->p, vl, vu, il, iu, found->p, job == PlasmaCount ? nullptr : Val->p, job == PlasmaCount ? nullptr : mul->p, haveVec() ? Vec->p : nullptr);
        size_t f = info == 0 && !empty && job != PlasmaCount ? (size_t)std::min(std::max(found->p[0], 0), k) : 0;
        live["val"] = f * sizeof(R0); live["mul"] = f * sizeof(int); live["vec"] = f * n * sizeof(R0); }
    void check(Ctx &c) override
    {
        int f = found->p[0];
        if (empty) { if (f != 0) bad(c, "count", "found " + std::to_string(f) + " eigenvalues of an empty matrix"); return; }
        // admissible totals and offsets
        int tot = 0, amin, amax, tmin, tmax;
        if (range == PlasmaRangeI) { amin = amax = il - 1; tmin = tmax = iu - il + 1; }
        else if (diagonal) { amin = amax = sturm(d, e, vl); tmin = tmax = sturm(d, e, vu) - amin; }
        else {
            amin = sturm(d, e, vl - tol); amax = sturm(d, e, vl + tol);
            tmax = sturm(d, e, vu + tol) - amin;
            tmin = std::max(0, sturm(d, e, vu - tol) - amax);
        }
        if (job == PlasmaCount) {
            if (f < tmin || f > tmax) bad(c, "count", "count " + std::to_string(f) + ", expected " + std::to_string(tmin) + ".." + std::to_string(tmax));
            return;
        }
        if (f < 0 || f > k) bad(c, "found", "found " + std::to_string(f) + " of at most " + std::to_string(k));
        std::vector<LD> ex;
        for (int i = 0; i < f; i++) {
            if (mul->p[i] < 1 || mul->p[i] > n) bad(c, "multiplicity", "multiplicity " + std::to_string(mul->p[i]) + " at " + std::to_string(i));
            if (i && !(Val->p[i] > Val->p[i - 1]) && !(Val->p[i] == Val->p[i - 1] && std::fabs(Val->p[i]) < std::numeric_limits<R0>::min()))   // subnormal results are rounded
                bad(c, "order", "eigenvalues not ascending at " + std::to_string(i));
            for (int j = 0; j < mul->p[i]; j++) ex.push_back(Val->p[i]);
        }
        tot = (int)ex.size();
        if (tot < tmin || tot > tmax) bad(c, "total", "eigenvalues with multiplicity: " + std::to_string(tot) + ", expected " + std::to_string(tmin) + ".." + std::to_string(tmax));
        bool ok = false;
        LD worst = 0;
        for (int a = amin; a <= amax && !ok; a++) {
            if (a + tot > n) break;
            bool g = true;
            for (int i = 0; i < tot; i++) { LD er = std::fabs(ex[i] - lam[a + i]); if (!(er <= tol)) { g = false; worst = std::max(worst, er); } }
            ok = g;
        }
        if (!ok) { char b[100]; snprintf(b, sizeof b, "error %.3Lg, tolerance %.3Lg", worst, tol); bad(c, "values", b); }
        if (!haveVec() || f == 0) return;
        DM<LD> V(n, f);
        for (int j = 0; j < f; j++) for (int i = 0; i < n; i++) V(i, j) = Vec->p[i + (size_t)j * n];
        DM<LD> G = mul_t(V);
        need(c, *this, "orthogonal", maxabs(G), 8 * (LD)(n + 8) * ulp<R0>());
        // an eigenvalue closer than 1000 tolerances to a neighbour belongs to a cluster; a wrong vector there
        // contaminates the later ones through the orthogonalization
        bool cluster = false;
        for (int j = 0; j < f; j++) {
            LD r = 0;
            for (int i = 0; i < n; i++) {
                LD y = (d[i] - (LD)Val->p[j]) * V(i, j) + (i ? e[i - 1] * V(i - 1, j) : 0) + (i + 1 < n ? e[i] * V(i + 1, j) : 0);
                r += y * y;
            }
            r = std::sqrt(r);
            LD gap = 1e30L;
            if (j) gap = std::min(gap, (LD)Val->p[j] - Val->p[j - 1]);
            if (j + 1 < f) gap = std::min(gap, (LD)Val->p[j + 1] - Val->p[j]);
            if (gap < 1000 * tol) cluster = true;
            if (!(r <= 4 * tol)) {
                char b[160];
                snprintf(b, sizeof b, "vector %d: residual %.3Lg, bound %.3Lg, distance to the next value %.3Lg", j, r, 4 * tol, gap);
                if (cluster) c.tag("stevx2-cluster");
                bad(c, cluster ? "clustervector" : "residual", b);
            }
        }
    }
    static DM<LD> mul_t(const DM<LD> &V)
    {
        DM<LD> G(V.n, V.n);
        for (int a = 0; a < V.n; a++) for (int b = 0; b < V.n; b++) { LD s = 0; for (int i = 0; i < V.m; i++) s += V(i, a) * V(i, b); G(a, b) = s - (a == b ? 1 : 0); }
        return G;
    }
};
REG_OP(Stevx2, "stevx2", "eig", false, "")
#endif
}

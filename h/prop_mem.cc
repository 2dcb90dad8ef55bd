// C22: memory is released, and a failing allocation is reported cleanly.
#include "lib.h"
#include <set>

namespace {
std::string S(long v) { return std::to_string(v); }
void settings(int *p)
{
    static const int k[5] = {PlasmaTuning, PlasmaNb, PlasmaIb, PlasmaNumPanelThreads, PlasmaHouseholderMode};
    for (int i = 0; i < 5; i++) { p[i] = -1; plasma_get((plasma_enum_t)k[i], &p[i]); }
}
// what the call handed out may be released by the caller; everything else must be gone
void release(Op &op)
{
    D *d = op.handed();
    if (d && d->matrix && rt::is_live(d->matrix)) { plasma_desc_destroy(d); op.forget(); }
    else if (d) op.forget();
}
bool failed(const Op &op) { return op.isvalue ? op.value < 0 : op.info < 0; }
void leak(Ctx &c, Op &op, long live, uint64_t serial, const std::string &when)
{
    if (rt::live_count() != live) op.bad(c, "leak", when + ": " + S(rt::live_count() - live) + " blocks stay allocated: " + rt::live_report(serial));
}
void routine(Ctx &c)
{
    static std::vector<const OpInfo *> v = ops_in("*");
    const OpInfo *oi = v[c.s.u((uint32_t)v.size())];
    auto op = oi->make();
    draw_cfg(c, op->cfg, oi->panel);
    bool sing = c.s.u(8) == 7 && (" " + oi->flags + " ").find(" sing ") != std::string::npos;
    if (sing) op->mode |= M_SINGULAR | M_NONEMPTY;
    else if (c.s.u(4)) op->mode |= M_NONEMPTY;
    op->gen(c);
    c.desc << op->str() << (sing ? " singular" : "");
    long live0 = rt::live_count();
    uint64_t s0 = rt::alloc_serial();
    begin_plasma(op->cfg);
    long live1 = rt::live_count();
    int p0[5], p1[5];
    settings(p0);
    auto back = [&]() { for (auto &m : op->mats) m->restore(); };
    // clean call
    uint64_t s1 = rt::alloc_serial();
    execute(c, *op);
    long N = (long)(rt::alloc_serial() - s1);
    int info1 = op->info;
    bool odd = op->info > 0 && !op->expect_info && op->accidental();
    release(*op);
    leak(c, *op, live1, s1, info1 ? "after a call that returned " + S(info1) : "after a successful call");
    // invalid argument
    if (!op->args.empty() && c.s.u(4) == 3) {
        ArgSpec &as = op->args[c.s.u((uint32_t)op->args.size())];
        int good = *as.v;
        back();
        *as.v = as.bad[c.s.u((uint32_t)as.bad.size())];
        c.desc << "; " << as.name << "=" << *as.v;
        uint64_t s = rt::alloc_serial();
        execute(c, *op);
        *as.v = good;
        release(*op);
        leak(c, *op, live1, s, "after rejecting an argument");
        c.label("rejected argument");
    }
    // failing allocations
    long fired = 0;
    if (N && !odd) {
        int tries = (int)std::min<long>(N, 4 + c.s.u(5));
        std::set<long> pos;
        for (int t = 0; t < tries; t++) pos.insert(tries == N ? t + 1 : 1 + (long)c.s.u((uint32_t)N));
        for (long k : pos) {
            back();
            for (auto &m : op->mats) m->snapshot();
            note_case_text(op->str() + " with allocation " + S(k) + " of " + S(N) + " failing");
            uint64_t s = rt::alloc_serial();
            rt::arm_oom(k);
            op->call();
            bool f = rt::oom_fired();
            rt::arm_oom(0);
            c.weight++;
            if (!f) { release(*op); continue; }
            fired++;
            std::string when = "allocation " + S(k) + " of " + S(N) + " failing";
            std::string w;
            for (auto &m : op->mats) if (!m->outside_ok(&w)) op->bad(c, "oom.changed", w + " with " + when);
            if (!rt::check_canaries(&w)) op->bad(c, "oom.changed", w + " with " + when);
            if (!failed(*op)) {
                // carrying on without the memory is fine when the result is right
                if (!op->isvalue && op->info > 0 && op->info != op->expect_info && !op->alt_info.count(op->info)) op->bad(c, "oom.report", "returned " + S(op->info) + " with " + when);
                if (op->isvalue || !op->info) {
                    op->faulted = true;
                    try { if (!sing) op->check(c); }
                    catch (Fail &) { op->bad(c, "oom.report", std::string("reported success without the result with ") + when); }
                }
                op->faulted = false;
                c.label("survived");
            }
            release(*op);
            leak(c, *op, live1, s, "with " + when);
        }
        settings(p1);
        for (int i = 0; i < 5; i++) if (op->cfg.tuning == PlasmaDisabled && p0[i] != p1[i]) op->bad(c, "oom.settings", "library parameter " + S(i) + " changed");
        back();
        note_case_text(op->str() + " after failed allocations");
        op->call();
        c.weight++;
        if (!op->isvalue && op->info != info1 && op->alt_info.empty()) op->bad(c, "oom.after", "the same call returned " + S(info1) + " before and " + S(op->info) + " after failed allocations");
        if (!sing && (op->isvalue || !op->info)) op->check(c);
        release(*op);
        leak(c, *op, live1, s1, "after the call following failed allocations");
    }
    end_plasma();
    if (rt::live_count() != live0) op->bad(c, "finalizeleak", "blocks stay allocated after plasma_finalize: " + rt::live_report(s0));
    c.label(op->name);
    c.label(N == 0 ? "no allocation" : fired ? "allocation failed" : "not reached");
    c.nontrivial = fired >= 2;
}
void objects(Ctx &c)
{
    rt::Sched sc;
    sc.nthreads = 1 + (int)c.s.u(4);
    rt::configure(sc);
    long live0 = rt::live_count();
    plasma_init();
    long live1 = rt::live_count();
    plasma_enum_t pr = (plasma_enum_t)c.s.pick({PlasmaRealFloat, PlasmaRealDouble, PlasmaComplexFloat, PlasmaComplexDouble});
    int kind = (int)c.s.u(5), nb = 1 + (int)c.s.u(5), m = 1 + (int)c.s.u(12), n = 1 + (int)c.s.u(12), k = 1 + (int)c.s.u(3);
    static const char *nm[] = {"general", "triangular", "band", "T", "workspace"};
    c.desc << nm[kind] << " m=" << m << " n=" << n << " nb=" << nb << " precision " << pr << " threads " << sc.nthreads << " allocation " << k;
    note_case_text(c.desc.str());
    D A{}, T{};
    plasma_workspace_t w{};
    int e = 0;
    int kl = (int)c.s.u(m), ku = (int)c.s.u(n);
    auto make = [&]() {
        switch (kind) {
        case 0: return plasma_desc_general_create(pr, nb, nb, m, n, 0, 0, m, n, &A);
        case 1: return plasma_desc_triangular_create(pr, (plasma_enum_t)(kl % 2 ? PlasmaLower : PlasmaUpper), nb, nb, n, n, 0, 0, n, n, &A);
        case 2: {
            int ku2 = ku + kl, tiles = (ku2 + nb - 1) / nb + (kl + nb - 1) / nb + 1;
            return plasma_desc_general_band_create(pr, PlasmaGeneral, nb, nb, tiles * nb, n, 0, 0, m, n, kl, ku, &A);
        }
        case 3: return plasma_descT_create(A, std::min(nb, 2), PlasmaFlatHouseholder, &T);
        default: return plasma_workspace_create(&w, (size_t)m * n, pr);
        }
    };
    auto drop = [&]() {
        if (kind < 3) { if (!e) plasma_desc_destroy(&A); }
        else if (kind == 3) { if (!e) plasma_desc_destroy(&T); }
        else if (!e) plasma_workspace_destroy(&w);
    };
    if (kind == 3 && plasma_desc_general_create(pr, nb, nb, m, n, 0, 0, m, n, &A)) c.fail("create", "general descriptor");
    long base = rt::live_count();
    uint64_t s = rt::alloc_serial();
    rt::arm_oom(k);
    e = make();
    bool f = rt::oom_fired();
    rt::arm_oom(0);
    std::string id = std::string("object.") + nm[kind];
    if (f && e >= 0) c.fail(id + ".report", "returned " + S(e) + " although allocation " + S(k) + " failed");
    if (!f && e) c.fail(id + ".report", "returned " + S(e));
    drop();
    if (rt::live_count() != base) c.fail(id + ".leak", rt::live_report(s));
    e = make();
    if (e) c.fail(id + ".after", "returned " + S(e) + " after a failed allocation");
    drop();
    if (kind == 3) plasma_desc_destroy(&A);
    if (rt::live_count() != live1) c.fail(id + ".leak", rt::live_report(s));
    // releasing twice, and an early init failure
    plasma_finalize();
    if (rt::live_count() != live0) c.fail(id + ".finalizeleak", rt::live_report(0));
    c.label(std::string("object ") + nm[kind] + (f ? " failed" : ""));
    c.nontrivial = f;
}
void init_fail(Ctx &c)
{
    rt::Sched sc;
    sc.nthreads = 1 + (int)c.s.u(4);
    rt::configure(sc);
    long live0 = rt::live_count();
    int k = 1 + (int)c.s.u(4);
    c.desc << "init/finalize with allocation " << k << " failing";
    uint64_t s = rt::alloc_serial();
    rt::arm_oom(k);
    int e = plasma_init();
    bool f = rt::oom_fired();
    rt::arm_oom(0);
    if (!f && e) c.fail("init.report", "returned " + S(e));
    if (f && e >= 0) { int v; if (plasma_get(PlasmaNb, &v)) c.fail("init.report", "returned " + S(e) + " but the library is not initialized"); }
    if (e == 0) plasma_finalize();
    if (rt::live_count() != live0) c.fail("init.leak", rt::live_report(s));
    int r = 1 + (int)c.s.u(3);
    for (int i = 0; i < r; i++) { if (plasma_init()) c.fail("init.after", "init fails"); if (plasma_finalize()) c.fail("init.after", "finalize fails"); }
    if (rt::live_count() != live0) c.fail("init.leak", rt::live_report(s));
    c.label("init/finalize");
    c.nontrivial = f || r > 1;
}
void c22(Ctx &c)
{
    int k = (int)c.s.u(40);
    if (k == 39) init_fail(c);
    else if (k >= 36) objects(c);
    else routine(c);
}
}
static RegProp rp22({"C22", "at least two allocations of the call failed, or a failed creation", c22, 40000, 600000});

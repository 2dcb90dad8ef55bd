#include "lib.h"
#include <climits>
#include <sys/mman.h>
#include <unistd.h>

std::vector<OpInfo> &ops() { static std::vector<OpInfo> v; return v; }
const std::vector<const OpInfo *> &ops_in(const std::string &family, char prec)
{
    static std::map<std::string, std::vector<const OpInfo *>> cache;
    std::string k = family + prec;
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    std::vector<const OpInfo *> v;
    for (auto &o : ops()) {
        if (prec && o.prec != prec) continue;
        if (family == "*" ? o.family == "noret" : o.family != family) continue;      // noret: functions without a return value
        v.push_back(&o);
    }
    std::sort(v.begin(), v.end(), [](const OpInfo *a, const OpInfo *b) {
        static const std::string order = "dszc";
        if (a->base != b->base) return a->base < b->base;
        return order.find(a->prec) < order.find(b->prec);
    });
    return cache[k] = v;
}
uint64_t hash2(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
double DG::u(uint64_t tag, int i, int j, int part) const
{
    uint64_t h = hash2(hash2(seed * 4 + part, tag), ((uint64_t)i << 32) | (uint32_t)j);
    switch (kind) {
    case 0: return (int)(h % 7) - 3;
    case 1: return ((int)(h % 2049) - 1024) / 1024.0;
    default: {
        int e = (int)((h >> 20) % 17) - 8;
        double m = 1 + (h % 1024) / 1024.0;
        return std::ldexp((h >> 50) & 1 ? -m : m, e);
    }
    }
}
std::string Cfg::str() const
{
    char b[200];
    snprintf(b, sizeof b, "[nb=%d ib=%d threads=%d panel=%d %s%s sched=%d/q%d/imm%d]", nb, ib, sc.nthreads, mtpf, hh == PlasmaTreeHouseholder ? "tree" : "flat",
             tuning == PlasmaEnabled ? " tuned" : "", sc.policy, sc.quantum, sc.immediate_pct);
    return b;
}
void draw_sched(Ctx &c, rt::Sched &s, bool wild)
{
    s.nthreads = 1 + (int)c.s.u(c.s.chance(20) ? (c.s.chance(35) ? 24 : 8) : 4);
    int k = c.s.u(wild ? 10 : 6);
    s.policy = k <= 1 ? 0 : k == 2 ? 2 : k == 3 ? 1 : k == 4 ? 3 : k == 5 ? 4 : 2;
    static const int q[] = {0, 0, 300, 40, 2000, 5};
    s.quantum = q[c.s.u(wild ? 6 : 3)];
    s.immediate_pct = c.s.u(4) == 3 ? (int)c.s.u(101) : 0;
    s.seed = (s.policy == 0 && s.quantum == 0) ? 0 : c.s.u(65536);
}
void draw_cfg(Ctx &c, Cfg &g, bool panel)
{
    bool many = false;
    switch (c.s.u(16)) {
    default: g.nb = 1 + c.s.u(8); g.cap = std::min(30, 5 * g.nb + 4); break;
    case 8: case 9: case 10: case 11: g.nb = 4 + c.s.u(13); g.cap = std::min(48, 4 * g.nb + 3); break;
    case 12: case 13: g.nb = 12 + c.s.u(22); g.cap = 3 * g.nb + 5; break;
    case 14: g.nb = 30 + c.s.u(40); g.cap = 2 * g.nb + 20; break;
    case 15:
        if (c.s.u(8) == 7) {
            if (c.s.u(8) == 7) { g.nb = 100 + c.s.u(157); g.cap = 200 + c.s.u(260); }  // large matrices
            else { g.nb = 60 + c.s.u(80); g.cap = 2 * g.nb + 40; }                     // large tiles
        }
        else { g.nb = 64 + c.s.u(200); g.cap = 48; }                            // one tile holds everything
        break;
    case 6: case 7: g.nb = 1 + c.s.u(3); g.cap = g.nb * (6 + (int)c.s.u(15)); many = true;          // many tiles
        if (c.s.u(16) == 15) { g.nb = 1 + c.s.u(2); g.cap = g.nb * (22 + (int)c.s.u(45)); c.label("up to 66 tiles"); }
        break;
    }
    switch (c.s.u(6)) {
    default: g.ib = 1 + c.s.u(g.nb); break;
    case 3: g.ib = g.nb; break;
    case 4: g.ib = 1; break;
    case 5: g.ib = g.nb + c.s.u(4); break;
    }
    draw_sched(c, g.sc, false);
    if (many && c.s.chance(40)) g.sc.nthreads = 4 + (int)c.s.u(21);
    g.hh = c.s.u(2) ? PlasmaTreeHouseholder : PlasmaFlatHouseholder;
    g.mtpf = 1;
    if (panel) g.mtpf = 1 + c.s.u(g.sc.nthreads + 1);   // one more than there are threads: the library takes what it has
    if (g.mtpf > 1) g.sc.immediate_pct = 0;      // cooperating panel tasks must all be deferred
    g.tuning = PlasmaDisabled;
}
void begin_plasma(const Cfg &g)
{
    plasma_finalize();
    unsetenv("PLASMA_TUNING_FILENAME");
    rt::configure(g.sc);
    rt::stats_reset();
    plasma_init();
    plasma_set(PlasmaTuning, g.tuning);
    plasma_set(PlasmaNb, g.nb);
    plasma_set(PlasmaIb, g.ib);
    plasma_set(PlasmaNumPanelThreads, g.mtpf);
    plasma_set(PlasmaHouseholderMode, g.hh);
}
void end_plasma() { plasma_finalize(); }
int draw_dim(Ctx &c, const Cfg &g, int lo, int cap)
{
    if (!cap) cap = g.cap;
    if (g.square) return g.nb * (int)(1 + c.s.u(std::max(1, std::min(cap / g.nb, 4))));
    int v;
    int t = std::max(1, cap / g.nb);
    switch (c.s.u(9)) {
    default: v = lo + c.s.u(std::max(1, cap - lo + 1)); break;
    case 4: v = g.nb * (int)(1 + c.s.u(t)); break;
    case 5: v = g.nb * (int)(1 + c.s.u(t)) + 1; break;
    case 6: v = g.nb * (int)(1 + c.s.u(t)) - 1; break;
    case 7: v = lo + c.s.u(4); break;
    case 8: v = cap - (int)c.s.u(3); break;
    }
    v = std::min(v, std::max(cap + 1, 3));
    return std::max(v, lo);
}
int draw_ld(Ctx &c, int rows)
{
    int r = std::max(rows, 1);
    switch (c.s.u(4)) {
    case 0: return r;
    case 1: return r + 1;
    default: return r + (int)c.s.u(9);
    }
}
void *far_map(size_t bytes)
{
    void *q = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return q == MAP_FAILED ? nullptr : q;
}
void far_unmap(void *p, size_t bytes) { munmap(p, bytes); }
// the call with leading dimensions for which ld*column does not fit an int
void execute_far(Ctx &c, Op &op)
{
    struct Moved { MatBase *m; int *v; int old; };
    std::vector<Moved> mv;
    for (auto &m : op.mats)
        for (auto &a : op.args) {
            std::string want = "ld" + m->name;
            for (auto &ch : want) ch = (char)tolower(ch);
            if (a.name != want || *a.v != m->ld || m->n < 2) continue;
            if (m->name == "U" || m->name == "VT") continue;     // go to LAPACK and BLAS as they are, which have limits of their own
            int nl = c.s.pick({1 << 28, 1 << 30, INT_MAX - 20}) + (int)c.s.u(20);
            if (m->go_far(nl)) { mv.push_back({m.get(), a.v, *a.v}); *a.v = nl; c.desc << " " << a.name << ":=" << nl; }
        }
    if (!mv.empty()) c.label("huge leading dimension");
    execute(c, op);
    std::string why;
    bool ok = true;
    for (auto &x : mv) { *x.v = x.old; if (!x.m->come_back(&why)) ok = false; }
    if (!ok) op.bad(c, "far.pad", why);
}
void execute(Ctx &c, Op &op)
{
    note_case_text(op.str());
    op.call();
}

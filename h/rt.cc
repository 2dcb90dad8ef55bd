#include <fcntl.h>
#include <execinfo.h>
#include "rt.h"
#include <algorithm>
#include <cassert>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <deque>
#include <memory>
#include <set>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>

namespace rt {

void (*fatal_hook)(const char *, const char *) = nullptr;
void fatal(const char *key, const std::string &msg)
{
    if (fatal_hook) fatal_hook(key, msg.c_str());
    fprintf(stderr, "fatal %s: %s\n", key, msg.c_str());
    _exit(41);
}

static uint64_t sm64(uint64_t &s)
{
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ------------------------------------------------------------------------------------------------ allocator
static const size_t PG = 4096;
static const size_t FRONT = 64;           // canary bytes in front
static std::map<char *, AllocInfo> g_live; // by user pointer
static std::unordered_map<size_t, std::vector<char *>> g_pool;
static uint64_t g_serial = 0;
static size_t g_live_bytes = 0;
static long g_live_count = 0;
static long g_oom_at = 0;
static bool g_oom_fired = false;
static int g_fill = 0xFF;
void set_fill(int b) { g_fill = b; }
static bool g_race = false;

static char *page_get(size_t npages)      // npages usable followed by one PROT_NONE page
{
    auto &v = g_pool[npages];
    if (!v.empty()) { char *p = v.back(); v.pop_back(); return p; }
    char *p = (char *)mmap(nullptr, (npages + 1) * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return nullptr;
    mprotect(p + npages * PG, PG, PROT_NONE);
    return p;
}
static void page_put(char *p, size_t npages)
{
    if (npages > 4096) { munmap(p, (npages + 1) * PG); return; }
    g_pool[npages].push_back(p);
}
static const unsigned char CANARY = 0xC5;

static void race_track(AllocInfo &);
static void race_untrack(AllocInfo &);

static void *do_alloc(size_t n, int fill, const char *file, int line, bool harness)
{
    if (!harness) {
        g_serial++;
        if (g_oom_at > 0 && --g_oom_at == 0) { g_oom_fired = true; return nullptr; }
        if (n > ((size_t)1 << 32)) { return nullptr; }
    }
    bool tracked = g_race && !harness && file && strstr(file, "descriptor") && n >= PG;
    size_t npages;
    char *base, *user;
    if (tracked) {
        npages = (n + PG - 1) / PG;
        base = page_get(npages);
        if (!base) return nullptr;
        user = base;
        if (n % PG) tracked = false;
    }
    else {
        size_t data = (n + 15) / 16 * 16;
        npages = (data + FRONT + PG - 1) / PG;
        base = page_get(npages);
        if (!base) return nullptr;
        user = base + npages * PG - data;
        memset(user - FRONT, CANARY, FRONT);
        memset(user + n, CANARY, data - n);
    }
    memset(user, fill, n);
    AllocInfo ai{base, npages, user, n, file, line, tracked, g_serial};
    if (harness) ai.uid = 0;
    auto &ref = g_live[user] = ai;
    if (!harness) { g_live_count++; g_live_bytes += n; }
    if (tracked) race_track(ref);
    return user;
}
static bool canary_ok(const AllocInfo &ai, std::string *msg)
{
    unsigned char *u = (unsigned char *)ai.user;
    char buf[256];
    if ((char *)ai.base != (char *)ai.user) {
        size_t avail = std::min(FRONT, (size_t)(u - (unsigned char *)ai.base));
        for (size_t i = 1; i <= avail; i++)
            if (u[-(long)i] != CANARY) {
                snprintf(buf, sizeof buf, "write %zu bytes before a %zu-byte block from %s:%d", i, ai.size, ai.file ? ai.file : "caller array", ai.line);
                if (msg) *msg = buf;
                return false;
            }
        size_t data = (ai.size + 15) / 16 * 16;
        for (size_t i = ai.size; i < data; i++)
            if (u[i] != CANARY) {
                snprintf(buf, sizeof buf, "write %zu bytes past a %zu-byte block from %s:%d", i - ai.size, ai.size, ai.file ? ai.file : "caller array", ai.line);
                if (msg) *msg = buf;
                return false;
            }
    }
    return true;
}
static void do_free(void *p, bool harness)
{
    if (!p) return;
    auto it = g_live.find((char *)p);
    if (it == g_live.end()) fatal("free.invalid", "free() of a pointer that is not a live allocation (double free?)");
    AllocInfo ai = it->second;
    if ((ai.uid == 0) != harness) fatal("free.invalid", "free() of a caller-owned array");
    std::string m;
    if (!canary_ok(ai, &m)) fatal("oob.write", m);
    if (ai.tracked) race_untrack(it->second);
    memset(p, 0xFF, ai.size);
    g_live.erase(it);
    if (!harness) { g_live_count--; g_live_bytes -= ai.size; }
    page_put((char *)ai.base, ai.npages);
}
long live_count() { return g_live_count; }
size_t live_bytes() { return g_live_bytes; }
uint64_t alloc_serial() { return g_serial; }
void arm_oom(long nth) { g_oom_at = nth; g_oom_fired = false; }
bool oom_fired() { return g_oom_fired; }
bool is_live(void *p) { return g_live.count((char *)p) != 0; }
std::string live_report(uint64_t since)
{
    std::string s;
    int k = 0;
    for (auto &e : g_live)
        if (e.second.uid > since && k++ < 6) {
            const char *f = e.second.file ? e.second.file : "?";
            const char *b = strrchr(f, '/');
            s += std::string(s.empty() ? "" : ", ") + std::to_string(e.second.size) + " bytes from " + (b ? b + 1 : f) + ":" + std::to_string(e.second.line);
        }
    return s;
}
bool check_canaries(std::string *msg)
{
    for (auto &e : g_live)
        if (!canary_ok(e.second, msg)) return false;
    return true;
}
void *guarded(size_t bytes)
{
    void *p = do_alloc(bytes, 0xFF, nullptr, 0, true);
    if (!p) { fprintf(stderr, "harness out of memory\n"); _exit(45); }
    return p;
}
void guarded_free(void *p) { do_free(p, true); }
void release_all_guarded()
{
    std::vector<void *> v;
    for (auto &e : g_live) if (e.second.uid == 0) v.push_back(e.first);
    for (auto p : v) do_free(p, true);
}
static AllocInfo *find_block(char *addr, const char **where)
{
    // block whose page range (plus guard) contains addr
    for (auto &e : g_live) {
        AllocInfo &a = e.second;
        char *b = (char *)a.base;
        if (addr >= b && addr < b + (a.npages + 1) * PG) {
            *where = addr >= b + a.npages * PG ? "past the end of" : "inside";
            return &a;
        }
    }
    return nullptr;
}

// ------------------------------------------------------------------------------------------------ fibers
extern "C" void vf_ctx_swap(void **save_sp, void *load_sp);
asm(R"(
.text
.globl vf_ctx_swap
.type vf_ctx_swap,@function
vf_ctx_swap:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    subq $8, %rsp
    stmxcsr (%rsp)
    fnstcw 4(%rsp)
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    ldmxcsr (%rsp)
    fldcw 4(%rsp)
    addq $8, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vf_ctx_swap,.-vf_ctx_swap
)");

struct Task;
struct DepEntry { std::vector<Task *> outs, ins; };
struct Group { long left = 0; int id = 0; };

struct Task {
    void (*fn)(void *) = nullptr;
    char *data = nullptr;
    std::unique_ptr<char[]> store;
    Task *parent = nullptr;
    long children = 0;           // unfinished children
    int npred = 0;
    std::vector<Task *> succ;
    std::vector<Task *> preds_for_race;
    bool done = false, started = false, loop = false, undeferred = false;
    int priority = 0;
    Group *group = nullptr;
    std::map<void *, DepEntry> deps;      // of its children
    int s_create = -1, s_end = -1, gid = 0;
    uint64_t seq = 0;
    std::vector<Task *> kids;             // for race joins at taskwait
};

struct Team {
    int n = 1;
    bool base = false;
    int arrived = 0;
    uint64_t gen = 0;
    long outstanding = 0;                 // explicit tasks not finished
    std::vector<Task *> ready;
    std::vector<char> single_taken;
    std::vector<std::unique_ptr<Task>> all; // keeps tasks alive until the region ends
    std::vector<int> s_join;              // strands to join at the next barrier
    int s_gen = -1;                       // strand created by the last barrier
    Team *up = nullptr;
};
struct Frame { Team *team; int tid; Task *task; size_t single_idx; Frame *up; };

struct Fiber {
    void *sp = nullptr;
    char *stack = nullptr;
    bool done = false, waiting = false;
    uint64_t wait_epoch = 0;
    Frame *frame = nullptr;
    int strand = -1;
    std::function<void()> body;
};
static const size_t STACK = 2 << 20;

static Sched g_s;
static Stats g_st;
static Fiber g_mainf;
static Fiber *g_cur = &g_mainf;
static Fiber *g_sched_fiber = nullptr;    // fiber running the scheduler loop
static std::vector<std::unique_ptr<Fiber>> g_fibers;
static std::vector<char *> g_stacks;
static uint64_t g_epoch = 1, g_rng = 1, g_taskseq = 0;
static int g_groupid = 0;
static long g_since_progress = 0;
static std::map<void *, Fiber *> g_crit;

extern "C" { long vf_budget = 1L << 40; }
uint8_t cov_map[1 << 16];

void configure(const Sched &s) { g_s = s; if (g_s.nthreads < 1) g_s.nthreads = 1; g_rng = s.seed * 0x2545F4914F6CDD1Dull + 77; }
const Sched &sched() { return g_s; }
Stats &stats() { return g_st; }
void stats_reset() { g_st = Stats(); }
static uint64_t rnd(uint64_t n) { return n <= 1 ? 0 : sm64(g_rng) % n; }
static void progress() { g_epoch++; g_since_progress = 0; }
static const long HANG_STEPS = 120000000;

static long next_quantum()
{
    if (g_s.quantum <= 0) return 3000;
    // geometric-like mixture around the mean
    uint64_t r = rnd(100);
    long q = g_s.quantum;
    if (r < 30) return 1 + rnd(std::max<long>(1, q / 4));
    if (r < 90) return 1 + rnd(2 * q);
    return 1 + rnd(20 * q);
}
static void race_switch_out();
static void to_sched()
{
    Fiber *f = g_cur;
    race_switch_out();
    g_cur = g_sched_fiber;
    vf_ctx_swap(&f->sp, g_sched_fiber->sp);
    vf_budget = next_quantum();
}
static bool multi() { return g_sched_fiber && g_cur != g_sched_fiber; }

extern "C" void vf_preempt()
{
    long used = next_quantum();
    vf_budget = used;
    g_st.steps += used;
    g_since_progress += used;
    if (g_since_progress > HANG_STEPS) fatal("hang", "no task or barrier made progress for 120 million basic blocks (livelock or endless loop)");
    if (multi()) { g_st.preempts++; g_cur->waiting = false; to_sched(); }
}
extern "C" void __sanitizer_cov_trace_pc()
{
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    cov_map[(pc ^ (pc >> 16)) & 0xFFFF] = 1;
    if (--vf_budget <= 0) vf_preempt();
}
extern "C" int sched_yield(void)       // spinning threads of the code under test
{
    if (!multi()) return 0;
    g_since_progress += 30;
    if (g_since_progress > HANG_STEPS) fatal("hang", "threads spin without progress (livelock)");
    g_cur->waiting = false;
    to_sched();
    return 0;
}
// block current fiber until something changes
static void wait_change()
{
    if (!multi()) fatal("deadlock", "the only thread waits for tasks that can never run");
    g_cur->waiting = true;
    g_cur->wait_epoch = g_epoch;
    to_sched();
    g_cur->waiting = false;
}

// ---------------------------------------------------------------- race bookkeeping
struct Acc { int strand; bool w; };
static std::vector<std::vector<int>> g_sp;     // preds of strands
static std::vector<int> g_sgid;                // taskloop group of strand
static std::map<std::pair<uint64_t, size_t>, std::vector<Acc>> g_acc;   // (block uid, page) -> accesses
struct Open { char *page; bool w; };
static std::vector<Open> g_open;
static int new_strand(const std::vector<int> &preds, int gid)
{
    if (!g_race) return -1;
    std::vector<int> p;
    for (int x : preds) if (x >= 0) p.push_back(x);
    g_sp.push_back(p);
    g_sgid.push_back(gid);
    return (int)g_sp.size() - 1;
}
static void close_pages()
{
    if (g_open.empty()) return;
    std::sort(g_open.begin(), g_open.end(), [](const Open &a, const Open &b) { return a.page < b.page; });
    size_t i = 0;
    while (i < g_open.size()) {
        size_t j = i + 1;
        while (j < g_open.size() && g_open[j].page == g_open[j - 1].page + PG) j++;
        mprotect(g_open[i].page, (j - i) * PG, PROT_NONE);
        i = j;
    }
    g_open.clear();
}
static void set_strand(int s)
{
    if (!g_race) return;
    close_pages();
    g_cur->strand = s;
}
static void race_switch_out() { if (g_race) close_pages(); }
static void race_track(AllocInfo &a) { mprotect(a.base, a.npages * PG, PROT_NONE); }
static void race_untrack(AllocInfo &a)
{
    char *b = (char *)a.base;
    mprotect(b, a.npages * PG, PROT_READ | PROT_WRITE);
    g_open.erase(std::remove_if(g_open.begin(), g_open.end(), [&](const Open &o) { return o.page >= b && o.page < b + a.npages * PG; }), g_open.end());
}
static bool race_fault(char *addr, bool w)
{
    if (!g_race) return false;
    auto it = g_live.upper_bound(addr);
    if (it == g_live.begin()) return false;
    --it;
    AllocInfo &a = it->second;
    if (!a.tracked || addr < (char *)a.base || addr >= (char *)a.base + a.npages * PG) return false;
    char *page = (char *)((uintptr_t)addr & ~(PG - 1));
    size_t idx = (page - (char *)a.base) / PG;
    auto &v = g_acc[{a.uid, idx}];
    int s = g_cur->strand;
    bool found = false;
    for (auto r = v.rbegin(); r != v.rend(); ++r)
        if (r->strand == s) { found = true; if (w) r->w = true; break; }
    if (!found) v.push_back({s, w});
    mprotect(page, PG, w ? PROT_READ | PROT_WRITE : PROT_READ);
    for (auto &o : g_open) if (o.page == page) return true;
    g_open.push_back({page, w});
    return true;
}
static RaceStats g_rs;
RaceStats race_stats() { return g_rs; }
void race_begin()
{
    g_race = true;
    g_sp.clear(); g_sgid.clear(); g_acc.clear(); g_open.clear();
    g_rs = RaceStats();
    g_cur->strand = new_strand({}, 0);
}
std::string race_end()
{
    close_pages();
    for (auto &e : g_live) if (e.second.tracked) { race_untrack(e.second); e.second.tracked = false; }
    g_race = false;
    size_t n = g_sp.size(), w = (n + 63) / 64;
    std::vector<uint64_t> anc(n * w, 0);
    for (size_t i = 0; i < n; i++)
        for (int p : g_sp[i]) {
            for (size_t k = 0; k < w; k++) anc[i * w + k] |= anc[p * w + k];
            anc[i * w + p / 64] |= 1ull << (p % 64);
        }
    auto ordered = [&](int a, int b) { if (a > b) std::swap(a, b); return a == b || (anc[b * w + a / 64] >> (a % 64) & 1); };
    std::string res;
    g_rs.strands = n;
    g_rs.blocks = g_acc.size();
    for (auto &e : g_acc) {
        auto &v = e.second;
        g_rs.accesses += v.size();
        for (size_t i = 0; i < v.size(); i++)
            for (size_t j = i + 1; j < v.size(); j++) {
                if (!v[i].w && !v[j].w) continue;
                g_rs.pairs++;
                if (ordered(v[i].strand, v[j].strand)) continue;
                int ga = g_sgid[v[i].strand], gb = g_sgid[v[j].strand];
                if (ga && ga == gb) continue;
                if (res.empty()) {
                    char buf[256];
                    snprintf(buf, sizeof buf, "two tasks with no ordering between them access page %zu of tile block #%llu (%s/%s)",
                             e.first.second, (unsigned long long)e.first.first, v[i].w ? "write" : "read", v[j].w ? "write" : "read");
                    res = buf;
                }
            }
    }
    g_sp.clear(); g_sgid.clear(); g_acc.clear();
    return res;
}

// ---------------------------------------------------------------- tasks
static void finish_task(Team *tm, Task *t)
{
    t->done = true;
    for (Task *s : t->succ)
        if (--s->npred == 0 && !s->started && !s->undeferred) tm->ready.push_back(s);
    t->succ.clear();
    if (t->parent) t->parent->children--;
    if (t->group) t->group->left--;
    tm->outstanding--;
    progress();
}
static void run_task(Team *tm, Task *t)
{
    t->started = true;
    progress();
    Frame *f = g_cur->frame;
    Task *saved = f->task;
    int sparent = g_cur->strand;
    if (g_race) {
        std::vector<int> p{t->s_create};
        for (Task *q : t->preds_for_race) p.push_back(q->s_end);
        set_strand(new_strand(p, t->gid));
    }
    f->task = t;
    t->fn(t->data);
    f = g_cur->frame;
    f->task = saved;
    if (g_race) {
        t->s_end = g_cur->strand;
        tm->s_join.push_back(t->s_end);
        set_strand(sparent);
    }
    t->store.reset();
    t->deps.clear();
    finish_task(tm, t);
}
// choose a ready task; only children of `of` if given, only members of `grp` if given
static Task *pick(Team *tm, Task *of, Group *grp)
{
    auto &r = tm->ready;
    g_st.maxready = std::max<long>(g_st.maxready, r.size());
    std::vector<size_t> c;
    for (size_t i = 0; i < r.size(); i++) {
        if (of && r[i]->parent != of) continue;
        if (grp && r[i]->group != grp) continue;
        c.push_back(i);
    }
    if (c.empty()) return nullptr;
    size_t k = 0;
    switch (g_s.policy) {
    case 0: k = 0; break;
    case 1: k = c.size() - 1; break;
    case 2: k = rnd(c.size()); break;
    case 3:
        for (size_t i = 1; i < c.size(); i++)
            if (r[c[i]]->priority > r[c[k]]->priority) k = i;
        break;
    default: // mostly newest-created first by creation number, sometimes random: starves the oldest
        if (rnd(8) == 0) k = rnd(c.size());
        else for (size_t i = 1; i < c.size(); i++) if (r[c[i]]->seq > r[c[k]]->seq) k = i;
    }
    Task *t = r[c[k]];
    r.erase(r.begin() + c[k]);
    return t;
}
static Task *make_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long sz, long al)
{
    Frame *f = g_cur->frame;
    Team *tm = f->team;
    auto t = std::make_unique<Task>();
    t->fn = fn;
    t->store.reset(new char[sz + al + 64]);
    if (al < 16) al = 16;
    t->data = (char *)(((uintptr_t)t->store.get() + al - 1) / al * al);
    if (cpyfn) cpyfn(t->data, data); else if (sz) memcpy(t->data, data, sz);
    t->parent = f->task;
    t->seq = ++g_taskseq;
    f->task->children++;
    tm->outstanding++;
    g_st.tasks++;
    Task *p = t.get();
    if (g_race) {
        t->s_create = g_cur->strand;
        f->task->kids.push_back(p);
        set_strand(new_strand({t->s_create}, f->task->gid));
    }
    tm->all.push_back(std::move(t));
    progress();
    return p;
}
static void add_pred(Task *t, Task *p)
{
    if (p == t) return;
    t->preds_for_race.push_back(p);
    g_st.deps++;
    if (!p->done) { p->succ.push_back(t); t->npred++; }
}
static void handle_deps(Task *t, void **depend)
{
    uintptr_t n = (uintptr_t)depend[0];
    std::vector<std::pair<void *, bool>> d;   // addr, isout
    if (n) {
        uintptr_t nout = (uintptr_t)depend[1];
        for (uintptr_t i = 0; i < n; i++) d.push_back({depend[2 + i], i < nout});
    }
    else {
        n = (uintptr_t)depend[1];
        uintptr_t nout = (uintptr_t)depend[2], nmx = (uintptr_t)depend[3], nin = (uintptr_t)depend[4];
        for (uintptr_t i = 0; i < n; i++) {
            if (i < nout + nmx) d.push_back({depend[5 + i], true});
            else if (i < nout + nmx + nin) d.push_back({depend[5 + i], false});
            else { // depobj: {address, kind}
                void **o = (void **)depend[5 + i];
                d.push_back({o[0], (uintptr_t)o[1] != 1});
            }
        }
    }
    // an address listed as both in and out counts as out
    std::map<void *, bool> m;
    for (auto &x : d) m[x.first] = m.count(x.first) ? (m[x.first] || x.second) : x.second;
    for (auto &x : m) {
        DepEntry &e = t->parent->deps[x.first];
        if (x.second) {
            if (!e.ins.empty()) { for (Task *p : e.ins) add_pred(t, p); }
            for (Task *p : e.outs) add_pred(t, p);
            e.ins.clear();
            e.outs.assign(1, t);
        }
        else {
            for (Task *p : e.outs) add_pred(t, p);
            e.ins.push_back(t);
        }
    }
}
static void join_child(Task *t)   // current strand continues after t
{
    if (!g_race) return;
    set_strand(new_strand({g_cur->strand, t->s_end}, g_cur->frame->task->gid));
}
static void maybe_yield(int pct) { if (multi() && g_s.quantum > 0 && (int)rnd(100) < pct) { g_cur->waiting = false; to_sched(); } }

extern "C" {
void GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, bool if_clause,
               unsigned flags, void **depend, int priority, void *)
{
    Frame *f = g_cur->frame;
    Team *tm = f->team;
    Task *t = make_task(fn, data, cpyfn, arg_size, arg_align);
    t->priority = (flags & 16) ? priority : 0;
    t->gid = f->task->gid;
    if (flags & 8) handle_deps(t, depend);
    bool undef = !if_clause || tm->base;
    if (undef) {
        t->undeferred = true;
        while (t->npred > 0) {
            Task *o = pick(tm, f->task, nullptr);
            if (o) run_task(tm, o); else wait_change();
        }
        run_task(tm, t);
        join_child(t);
        return;
    }
    if (t->npred == 0) {
        if (g_s.immediate_pct && (int)rnd(100) < g_s.immediate_pct) { t->undeferred = true; run_task(tm, t); t->undeferred = false; return; }
        tm->ready.push_back(t);
    }
    maybe_yield(20);
}
static void wait_group(Group *g, Task *cur, Team *tm)
{
    while (g->left > 0) {
        Task *o = pick(tm, cur, g);
        if (o) run_task(tm, o); else wait_change();
    }
}
void GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long arg_size, long arg_align, unsigned flags,
                   unsigned long num_tasks, int priority, long start, long end, long step)
{
    Frame *f = g_cur->frame;
    Team *tm = f->team;
    long n = step > 0 ? (end - start + step - 1) / step : (start - end - step - 1) / -step;
    if (step > 0 ? start >= end : start <= end) n = 0;
    if (n <= 0) return;
    g_st.loops++;
    unsigned long nt;
    if (flags & 512) { unsigned long gs = num_tasks ? num_tasks : 1; nt = n / gs; if (!nt) nt = 1; }
    else nt = num_tasks ? num_tasks : tm->n;
    if (nt > (unsigned long)n) nt = n;
    auto grp = std::make_unique<Group>();
    grp->id = ++g_groupid;
    long per = n / nt, extra = n % nt, s = start;
    std::vector<Task *> ts;
    for (unsigned long i = 0; i < nt; i++) {
        long cnt = per + (i < (unsigned long)extra ? 1 : 0);
        Task *t = make_task(fn, data, cpyfn, arg_size, arg_align);
        ((long *)t->data)[0] = s;
        ((long *)t->data)[1] = s + cnt * step;
        s += cnt * step;
        t->priority = (flags & 16) ? priority : 0;
        t->loop = true;
        t->gid = grp->id;
        if (!(flags & 2048)) { t->group = grp.get(); grp->left++; }
        tm->ready.push_back(t);
        ts.push_back(t);
    }
    progress();
    if (!(flags & 2048)) {
        wait_group(grp.get(), f->task, tm);
        for (Task *t : ts) join_child(t);
    }
}
void GOMP_taskloop_ull(void (*)(void *), void *, void (*)(void *, void *), long, long, unsigned, unsigned long, int, unsigned long long, unsigned long long, unsigned long long)
{ fatal("harness", "GOMP_taskloop_ull not modelled"); }
void GOMP_taskwait(void)
{
    Frame *f = g_cur->frame;
    Team *tm = f->team;
    while (f->task->children > 0) {
        Task *o = pick(tm, f->task, nullptr);
        if (o) run_task(tm, o); else wait_change();
    }
    if (g_race) {
        std::vector<int> p{g_cur->strand};
        for (Task *k : f->task->kids) p.push_back(k->s_end);
        f->task->kids.clear();
        set_strand(new_strand(p, f->task->gid));
    }
}
void GOMP_taskwait_depend(void **) { GOMP_taskwait(); }
void GOMP_taskyield(void) { maybe_yield(100); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) { GOMP_taskwait(); }
void GOMP_barrier(void)
{
    Frame *f = g_cur->frame;
    Team *tm = f->team;
    uint64_t gen = tm->gen;
    tm->arrived++;
    g_st.barriers++;
    if (g_race) tm->s_join.push_back(g_cur->strand);
    progress();
    while (tm->gen == gen) {
        if (tm->arrived == tm->n && tm->outstanding == 0) {
            tm->arrived = 0;
            tm->gen++;
            if (g_race) { tm->s_gen = new_strand(tm->s_join, 0); tm->s_join.assign(1, tm->s_gen); }
            progress();
            break;
        }
        Task *o = pick(tm, nullptr, nullptr);
        if (o) run_task(tm, o); else wait_change();
    }
    if (g_race) set_strand(new_strand({tm->s_gen}, 0));
}
bool GOMP_barrier_cancel(void) { GOMP_barrier(); return false; }
bool GOMP_single_start(void)
{
    Frame *f = g_cur->frame;
    Team *tm = f->team;
    size_t i = f->single_idx++;
    if (tm->single_taken.size() <= i) tm->single_taken.resize(i + 1, 0);
    maybe_yield(30);
    if (tm->single_taken[i]) return false;
    tm->single_taken[i] = 1;
    return true;
}
static void crit_enter(void *k)
{
    while (g_crit.count(k) && g_crit[k]) {
        if (!multi()) fatal("deadlock", "critical section entered twice by the only thread");
        if (g_crit[k] == g_cur) fatal("deadlock", "critical section re-entered by its owner");
        wait_change();
    }
    g_crit[k] = g_cur;
}
static void crit_leave(void *k) { g_crit[k] = nullptr; progress(); }
void GOMP_critical_start(void) { crit_enter((void *)&g_crit); }
void GOMP_critical_end(void) { crit_leave((void *)&g_crit); }
void GOMP_critical_name_start(void **p) { crit_enter(p); }
void GOMP_critical_name_end(void **p) { crit_leave(p); }
void GOMP_atomic_start(void) { crit_enter((void *)&g_rng); }
void GOMP_atomic_end(void) { crit_leave((void *)&g_rng); }

static void region(Team *tm, int tid, void (*fn)(void *), void *data, int strand)
{
    Task impl;
    Frame fr{tm, tid, &impl, 0, g_cur->frame};
    g_cur->frame = &fr;
    if (g_race) set_strand(new_strand({strand}, 0));
    fn(data);
    GOMP_barrier();
    g_cur->frame = fr.up;
}
[[noreturn]] static void fiber_main()
{
    Fiber *f = g_cur;
    f->body();
    f->done = true;
    progress();
    to_sched();
    abort();
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned)
{
    int n = nt ? (int)nt : g_s.nthreads;
    g_st.regions++;
    Team tm;
    bool nested = g_cur->frame != nullptr && g_cur->frame->up != nullptr;
    if (g_cur != &g_mainf || nested) n = 1;
    tm.n = n;
    int s0 = g_cur->strand;
    if (n == 1) {
        region(&tm, 0, fn, data, s0);
        if (g_race) set_strand(new_strand({tm.s_gen}, 0));
        return;
    }
    std::vector<Fiber *> fs;
    for (int i = 0; i < n; i++) {
        if ((int)g_fibers.size() <= i) g_fibers.push_back(std::make_unique<Fiber>());
        Fiber *f = g_fibers[i].get();
        if (!f->stack) {
            f->stack = (char *)mmap(nullptr, STACK + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            mprotect(f->stack, PG, PROT_NONE);
        }
        f->done = f->waiting = false;
        f->frame = nullptr;
        f->strand = s0;
        f->body = [&tm, i, fn, data, s0]() { region(&tm, i, fn, data, s0); };
        // initial stack: swap pops mxcsr/fpcw, 6 registers, then returns into fiber_main
        uint64_t *sp = (uint64_t *)(f->stack + PG + STACK);
        *--sp = 0;                        // alignment / fake return address
        *--sp = (uint64_t)(void *)fiber_main;
        for (int k = 0; k < 6; k++) *--sp = 0;
        --sp;
        uint32_t mx; uint16_t cw;
        asm volatile("stmxcsr %0" : "=m"(mx));
        asm volatile("fnstcw %0" : "=m"(cw));
        ((uint32_t *)sp)[0] = mx;
        ((uint32_t *)sp)[1] = cw;
        f->sp = sp;
        fs.push_back(f);
    }
    Fiber *me = g_cur;
    Fiber *saved_sched = g_sched_fiber;
    g_sched_fiber = me;
    Fiber *last = nullptr;
    size_t rr = 0;
    for (;;) {
        std::vector<Fiber *> c;
        int alive = 0;
        for (Fiber *f : fs) {
            if (f->done) continue;
            alive++;
            if (!f->waiting || f->wait_epoch != g_epoch) c.push_back(f);
        }
        if (!alive) break;
        if (c.empty()) fatal("deadlock", "all threads wait and no task can run");
        Fiber *nx;
        if (g_s.quantum > 0 || g_s.policy == 2 || g_s.policy == 4) nx = c[rnd(c.size())];
        else nx = c[rr++ % c.size()];
        if (nx != last) g_st.switches++;
        last = nx;
        g_cur = nx;
        vf_budget = next_quantum();
        vf_ctx_swap(&me->sp, nx->sp);
        g_cur = me;
    }
    g_sched_fiber = saved_sched;
    if (g_race) { g_cur->strand = s0; set_strand(new_strand({tm.s_gen}, 0)); }
}
// ---- omp_* ----
int omp_get_max_threads(void) { return g_s.nthreads; }
int omp_get_num_threads(void) { return g_cur->frame ? g_cur->frame->team->n : 1; }
int omp_get_thread_num(void) { return g_cur->frame ? g_cur->frame->tid : 0; }
int omp_in_parallel(void) { for (Frame *f = g_cur->frame; f; f = f->up) if (f->team->n > 1) return 1; return g_cur != &g_mainf; }
int omp_get_num_procs(void) { return 8; }
void omp_set_num_threads(int n) { if (n > 0) g_s.nthreads = n; }
int omp_get_level(void) { int l = 0; for (Frame *f = g_cur->frame; f; f = f->up) l++; return l; }
int omp_get_active_level(void) { return omp_in_parallel(); }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
int omp_get_dynamic(void) { return 0; }
void omp_set_dynamic(int) {}
int omp_get_thread_limit(void) { return 1 << 20; }
int omp_get_max_active_levels(void) { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_cancellation(void) { return 0; }
int omp_in_final(void) { return 0; }
double omp_get_wtime(void) { return 0.0; }
double omp_get_wtick(void) { return 1e-9; }
struct vf_lock { Fiber *owner; };
void omp_init_lock(void *l) { *(int *)l = 0; }
void omp_destroy_lock(void *) {}
void omp_set_lock(void *l) { while (*(int *)l) wait_change(); *(int *)l = 1; }
void omp_unset_lock(void *l) { *(int *)l = 0; progress(); }
int omp_test_lock(void *l) { if (*(int *)l) return 0; *(int *)l = 1; return 1; }

// ---- allocator entry points ----
void *vf_malloc_at(size_t n, const char *file, int line) { return do_alloc(n, g_fill, file, line, false); }
void *vf_calloc_at(size_t a, size_t b, const char *file, int line)
{
    if (b && a > ((size_t)1 << 40) / b) return nullptr;
    return do_alloc(a * b, 0, file, line, false);
}
void *vf_realloc_at(void *p, size_t n, const char *file, int line)
{
    void *q = do_alloc(n, g_fill, file, line, false);
    if (q && p) { memcpy(q, p, std::min(n, g_live[(char *)p].size)); do_free(p, false); }
    return q;
}
void vf_free(void *p) { do_free(p, false); }
void *vf_malloc(size_t n) { return vf_malloc_at(n, nullptr, 0); }
void *vf_calloc(size_t a, size_t b) { return vf_calloc_at(a, b, nullptr, 0); }
void *vf_realloc(void *p, size_t n) { return vf_realloc_at(p, n, nullptr, 0); }
int vf_posix_memalign(void **out, size_t, size_t n) { *out = vf_malloc_at(n, nullptr, 0); return *out ? 0 : 12; }
void *vf_aligned_alloc(size_t, size_t n) { return vf_malloc_at(n, nullptr, 0); }
} // extern "C"

bool in_team() { return g_cur->frame != nullptr; }
void parallel_master(const std::function<void()> &f)
{
    auto tr = [](void *p) { if (omp_get_thread_num() == 0) (*(const std::function<void()> *)p)(); };
    GOMP_parallel(tr, (void *)&f, 0, 0);
}

// ------------------------------------------------------------------------------------------------ signals
static void on_signal(int sig, siginfo_t *si, void *uc)
{
    char *addr = (char *)si->si_addr;
    if (sig == SIGSEGV) {
        bool w = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] & 2;
        if (race_fault(addr, w)) return;
        const char *where = "";
        if (getenv("VF_BT")) { int bfd = open(getenv("VF_BT"), O_WRONLY | O_APPEND); dup2(bfd, 2);
            void *bt[40];
            dprintf(2, "fault addr %p stack %p\n", (void *)addr, (void *)&where);
            backtrace_symbols_fd(bt, backtrace(bt, 40), 2);
            for (auto &f : g_fibers) dprintf(2, "fiber stack %p\n", (void *)f->stack);
            dprintf(2, "rsp %llx\n", (unsigned long long)((ucontext_t *)uc)->uc_mcontext.gregs[REG_RSP]);
            FILE *m = fopen("/proc/self/maps", "r"); char l[300]; while (m && fgets(l, 300, m)) { unsigned long x, y; if (sscanf(l, "%lx-%lx", &x, &y) == 2 && (unsigned long)addr + 0x10000 > x && (unsigned long)addr < y + 0x10000) dprintf(2, "%s", l); }
        }
        AllocInfo *a = find_block(addr, &where);
        char buf[300];
        if (a) {
            snprintf(buf, sizeof buf, "%s %s a %zu-byte block (%s:%d), offset %ld", w ? "write" : "read", where, a->size,
                     a->file ? a->file : "caller array", a->line, (long)(addr - (char *)a->user));
            fatal(w ? "oob.write" : "oob.read", buf);
        }
        for (auto &f : g_fibers)
            if (f->stack && addr >= f->stack && addr < f->stack + PG) fatal("crash", "stack overflow");
        snprintf(buf, sizeof buf, "SIGSEGV: %s at %s address", w ? "write" : "read", addr < (char *)65536 ? "a null-page" : "an unmapped");
        fatal("crash", buf);
    }
    fatal("crash", sig == SIGABRT ? "abort (assertion failed?)" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGILL ? "SIGILL" : "signal");
}
void install_signals()
{
    static char alt[1 << 16];
    stack_t ss{};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) sigaction(s, &sa, nullptr);
}
// fresh start for a test case: an implicit one-thread team for code outside parallel regions
void reset_all()
{
    static Team base_team;
    static Task base_task;
    static Frame base{&base_team, 0, &base_task, 0, nullptr};
    base_team.n = 1;
    base_team.base = true;
    g_mainf.frame = &base;
    g_cur = &g_mainf;
    g_since_progress = 0;
    g_crit.clear();
    vf_budget = 20000;
}
}

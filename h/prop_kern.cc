// C24: tile kernels and elimination trees.
#include "kern.h"
extern "C" {
#include "plasma_tree.h"
typedef void tree_fn(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *);
typedef void treec_fn(int, int, int **, int *, int, plasma_sequence_t *, plasma_request_t *);
// generators that plasma_tree_operations can be switched to (exercised when the library exports them)
extern tree_fn plasma_tree_flat_ts __attribute__((weak));
extern tree_fn plasma_tree_flat_tt __attribute__((weak));
extern tree_fn plasma_tree_binary __attribute__((weak));
extern tree_fn plasma_tree_greedy __attribute__((weak));
extern treec_fn plasma_tree_auto __attribute__((weak));
extern treec_fn plasma_tree_block_greedy __attribute__((weak));
}
extern "C" void vf_free(void *p);
std::vector<KernTest> &kerns() { static std::vector<KernTest> v; return v; }
namespace {
std::string S(long v) { return std::to_string(v); }
void tree(Ctx &c)
{
    int which = (int)c.s.u(10);
    int cap = (int)c.s.u(4) == 3 ? 40 : 12;
    int mt = 1 + (int)c.s.u(cap), nt = 1 + (int)c.s.u(cap), thr = 1 + (int)c.s.u(c.s.u(3) ? 16 : 4);
    rt::Sched sc;
    sc.nthreads = thr;
    rt::configure(sc);
    plasma_init();
    plasma_sequence_t sq; plasma_request_t rq;
    plasma_sequence_init(&sq); plasma_request_init(&rq);
    int *ops = nullptr, nops = -1;
    std::string nm = "operations";
    if (which == 9 && plasma_tree_auto) { nm = "auto"; plasma_tree_auto(mt, nt, &ops, &nops, thr, &sq, &rq); }
    else if (which == 8 && plasma_tree_greedy) { nm = "greedy"; plasma_tree_greedy(mt, nt, &ops, &nops, &sq, &rq); }
    else if (which == 7 && plasma_tree_binary) { nm = "binary"; plasma_tree_binary(mt, nt, &ops, &nops, &sq, &rq); }
    else if (which == 6 && plasma_tree_flat_tt) { nm = "flat_tt"; plasma_tree_flat_tt(mt, nt, &ops, &nops, &sq, &rq); }
    else if (which == 5 && plasma_tree_flat_ts) { nm = "flat_ts"; plasma_tree_flat_ts(mt, nt, &ops, &nops, &sq, &rq); }
    else if (which == 4 && plasma_tree_block_greedy) { thr = 1 + (int)c.s.u(64); nm = "block_greedy"; plasma_tree_block_greedy(mt, nt, &ops, &nops, thr, &sq, &rq); }
    else plasma_tree_operations(mt, nt, &ops, &nops, &sq, &rq);
    nm = "tree." + nm;
    c.desc << nm << " mt=" << mt << " nt=" << nt << " threads=" << thr;
    if (sq.status != PlasmaSuccess) c.fail(nm + ".status", "generation failed with " + S(sq.status));
    if (!ops || nops < 0) c.fail(nm + ".list", "no list of operations");
    int K = std::min(mt, nt);
    // per column and row: 0 full, 1 triangularized, 2 eliminated
    std::vector<std::vector<int>> st(K, std::vector<int>(mt, 0));
    auto err = [&](int i, const std::string &w) {
        c.fail(nm + ".order", "operation " + S(i) + " of " + S(nops) + ": " + w);
    };
    bool tt = false, ts = false;
    for (int i = 0; i < nops; i++) {
        plasma_enum_t kern; int j, k, p;
        plasma_tree_get_operation(ops, i, &kern, &j, &k, &p);
        if (j < 0 || j >= K) err(i, "column " + S(j));
        if (k < j || k >= mt) err(i, "row " + S(k) + " in column " + S(j));
        std::string w = "tile (" + S(k) + "," + S(j) + ")";
        if (j > 0 && st[j - 1][k] != 2) err(i, w + " used before its left neighbour is eliminated");
        if (kern == PlasmaGeKernel) {
            if (st[j][k] != 0) err(i, w + " triangularized although " + (st[j][k] == 1 ? "already triangular" : "eliminated"));
            st[j][k] = 1;
            continue;
        }
        if (kern != PlasmaTtKernel && kern != PlasmaTsKernel) err(i, "unknown kernel " + S(kern));
        bool is_tt = kern == PlasmaTtKernel;
        (is_tt ? tt : ts) = true;
        if (k == j) err(i, "diagonal " + w + " eliminated");
        if (p < j || p >= k) err(i, w + " eliminated by row " + S(p));
        if (j > 0 && st[j - 1][p] != 2) err(i, "row " + S(p) + " used in column " + S(j) + " too early");
        if (st[j][k] == 2) err(i, w + " eliminated twice");
        if (st[j][k] != (is_tt ? 1 : 0)) err(i, w + (is_tt ? " is not triangular" : " is already triangular"));
        if (st[j][p] != 1) err(i, "pivot row " + S(p) + (st[j][p] == 2 ? " is already eliminated" : " is not triangular"));
        st[j][k] = 2;
    }
    for (int j = 0; j < K; j++)
        for (int k = j; k < mt; k++)
            if (st[j][k] != (k == j ? 1 : 2)) c.fail(nm + ".complete", "tile (" + S(k) + "," + S(j) + ") left in state " + S(st[j][k]));
    vf_free(ops);
    plasma_finalize();
    c.label("elimination tree" + std::string(tt ? ts ? " TS+TT" : " TT" : ts ? " TS" : ""));
    c.nontrivial = K > 1 && mt > 2;
}
void c24(Ctx &c)
{
    int total = 0;
    for (auto &k : kerns()) if (k.prec == 'z') total += k.weight;
    int r = (int)c.s.u(total + 3), prec = (int)c.s.u(4);
    if (r >= total) return tree(c);
    char pc = "dzsc"[prec];
    for (auto &k : kerns()) {
        if (k.prec != pc) continue;
        if (r < k.weight) { rt::configure(rt::Sched()); return k.run(c); }
        r -= k.weight;
    }
    throw Discard();
}
}
static RegProp rp24({"C24", "an inner blocking below the number of reflectors, a trapezoidal V, an accumulated sum, a non-square tile or a tree with several columns", c24, 1000000, 20000000});

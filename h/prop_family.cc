// C01-C13: one operation per case, checked against its definition.
#include "lib.h"

static bool nontrivial_op(const Op &op) { return !op.empty && rt::stats().tasks >= 4; }

// draw op base and precision; 0 = simplest
const OpInfo *draw_op(Ctx &c, const std::vector<const OpInfo *> &v) { return v[c.s.u((uint32_t)v.size())]; }

static void one_call(Ctx &c, Op &op)
{
    if (c.s.chance(2)) execute_far(c, op); else execute(c, op);
    if (op.info > 0 && !op.expect_info && op.accidental()) throw Discard();
    if (op.isvalue ? false : op.info != op.expect_info)
        op.bad(c, "info", "returned " + std::to_string(op.info) + ", expected " + std::to_string(op.expect_info));
    op.footprint(c);
    op.check(c);
    op.cleanup();
}
static void run_family(Ctx &c, const std::vector<const OpInfo *> &v)
{
    const OpInfo *oi = draw_op(c, v);
    auto op = oi->make();
    draw_cfg(c, op->cfg, oi->panel);
    op->mode |= M_HARD;
    op->gen(c);
    c.desc << op->str();
    c.label(op->name);
    begin_plasma(op->cfg);
    one_call(c, *op);
    c.nontrivial = nontrivial_op(*op);
    // further calls in the same session: of the same routine, or of another one of the family
    int more = c.s.chance(6) ? 1 + (int)c.s.u(6) : 0;
    std::vector<std::unique_ptr<Op>> keep;
    for (int i = 0; i < more; i++) {
        const OpInfo *oj = c.s.chance(25) ? draw_op(c, v) : oi;
        auto next = oj->make();
        next->cfg = op->cfg;
        next->mode |= M_HARD;
        next->gen(c);
        if (next->cfg.nb != op->cfg.nb) continue;      // would need another tile size
        c.desc << " THEN " << next->str();
        one_call(c, *next);
        c.weight++;
        keep.push_back(std::move(next));
    }
    end_plasma();
    if (more) c.label("session of several calls");
    if (op->empty) c.label("empty");
    if (rt::stats().tasks >= 20) c.label("tasks>=20");
    if (op->cfg.sc.policy) c.label("policy" + std::to_string(op->cfg.sc.policy));
    if (op->cfg.sc.quantum) c.label("preemptive");
}
static std::vector<const OpInfo *> fam(const std::string &f)
{
    auto v = ops_in(f);
    if (f == "aux") for (auto *o : ops_in("noret")) v.push_back(o);
    return v;
}
#define FAMILY(ID, NAME, Q, T) \
    static RegProp rp_##ID({#ID, "the problem is not empty and the call created at least 4 tasks", [](Ctx &c) { static auto v = fam(NAME); run_family(c, v); }, Q, T});
FAMILY(C01, "blas3", 36000, 400000)
FAMILY(C02, "tri", 36000, 400000)
FAMILY(C03, "lu", 36000, 400000)
FAMILY(C04, "chol", 36000, 400000)
FAMILY(C05, "band", 36000, 400000)
FAMILY(C06, "het", 24000, 400000)
FAMILY(C07, "qr", 36000, 400000)
FAMILY(C08, "ls", 36000, 400000)
FAMILY(C09, "svd", 24000, 300000)
FAMILY(C10, "eig", 30000, 400000)
FAMILY(C11, "norm", 60000, 600000)
FAMILY(C12, "aux", 60000, 600000)
FAMILY(C13, "mixed", 36000, 400000)

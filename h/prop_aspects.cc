// C14-C18: every operation, looked at from one side at a time.
#include "lib.h"
#include <set>
#include <unistd.h>

namespace {
void PlasmaGetAll(int *p)
{
    static const int k[5] = {PlasmaTuning, PlasmaNb, PlasmaIb, PlasmaNumPanelThreads, PlasmaHouseholderMode};
    for (int i = 0; i < 5; i++) { p[i] = -1; plasma_get((plasma_enum_t)k[i], &p[i]); }
}
struct OpPick { std::vector<const OpInfo *> v; };
const std::vector<const OpInfo *> &sel(const std::string &flag, const std::set<std::string> &skip = {})
{
    static std::map<std::string, std::vector<const OpInfo *>> cache;
    std::string k = flag + "|";
    for (auto &s : skip) k += s + ",";
    auto it = cache.find(k);
    if (it != cache.end()) return it->second;
    std::vector<const OpInfo *> v;
    for (auto *o : ops_in("*")) if ((flag.empty() || (" " + o->flags + " ").find(" " + flag + " ") != std::string::npos) && !skip.count(o->base)) v.push_back(o);
    return cache[k] = v;
}
const OpInfo *pick_op(Ctx &c, const std::vector<const OpInfo *> &v) { return v[c.s.u((uint32_t)v.size())]; }
void snap(Op &op) { for (auto &m : op.mats) m->snapshot(); }
void back(Op &op) { for (auto &m : op.mats) m->restore(); }
struct Out {
    int info; double value; std::vector<std::vector<uint8_t>> b; std::vector<std::string> names;
};
Out outs(Op &op)
{
    Out o{op.info, op.value, {}, {}};
    for (auto &m : op.mats) { 
        o.b.push_back(m->bytes_out());
        o.names.push_back(m->name);
        auto l = op.live.find(m->name);
        if (l != op.live.end() && o.b.back().size() > l->second) o.b.back().resize(l->second);
    }
    return o;
}
void same(Ctx &c, Op &op, const Out &a, const Out &b, const char *what, const std::string &how)
{
    // a breakdown leaves the remaining outputs unspecified, and which of several zero diagonal elements is reported may be free
    if (a.info > 0 && !op.isvalue) {
        if (b.info <= 0 || (op.alt_info.empty() && a.info != b.info)) op.bad(c, what, "returns " + std::to_string(a.info) + " and " + std::to_string(b.info) + " " + how);
        return;
    }
    if (op.empty) return;
    if (a.info != b.info) op.bad(c, what, "returns " + std::to_string(a.info) + " and " + std::to_string(b.info) + " " + how);
    for (size_t i = 0; i < a.b.size(); i++)
        if (a.b[i] != b.b[i]) {
            size_t k = 0;
            while (k < a.b[i].size() && k < b.b[i].size() && a.b[i][k] == b.b[i][k]) k++;
            op.bad(c, what, "output " + a.names[i] + " differs (byte " + std::to_string(k) + " of " + std::to_string(a.b[i].size()) + ") " + how);
        }
}
void run_once(Ctx &c, Op &op)
{
    begin_plasma(op.cfg);
    execute(c, op);
}
void done(Ctx &c, Op &op, bool with_tasks = true)
{
    c.nontrivial = !op.empty && (!with_tasks || rt::stats().tasks >= 4);
    c.label(op.name);
}
bool discardable(Op &op) { return op.info > 0 && !op.expect_info && op.accidental(); }

// ---------------------------------------------------------------- C14
void c14(Ctx &c)
{
    static const auto &v = sel("");
    const OpInfo *oi = pick_op(c, v);
    auto op = oi->make();
    draw_cfg(c, op->cfg, oi->panel);
    if (c.s.u(8) == 7 && (" " + oi->flags + " ").find(" sing ") != std::string::npos) op->mode |= M_SINGULAR;
    op->gen(c);
    int var = 1 + (int)c.s.u(2), fillb = c.s.u(2) ? 0x41 : 0x3c;
    c.desc << op->str() << " rerun with other garbage " << var;
    c.weight = 2;
    rt::set_fill(0xFF);
    run_once(c, *op);
    op->footprint(c);
    if (discardable(*op)) throw Discard();
    Out a = outs(*op);
    op->cleanup();
    end_plasma();
    back(*op);
    for (auto &m : op->mats) m->poison(var);
    snap(*op);
    rt::set_fill(fillb);
    note_case_text(op->str() + " rerun");
    run_once(c, *op);
    rt::set_fill(0xFF);
    op->footprint(c);
    Out b = outs(*op);
    same(c, *op, a, b, "leak", "when elements documented as not referenced hold other values");
    done(c, *op);
    op->cleanup();
    end_plasma();
}
// ---------------------------------------------------------------- C15
void c15(Ctx &c)
{
    static const auto &v = sel("");
    const OpInfo *oi = pick_op(c, v);
    auto op = oi->make();
    draw_cfg(c, op->cfg, oi->panel);
    int what = (int)c.s.u(8);         // 0..5 illegal argument, 6 empty, 7 not initialized
    if (what == 6) op->mode |= M_EMPTY;
    op->gen(c);
    if (what == 7) {
        c.desc << op->str() << " before plasma_init";
        plasma_finalize();
        rt::configure(op->cfg.sc);
        execute(c, *op);
        if (op->info != PlasmaErrorNotInitialized) op->bad(c, "uninit", "returned " + std::to_string(op->info) + " without initialization");
        std::string w;
        for (auto &m : op->mats) if (m->name != "value" && !m->all_ok(&w)) op->bad(c, "uninit", w + " by a call without initialization");
        c.nontrivial = true;
        c.label("uninitialized");
        op->cleanup();
        return;
    }
    if (what == 6) {
        if (!op->empty) throw Discard();
        c.desc << op->str();
        run_once(c, *op);
        if (op->info != 0) op->bad(c, "empty", "returned " + std::to_string(op->info) + " for an empty problem");
        op->footprint(c);
        op->check(c);
        op->cleanup();
        end_plasma();
        c.nontrivial = true;
        c.label("empty");
        return;
    }
    if (op->args.empty()) throw Discard();
    auto &as = op->args[c.s.u((uint32_t)op->args.size())];
    if (as.name == "ldt" && op->empty) throw Discard();   // depends on the tile size, looked up after the quick return
    int good = *as.v, badv = as.bad[c.s.u((uint32_t)as.bad.size())];
    c.desc << op->str() << " with argument " << as.pos << " (" << as.name << ") = " << badv;
    c.weight = 2;
    c.label("bad " + as.name);
    begin_plasma(op->cfg);
    int p0[5];
    PlasmaGetAll(p0);
    long live0 = rt::live_count();
    *as.v = badv;
    execute(c, *op);
    *as.v = good;
    if (op->info != -as.pos) op->bad(c, "position", "argument " + std::to_string(as.pos) + " (" + as.name + "=" + std::to_string(badv) + "): returned " + std::to_string(op->info));
    std::string w;
    for (auto &m : op->mats) if (m->name != "value" && !m->all_ok(&w)) op->bad(c, "changed", w + " by a call rejecting argument " + std::to_string(as.pos));
    if (!rt::check_canaries(&w)) op->bad(c, "changed", w);
    if (rt::live_count() != live0) op->bad(c, "leak", "memory stays allocated after a call rejecting argument " + std::to_string(as.pos));
    int p1[5];
    PlasmaGetAll(p1);
    for (int i = 0; i < 5; i++) if (p0[i] != p1[i]) op->bad(c, "settings", "a rejected call changed library parameter " + std::to_string(i));
    // the library still works
    back(*op);
    note_case_text(op->str() + " after a rejected call");
    execute(c, *op);
    if (discardable(*op)) throw Discard();
    if (!op->isvalue && op->info != op->expect_info) op->bad(c, "after", "valid call after a rejected one returned " + std::to_string(op->info));
    op->check(c);
    c.nontrivial = true;
    op->cleanup();
    end_plasma();
}
// ---------------------------------------------------------------- C16
void c16(Ctx &c)
{
    static const auto &v = sel("sing");
    const OpInfo *oi = pick_op(c, v);
    auto op = oi->make();
    draw_cfg(c, op->cfg, oi->panel);
    bool sing = c.s.u(6) != 5;
    op->mode |= M_NONEMPTY | (sing ? M_SINGULAR : 0);
    op->gen(c);
    c.desc << op->str() << (sing ? " singular" : " regular");
    c.label(sing ? "singular" : "regular");
    run_once(c, *op);
    if (!sing && discardable(*op)) throw Discard();
    if (op->info != op->expect_info && !op->alt_info.count(op->info))
        op->bad(c, "index", std::string(sing ? "breakdown" : "regular input") + ": returned " + std::to_string(op->info) + ", expected " + std::to_string(op->expect_info));
    op->footprint(c);
    if (!sing) op->check(c);
    done(c, *op);
    if (sing && op->expect_info > op->cfg.nb) c.label("beyond the first tile");
    op->cleanup();
    end_plasma();
}
// ---------------------------------------------------------------- C17
bool nb_bound(const std::string &b)
{
    static const std::set<std::string> s{"gbtrf", "gbsv", "gbtrs", "hetrf", "hetrs", "hesv", "ungqr", "unglq", "unmqr", "unmlq", "geqrs", "gelqs", "mgbsv", "langb", "gesdd"};
    return s.count(b) > 0;
}
std::string tuning_script(const Cfg &g);
// routines that look up their tile size under the name of the operation
bool tunes(const std::string &b)
{
    static const std::set<std::string> no{"amax", "gelqs", "geqrs", "gesdd", "getri_aux", "langb", "stevx2", "ungqr", "unglq", "unmqr", "unmlq", "lag2hi"};
    return !no.count(b);
}
void c17(Ctx &c)
{
    static const auto &v = sel("");
    const OpInfo *oi = pick_op(c, v);
    auto op = oi->make();
    draw_cfg(c, op->cfg, oi->panel);
    op->mode |= M_NONEMPTY;
    op->gen(c);
    int kind = (int)c.s.u(4);      // 0,1 other parameters; 2 same parameters, other thread count and schedule; 3 from a tuning script
    Cfg g1 = op->cfg, g2 = op->cfg;
    c.weight = 2;
    auto verify = [&](const char *w) {
        note_case_text(op->str() + " " + w);
        execute(c, *op);
        if (discardable(*op)) throw Discard();
        if (!op->isvalue && op->info != op->expect_info) op->bad(c, "info", std::string(w) + ": returned " + std::to_string(op->info));
        op->footprint(c);
    };
    if (kind == 3) {
        Cfg t = g1;
        draw_cfg(c, t, oi->panel);
        // what the program sets (t) differs from what the script answers (g1)
        if (nb_bound(oi->base) && !tunes(oi->base)) t.nb = g1.nb;
        t.hh = g1.hh;
        if (t.mtpf > 1) g1.sc.immediate_pct = g2.sc.immediate_pct = 0;
        c.desc << op->str() << " from a tuning script, program set nb=" << t.nb << " ib=" << t.ib << " panel=" << t.mtpf;
        std::string f = tuning_script(g1);
        rt::configure(g1.sc);
        rt::stats_reset();
        plasma_finalize();
        setenv("PLASMA_TUNING_FILENAME", f.c_str(), 1);
        plasma_init();
        unsetenv("PLASMA_TUNING_FILENAME");
        unlink(f.c_str());
        int x = -1;
        plasma_get(PlasmaTuning, &x);
        if (x != PlasmaEnabled) c.fail("tuning.default", "tuning is not enabled by default");
        plasma_set(PlasmaNb, t.nb);
        plasma_set(PlasmaIb, t.ib);
        plasma_set(PlasmaNumPanelThreads, t.mtpf);
        plasma_set(PlasmaHouseholderMode, t.hh);
        verify("tuned");
        int p[5];
        PlasmaGetAll(p);
        if (tunes(oi->base) && rt::stats().tasks > 0 && p[1] != g1.nb) op->bad(c, "untuned", "tile size " + std::to_string(p[1]) + " in use, the tuning script says " + std::to_string(g1.nb));
        for (int i = 1; i <= 3; i++) {
            int set = i == 1 ? t.nb : i == 2 ? t.ib : t.mtpf, scr = i == 1 ? g1.nb : i == 2 ? g1.ib : g1.mtpf;
            if (p[i] != set && p[i] != scr) op->bad(c, "untuned", "library parameter " + std::to_string(i) + " is " + std::to_string(p[i]) + ", neither set nor tuned");
        }
        Out a = outs(*op);
        op->cleanup();
        end_plasma();
        back(*op);
        // same parameters by hand
        g2.nb = p[1]; g2.ib = p[2]; g2.mtpf = p[3];
        begin_plasma(g2);
        verify("with the tuned parameters set by hand");
        same(c, *op, a, outs(*op), "differs", "between tuned and explicitly set parameters");
        done(c, *op);
        c.label("tuned");
        op->cleanup();
        end_plasma();
        return;
    }
    bool bits = false;
    // the reduction tree is part of the meaning of the T factor and follows the number of threads of plasma_init
    static const std::set<std::string> needsT{"ungqr", "unglq", "unmqr", "unmlq", "geqrs", "gelqs"}, makesT{"geqrf", "gelqf", "gels"}, split{"hetrf", "hesv", "stevx2"};
    bool tree = g1.hh == PlasmaTreeHouseholder;
    if (kind <= 1) {
        Cfg t = g1;
        draw_cfg(c, t, oi->panel);
        g2 = t;
        if (nb_bound(oi->base)) { g2.nb = g1.nb; if (oi->base != "gbtrf" && oi->base != "gbsv" && oi->base != "mgbsv" && oi->base != "hesv" && oi->base != "hetrf") g2.ib = g1.ib; }
        if (oi->base != "gels" && oi->base != "geqrf" && oi->base != "gelqf") g2.hh = g1.hh;
        bits = op->exact && op->unique_out && oi->family != "norm";
    }
    else {
        draw_sched(c, g2.sc, false);
        g2.mtpf = g1.mtpf = 1;
        bits = !(tree && makesT.count(oi->base)) && !split.count(oi->base);
    }
    if (tree && needsT.count(oi->base)) g2.sc.nthreads = g1.sc.nthreads;
    for (auto &m : op->mats) {           // very many tiles only cost time
        long t1 = (m->m + g1.nb - 1) / g1.nb * (long)((m->n + g1.nb - 1) / g1.nb), t2 = (m->m + g2.nb - 1) / g2.nb * (long)((m->n + g2.nb - 1) / g2.nb);
        if (std::max(t1, t2) > 600) throw Discard();
    }
    c.desc << op->str() << " against " << g2.str();
    op->cfg = g1;
    begin_plasma(g1);
    verify("first configuration");
    if (!bits) op->check(c);
    Out a = outs(*op);
    std::vector<double> vr[2], vi[2];
    for (auto &m : op->mats) m->values_out(vr[0], vi[0]);
    op->cleanup();
    back(*op);
    bool keep = c.s.u(2);            // change the settings of the live library or start it again
    op->cfg = g2;
    if (keep) {
        rt::configure(g2.sc);
        rt::stats_reset();
        plasma_set(PlasmaNb, g2.nb);
        plasma_set(PlasmaIb, g2.ib);
        plasma_set(PlasmaNumPanelThreads, g2.mtpf);
        plasma_set(PlasmaHouseholderMode, g2.hh);
    }
    else { end_plasma(); begin_plasma(g2); }
    verify("second configuration");
    if (!bits) op->check(c);
    else if (kind <= 1) {                    // exact arithmetic: same values, whatever the sign of a zero
        for (auto &m : op->mats) m->values_out(vr[1], vi[1]);
        if (vr[0].size() != vr[1].size() || a.info != op->info) op->bad(c, "differs", "results have different extent between " + g1.str() + " and " + g2.str());
        for (size_t i = 0; i < vr[0].size() && !op->empty; i++)
            if (vr[0][i] != vr[1][i] || vi[0][i] != vi[1][i]) {
                bool nn = std::isnan(vr[0][i]) && std::isnan(vr[1][i]);
                if (!nn) op->bad(c, "differs", "output value " + std::to_string(i) + " differs between " + g1.str() + " and " + g2.str());
            }
    }
    else same(c, *op, a, outs(*op), "differs", "between " + g1.str() + " and " + g2.str());
    done(c, *op);
    c.label(kind == 2 ? "threads" : "parameters");
    op->cleanup();
    end_plasma();
}
std::string tuning_script(const Cfg &g)
{
    std::string nb = std::to_string(g.nb), ib = std::to_string(g.ib), mt = std::to_string(g.mtpf);
    char path[] = "/tmp/vftuneXXXXXX";
    int fd = mkstemp(path);
    // one table for every routine name: answers any function the library looks up
    std::string s = "setmetatable(_G, {__index = function(t, k) if k:find('_nb$') then return function() return " + nb + " end elseif k:find('_ib$') then return function() return " + ib +
                    " end elseif k:find('_max_panel_threads$') then return function() return " + mt + " end end end})\n";
    if (write(fd, s.data(), s.size()) < 0) {}
    close(fd);
    return path;
}
// ---------------------------------------------------------------- C18
void c18(Ctx &c)
{
    static const auto &v = sel("");
    if (c.s.u(16) == 15) return async_chain_races(c);
    const OpInfo *oi = pick_op(c, v);
    auto op = oi->make();
    bool race = c.s.u(3) == 2 && oi->base != "gesdd" && oi->base != "stevx2";
    draw_cfg(c, op->cfg, oi->panel);
    op->cfg.sc.nthreads = std::max(2, op->cfg.sc.nthreads);
    if (race) {
        op->cfg.nb = 32;
        op->cfg.ib = oi->prec == 's' ? 32 : oi->prec == 'z' ? 8 : 16;
        op->cfg.square = true;
        op->cfg.cap = 32 * (2 + (int)c.s.u(3));
        op->cfg.sc.immediate_pct = 0;
        // cooperating panel tasks synchronize through the library's barrier, which the monitor does not follow
        static const std::set<std::string> coop{"gbtrf", "gbsv", "mgbsv", "hetrf", "hesv"};
        if (coop.count(oi->base)) op->cfg.mtpf = 1;
    }
    op->mode |= M_NONEMPTY;
    op->gen(c);
    // tiles must be whole numbers of pages, else neighbours share one
    if (race && (oi->family == "qr" || oi->family == "ls"))
        for (auto &kv : op->shown) if ((kv.first == "m" || kv.first == "n" || kv.first == "k" || kv.first == "factored" || kv.first == "nrhs") && kv.second % 32) throw Discard();
    Cfg g1 = op->cfg, g2 = op->cfg;
    g1.sc.policy = 0; g1.sc.quantum = 0; g1.sc.immediate_pct = 0; g1.sc.seed = 0;
    int n = g1.sc.nthreads;
    draw_sched(c, g2.sc, true);
    g2.sc.nthreads = n;
    if (g2.mtpf > 1) g2.sc.immediate_pct = 0;
    if (race) { g2.sc.quantum = 0; }
    c.desc << op->str() << (race ? " race monitor under " : " against ") << g2.str();
    op->cfg = g1;
    if (!race) {
        c.weight = 2;
        run_once(c, *op);
        if (discardable(*op)) throw Discard();
        Out a = outs(*op);
        op->cleanup();
        end_plasma();
        back(*op);
        op->cfg = g2;
        note_case_text(op->str() + " second schedule");
        run_once(c, *op);
        same(c, *op, a, outs(*op), "schedule", "between creation order and " + g2.str());
        done(c, *op);
        op->cleanup();
        end_plasma();
        c.label("schedules");
        return;
    }
    op->cfg = g2;
    begin_plasma(op->cfg);
    rt::race_begin();
    execute(c, *op);
    std::string r = rt::race_end();
    if (discardable(*op)) throw Discard();
    if (!r.empty()) op->bad(c, "race", r);
    auto rs = rt::race_stats();
    c.nontrivial = rs.pairs > 0;
    c.label(op->name);
    c.label("race monitor");
    op->cleanup();
    end_plasma();
}
}
static RegProp rp14({"C14", "the problem is not empty and the call created at least 4 tasks", c14, 60000, 600000});
static RegProp rp15({"C15", "an illegal argument, an empty problem or an uninitialized library was presented to the routine", c15, 60000, 600000});
static RegProp rp16({"C16", "the problem is not empty and the call created at least 4 tasks", c16, 60000, 600000});
static RegProp rp17({"C17", "the problem is not empty and the call created at least 4 tasks", c17, 50000, 500000});
static RegProp rp18({"C18", "the problem is not empty and the call created at least 4 tasks (race runs: at least one pair of conflicting accesses was ordered)", c18, 50000, 500000});

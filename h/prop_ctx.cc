// C19: histories of the control interface against a model of the library's context.
#include "lib.h"
#include <fstream>
#include <sstream>
#include <set>
#include <unistd.h>
#include <sys/stat.h>

namespace {
const int PAR[5] = {PlasmaTuning, PlasmaNb, PlasmaIb, PlasmaNumPanelThreads, PlasmaHouseholderMode};
const char *PN[5] = {"Tuning", "Nb", "Ib", "NumPanelThreads", "HouseholderMode"};
// names under which a routine may ask the script: function base and suffixes
struct TN { const char *base; const char *fn; const char *suf; };
const TN TUNES[] = {
    {"gemm", "gemm", "n"}, {"gbmm", "gbmm", "n"}, {"geadd", "geadd", "n"}, {"symm", "symm", "n"}, {"hemm", "symm", "n"}, {"syrk", "syrk", "n"}, {"herk", "syrk", "n"},
    {"syr2k", "syr2k", "n"}, {"her2k", "syr2k", "n"}, {"trmm", "trmm", "n"}, {"trsm", "trsm", "n"}, {"tradd", "tradd", "n"}, {"lacpy", "lacpy", "n"}, {"lascl", "lascl", "n"},
    {"laset", "laset", "n"}, {"lauum", "lauum", "n"}, {"trtri", "trtri", "n"}, {"potrf", "potrf", "n"}, {"posv", "potrf", "n"}, {"potrs", "trsm", "n"}, {"potri", "trtri", "n"},
    {"poinv", "poinv", "n"}, {"getrf", "getrf", "nit"}, {"gesv", "getrf", "nit"}, {"getrs", "trsm", "n"}, {"getri", "getrf", "nit"}, {"geinv", "geinv", "nit"}, {"geswp", "geswp", "n"},
    {"geqrf", "geqrf", "ni"}, {"gelqf", "gelqf", "ni"}, {"gels", "ge??f", "ni"}, {"lange", "lange", "n"}, {"lansy", "lansy", "n"}, {"lanhe", "lansy", "n"}, {"lantr", "lantr", "n"},
    {"pbtrf", "pbtrf", "n"}, {"pbsv", "pbtrf", "n"}, {"pbtrs", "trsm", "n"}, {"amax", "", ""},
};
const TN *tunes_of(const std::string &b) { for (auto &t : TUNES) if (b == t.base) return &t; return nullptr; }
const char *FN[] = {"gemm", "gbmm", "geadd", "symm", "syrk", "syr2k", "trmm", "trsm", "tradd", "lacpy", "lascl", "laset", "lauum", "trtri", "potrf", "poinv", "getrf", "geinv", "geswp", "geqrf", "gelqf", "lange", "lansy", "lantr", "pbtrf"};
const char *SUF[] = {"_nb", "_ib", "_max_panel_threads"};

struct Fn { int kind; int v; };
// what a script function answers to the logged call; false: nothing usable
bool answer(const Fn &f, const std::vector<long> &args, long &out)
{
    switch (f.kind) {
    case 1: out = f.v; return true;
    case 2: { long s = 0; for (size_t i = 0; i < args.size(); i++) s += args[i] * (long)(2 * i + 3); out = 1 + s % 7; return true; }
    case 4: out = f.v; return true;                 // numeric string
    case 10: out = f.v; return true;                // fraction, cut off
    case 12: out = f.v; return true;                // several results
    case 14: out = 1 + (args.empty() ? 0 : args[0] % 3) ; return true;   // of the number of threads
    default: return false;
    }
}
std::string body(const Fn &f)
{
    std::string v = std::to_string(f.v);
    switch (f.kind) {
    case 1: return "return " + v;
    case 2: return "local s = 0; for i = 2, select('#', ...) do s = s + select(i, ...) * (2 * (i - 2) + 3) end return 1 + s % 7";
    case 3: return "error('refused')";
    case 4: return "return '" + v + "'";
    case 5: return "return 'large'";
    case 6: return "return -" + v;
    case 7: return "return 1e18";
    case 8: return "return 0/0";
    case 9: return "";
    case 10: return "return " + v + ".75";
    case 12: return "return " + v + ", 77";
    case 13: return "return {" + v + "}";
    case 14: return "local t, n = ...; return 1 + n % 3";
    case 15: return "return 0";
    case 16: return "return 0.5";
    case 17: return "return -1/0";
    case 18: return "local function f(x) return 1 + f(x) end return f(1)";
    default: return "return 2147483648";
    }
}
struct Script { bool loads = false; std::map<std::string, Fn> fn; };
struct Call { std::unique_ptr<Op> op; const OpInfo *oi; int p[5]; int initthreads; rt::Sched sc; int info; double value; long tasks; std::vector<std::vector<uint8_t>> out; };

void c19(Ctx &c)
{
    static std::vector<const OpInfo *> v;
    if (v.empty()) for (auto *o : ops_in("*")) if (tunes_of(o->base)) v.push_back(o);
    char dir[] = "/tmp/vfctxXXXXXX";
    if (!mkdtemp(dir)) throw Discard();
    struct Rm { std::string d; ~Rm() { for (const char *n : {"s.lua", "log", "d"}) { unlink((d + "/" + n).c_str()); rmdir((d + "/" + n).c_str()); } rmdir(d.c_str()); } } rm{dir};
    std::string D(dir), file = D + "/s.lua", logf = D + "/log";
    plasma_finalize();
    unsetenv("PLASMA_TUNING_FILENAME");
    bool init = false, live = false;       // library started; with a script
    int p[5] = {0, 0, 0, 0, 0}, initthreads = 1;
    Script env, cur;                       // script named by the environment now; script of the running library
    rt::Sched sc;
    draw_sched(c, sc, false); sc.immediate_pct = 0;
    rt::configure(sc);
    std::vector<Call> calls;
    int steps = 3 + (int)c.s.u(14), routines = 0, tuned = 0, rejected = 0;
    std::string hist;
    auto say = [&](const std::string &t) { hist += (hist.empty() ? "" : "; ") + t; c.desc.str(""); c.desc << hist; note_case_text(hist); };
    auto expect = [&](int got, bool ok, int code, const std::string &w) {
        if (ok ? got != PlasmaSuccess : (code ? got != code : got == PlasmaSuccess)) c.fail("context.return", w + " returned " + std::to_string(got));
    };
    auto readlog = [&]() {
        std::vector<std::pair<std::string, std::pair<std::string, std::vector<long>>>> r;
        std::ifstream f(logf);
        std::string l;
        while (std::getline(f, l)) {
            std::istringstream is(l);
            std::string n, t; long x; std::vector<long> a;
            is >> n >> t;
            while (is >> x) a.push_back(x);
            r.push_back({n, {t, a}});
        }
        return r;
    };
    auto gets = [&](const std::string &w) {
        for (int i = 0; i < 5; i++) {
            int x = -77777;
            int r = plasma_get((plasma_enum_t)PAR[i], &x);
            if (!init) { if (r != PlasmaErrorNotInitialized || x != -77777) c.fail("context.get", "plasma_get without initialization returned " + std::to_string(r) + " after " + w); continue; }
            if (r != PlasmaSuccess) c.fail("context.get", std::string("plasma_get(") + PN[i] + ") returned " + std::to_string(r) + " after " + w);
            if (x != p[i]) c.fail("context.get", std::string("plasma_get(") + PN[i] + ") gives " + std::to_string(x) + " instead of " + std::to_string(p[i]) + " after " + w);
        }
    };
    for (int st = 0; st < steps; st++) {
        int k = (int)c.s.u(20);
        std::string w;
        bool par = sc.nthreads > 1 && k != 19 && c.s.u(12) == 11;      // from inside of a parallel region
        auto in = [&](const std::function<int()> &f) { int r = 0; if (par) rt::parallel_master([&]() { r = f(); }); else r = f(); return r; };
        if (k <= 2 || (st == 0 && k < 15)) {
            w = std::string("init") + (par ? " in parallel" : "");
            say(w);
            int r = in([]() { return plasma_init(); });
            expect(r, !par && !init, 0, w);
            if (!par && !init) {
                init = true; live = env.loads; cur = env; initthreads = sc.nthreads;
                int d[5] = {PlasmaEnabled, 256, 64, 1, PlasmaFlatHouseholder};
                memcpy(p, d, sizeof p);
                if (c.s.u(3) == 2) { unlink(file.c_str()); env = Script(); }   // the file is read at the start only
            }
            else rejected++;
        }
        else if (k == 3) {
            w = std::string("finalize") + (par ? " in parallel" : "");
            say(w);
            int r = in([]() { return plasma_finalize(); });
            expect(r, !par && init, !init ? PlasmaErrorNotInitialized : PlasmaErrorEnvironment, w);
            if (!par && init) { init = live = false; } else rejected++;
        }
        else if (k <= 7) {
            int i = (int)c.s.u(6), val, good = 1, par_ = i < 5 ? PAR[i] : c.s.pick({999, -1, 1000000, (int)PlasmaInplaceOutplace, (int)PlasmaNoTrans});
            static const int bad[] = {0, -1, -2147483647 - 1, 999}, badflag[] = {2, -1, 999, -2147483647 - 1};
            if (i == 5) { val = 8; good = 0; }
            else if (i == 0 || i == 4) {
                int pick = (int)c.s.u(3);
                val = i == 0 ? (pick == 0 ? PlasmaDisabled : pick == 1 ? PlasmaEnabled : badflag[c.s.u(4)]) : (pick == 0 ? PlasmaTreeHouseholder : pick == 1 ? PlasmaFlatHouseholder : badflag[c.s.u(4)]);
                good = pick < 2;
            }
            else if (c.s.u(4) == 3) { val = bad[c.s.u(3)]; good = 0; }
            else val = i == 3 ? 1 + (int)c.s.u(sc.nthreads) : 1 + (int)c.s.u(12);
            w = std::string("set(") + (i < 5 ? PN[i] : std::to_string(par_)) + ", " + std::to_string(val) + ")" + (par ? " in parallel" : "");
            say(w);
            int r = in([&]() { return plasma_set((plasma_enum_t)par_, val); });
            expect(r, init && !par && good, !init ? PlasmaErrorNotInitialized : par ? PlasmaErrorEnvironment : PlasmaErrorIllegalValue, w);
            if (init && !par && good) p[i] = val; else rejected++;
        }
        else if (k == 8) {
            int q = c.s.pick({999, -1, 1000000, (int)PlasmaInplaceOutplace, (int)PlasmaNoTrans}), x = -77777;
            w = "get(" + std::to_string(q) + ")";
            say(w);
            int r = in([&]() { return plasma_get((plasma_enum_t)q, &x); });
            expect(r, false, init ? PlasmaErrorIllegalValue : PlasmaErrorNotInitialized, w);
            if (x != -77777) c.fail("context.get", w + " stored a value");
            rejected++;
        }
        else if (k <= 10) {
            // another environment for the next start
            env = Script();
            unlink(file.c_str());
            int e = (int)c.s.u(12);
            std::string path = file, text;
            if (e == 0) { unsetenv("PLASMA_TUNING_FILENAME"); w = "no script"; }
            else if (e == 1) w = "missing script";
            else if (e == 2) { path = ""; w = "empty script name"; }
            else if (e == 3) { path = D + "/d"; mkdir(path.c_str(), 0700); w = "script is a directory"; }
            else {
                env.loads = e > 5;
                text = "local LOG = '" + logf + "'\nlocal function lg(name, ...)\n local f = io.open(LOG, 'a'); f:write(name)\n for i = 1, select('#', ...) do f:write(' ', tostring((select(i, ...)))) end\n f:write('\\n'); f:close()\nend\n";
                w = e == 4 ? "script with syntax error" : e == 5 ? "script failing at the end" : "script";
                int deflt = (int)c.s.u(3), single = (int)c.s.u(20);
                for (auto f : FN) for (int sf = 0; sf < 3; sf++) {
                    Fn q;
                    std::string n = std::string(f) + SUF[sf];
                    int pick = (int)c.s.u(3);
                    q.kind = deflt == 0 && pick < 2 ? 1 : deflt == 1 && pick < 2 ? 2 : (single && pick < 2) ? single : (int)c.s.u(21);
                    q.v = sf == 2 ? 1 : 1 + (int)c.s.u(9);
                    if (sf == 2 && (q.kind == 2 || q.kind == 14)) q.kind = 1;      // never more panel threads than threads
                    if (q.kind == 0) continue;                                     // not defined
                    if (q.kind == 11) { text += n + " = 5\n"; continue; }          // not a function
                    env.fn[n] = q;
                    text += "function " + n + "(...) lg('" + n + "', ...) " + body(q) + " end\n";
                }
                if (e == 4) text += "function (\n";
                if (e == 5) text += "error('not today')\n";
                if (e <= 5) env.fn.clear();
                std::ofstream(file) << text;
            }
            if (e) setenv("PLASMA_TUNING_FILENAME", path.c_str(), 1);
            say(w);
        }
        else if (k == 11) {
            rt::Sched n;
            draw_sched(c, n, false); n.immediate_pct = 0;
            if (init && p[3] > n.nthreads) n.nthreads = p[3];
            sc = n;
            rt::configure(sc);
            w = "threads=" + std::to_string(sc.nthreads);
            say(w);
        }
        else {
            const OpInfo *oi = v[c.s.u((uint32_t)v.size())];
            if (p[3] > sc.nthreads) continue;
            auto op = oi->make();
            op->mode |= M_NONEMPTY | M_WELL;
            op->cfg.nb = init ? std::min(p[1], 12) : 4; op->cfg.ib = p[2]; op->cfg.mtpf = p[3]; op->cfg.hh = init ? p[4] : PlasmaFlatHouseholder; op->cfg.sc = sc; op->cfg.cap = 3 * op->cfg.nb + 2;
            if (op->cfg.cap > 24) op->cfg.cap = 24;
            op->gen(c);
            w = op->name;
            std::string full = op->str();
            say(full);
            unlink(logf.c_str());
            rt::stats_reset();
            op->call();
            if (!init) {
                std::string ww;
                if (!op->isvalue && op->info != PlasmaErrorNotInitialized) c.fail("context.routine", full + " without initialization returned " + std::to_string(op->info));
                for (auto &m : op->mats) if (m->name != "value" && !m->all_ok(&ww)) c.fail("context.routine", ww + " by " + full + " without initialization");
                rejected++;
                continue;
            }
            routines++;
            if (op->info > 0 && op->accidental()) throw Discard();
            if (!op->isvalue && op->info != op->expect_info) c.fail("context.routine", full + " returned " + std::to_string(op->info));
            op->footprint(c);
            // which answers of the script are in force now
            auto log = readlog();
            const TN *t = tunes_of(oi->base);
            std::set<std::string> want;
            std::string fn = t->fn;
            std::set<long> dims;
            for (auto &m : op->mats) { dims.insert(m->m); dims.insert(m->n); }
            std::set<std::string> bases{fn};
            if (fn == "ge??f") bases = {"geqrf", "gelqf"};
            if (live && p[0] == PlasmaEnabled) {
                std::set<std::string> seen;
                for (auto &l : log) {
                    seen.insert(l.first);
                    bool ok = false;
                    for (auto &b : bases) for (const char *s = t->suf; *s; s++) if (l.first == b + SUF[*s == 'n' ? 0 : *s == 'i' ? 1 : 2]) ok = true;
                    if (!ok) c.fail("context.tuning", full + " asks the tuning script for " + l.first);
                    if (l.second.first != std::string(1, (char)toupper(oi->prec))) c.fail("context.tuning", full + " asks " + l.first + " for type " + l.second.first);
                    if (l.second.second.empty() || l.second.second[0] != sc.nthreads) c.fail("context.tuning", full + " passes a wrong number of threads to " + l.first);
                    if (oi->base.compare(0, 2, "gb") && oi->base.compare(0, 2, "pb"))
                        for (size_t i = 1; i < l.second.second.size(); i++) if (!dims.count(l.second.second[i])) c.fail("context.tuning", full + " passes " + std::to_string(l.second.second[i]) + " to " + l.first + ", not a dimension of the problem");
                    long x;
                    if (answer(cur.fn[l.first], l.second.second, x)) { p[l.first.find("_nb") != std::string::npos ? 1 : l.first.find("_ib") != std::string::npos ? 2 : 3] = (int)x; tuned++; }
                }
                for (auto &b : bases) {
                    if (fn == "ge??f" || rt::stats().tasks == 0) break;
                    for (const char *s = t->suf; *s; s++) {
                        std::string n = b + SUF[*s == 'n' ? 0 : *s == 'i' ? 1 : 2];
                        if (cur.fn.count(n) && !seen.count(n)) c.fail("context.tuning", full + " does not ask the tuning script for " + n);
                    }
                }
            }
            else if (!log.empty()) c.fail("context.tuning", full + " asks the tuning script for " + log[0].first + (live ? " although tuning is disabled" : " of an earlier start"));
            Call cl;
            cl.oi = oi; memcpy(cl.p, p, sizeof p); cl.initthreads = initthreads; cl.sc = sc; cl.info = op->info; cl.value = op->value; cl.tasks = rt::stats().tasks;
            for (auto &m : op->mats) { cl.out.push_back(m->bytes_out()); auto l = op->live.find(m->name); if (l != op->live.end() && cl.out.back().size() > l->second) cl.out.back().resize(l->second); }
            op->cleanup();
            cl.op = std::move(op);
            calls.push_back(std::move(cl));
        }
        gets(w);
    }
    if (init) plasma_finalize();
    unsetenv("PLASMA_TUNING_FILENAME");
    // every call gives what it gives in a fresh library with exactly the parameters that were in force
    for (auto &cl : calls) {
        auto &op = *cl.op;
        for (auto &m : op.mats) m->restore();
        rt::Sched s0 = cl.sc;
        s0.nthreads = cl.initthreads;
        rt::configure(s0);
        plasma_init();
        plasma_set(PlasmaTuning, PlasmaDisabled);
        for (int i = 1; i < 5; i++) plasma_set((plasma_enum_t)PAR[i], cl.p[i]);
        rt::configure(cl.sc);
        rt::stats_reset();
        note_case_text(hist + " | again in a fresh library: " + op.str());
        op.cfg.nb = cl.p[1]; op.cfg.ib = cl.p[2]; op.cfg.mtpf = cl.p[3]; op.cfg.hh = cl.p[4];
        std::string how = " of " + op.str() + " in the history differs from a fresh library with the same parameters";
        op.call();
        if (op.info != cl.info) c.fail("context.inforce", "return code" + how);
        if (op.isvalue && memcmp(&op.value, &cl.value, sizeof op.value)) c.fail("context.inforce", "value" + how);
        if (rt::stats().tasks != cl.tasks) c.fail("context.inforce", "number of tasks (" + std::to_string(cl.tasks) + " and " + std::to_string(rt::stats().tasks) + ")" + how);
        for (size_t i = 0; i < op.mats.size(); i++) {
            auto b = op.mats[i]->bytes_out();
            if (b.size() > cl.out[i].size()) b.resize(cl.out[i].size());
            if (b != cl.out[i]) c.fail("context.inforce", "output " + op.mats[i]->name + how);
        }
        op.check(c);
        op.cleanup();
        plasma_finalize();
    }
    c.weight = 2 * (long)calls.size() + 1;
    c.nontrivial = routines >= 1 && (tuned || rejected);
    if (tuned) c.label("tuned");
    if (rejected) c.label("rejected calls");
    if (routines) c.label("routines");
}
}
static RegProp rp19({"C19", "the history ran at least one routine and contained a call the protocol rejects or parameters answered by a tuning script", c19, 30000, 400000});

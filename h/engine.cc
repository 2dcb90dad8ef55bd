#include "engine.h"
#include "rt.h"
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

std::map<std::string, Prop> &props() { static std::map<std::string, Prop> m; return m; }

static uint64_t mix(uint64_t z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

enum { NHIST = 2048, HISTCH = 1024 };   // a worker keeps its first and its last NHIST cases
enum { MAXCH = 4096, MSG = 1500, MAXHASH = 200000, MAXLAB = 400, NSAMPLE = 4 };
struct LabelSlot { char name[56]; long n; };
struct Shared {
    volatile int state;            // 0 idle, 1 in case, 2 finished
    volatile long idx;             // case index
    uint32_t nch;
    uint32_t ch[MAXCH];
    int outcome;                   // 0 pass 1 fail
    char key[80], msg[MSG], text[MSG], tags[256];
    long evals, execs, discards, known, nontriv;
    long known_by[16];
    uint32_t nhash;
    uint64_t hash[MAXHASH];
    int nlab;
    LabelSlot lab[MAXLAB];
    int nsamp;
    char samp[NSAMPLE][MSG];
    long covbits, corpus;
    uint8_t cov[1 << 16];
    double started;
    long nhist;                    // cases run so far by this worker process
    struct { uint32_t n; uint32_t ch[HISTCH]; } hist[2 * NHIST];
};
static Shared *g_sh = nullptr;
extern "C" int plasma_finalize(void);

uint64_t Src::next() { rng += 0x9E3779B97F4A7C15ull; return mix(rng); }
uint32_t Src::u(uint32_t n)
{
    if (n == 0) n = 1;
    uint32_t v;
    if (pos < in.size()) v = in[pos] % n;
    else v = fresh ? (uint32_t)(next() % n) : 0;
    pos++;
    rec.push_back(v);
    if (record && g_sh && g_sh->nch < MAXCH) g_sh->ch[g_sh->nch++] = v;
    return v;
}

struct KnownFinding { std::string prop, id, key, replay, desc; };
static std::vector<KnownFinding> g_known;
static bool g_ignore_known = false;
bool known_listed(const std::string &id)
{
    if (g_ignore_known) return false;
    for (auto &k : g_known) if (k.id == id) return true;
    return false;
}
void note_case_text(const std::string &t)
{
    if (g_sh) { strncpy(g_sh->text, t.c_str(), MSG - 1); g_sh->text[MSG - 1] = 0; }
}
static void set_str(char *dst, const std::string &s, size_t n) { strncpy(dst, s.c_str(), n - 1); dst[n - 1] = 0; }
void Ctx::tag(const std::string &t)
{
    tags.push_back(t);
    std::string a;
    for (auto &x : tags) a += x + " ";
    if (g_sh) { strncpy(g_sh->tags, a.c_str(), sizeof g_sh->tags - 1); }
}
static void fatal_cb(const char *key, const char *msg)
{
    g_sh->outcome = 1;
    set_str(g_sh->key, key, sizeof g_sh->key);
    set_str(g_sh->msg, msg, MSG);
    _exit(41);
}
static std::vector<std::string> split_ws(const std::string &s)
{
    std::istringstream is(s);
    std::vector<std::string> v;
    for (std::string x; is >> x;) v.push_back(x);
    return v;
}
static const KnownFinding *known_for(const std::string &prop, const std::string &key, const std::vector<std::string> &tags)
{
    if (g_ignore_known) return nullptr;
    for (auto &k : g_known)
        if (k.prop == prop && std::find(tags.begin(), tags.end(), k.id) != tags.end() && key.compare(0, k.key.size(), k.key) == 0) return &k;
    return nullptr;
}
// runs one case in this process; returns 0 pass, 1 fail (details in g_sh), 2 discard
static int run_case(const Prop &p, Src &src, std::string *descr, std::vector<std::string> *labels, bool *nontriv, long *weight)
{
    rt::reset_all();
    rt::arm_oom(0);
    rt::set_fill(0xFF);
    plasma_finalize();        // a discarded case may have left the library running
    g_sh->nch = 0;
    g_sh->outcome = 0;
    g_sh->text[0] = g_sh->tags[0] = 0;
    Ctx c(src);
    c.prop = p.id;
    int r = 0;
    std::string key, msg;
    try { p.run(c); }
    catch (Fail &f) { r = 1; key = f.key; msg = f.msg; }
    catch (Discard &) { r = 2; }
    catch (std::exception &e) { fprintf(stderr, "harness exception %s\n", e.what()); _exit(46); }
    rt::release_all_guarded();
    std::string d = c.desc.str();
    if (descr) *descr = d;
    if (labels) *labels = c.labels;
    if (nontriv) *nontriv = c.nontrivial;
    if (weight) *weight = c.weight;
    std::string tg;
    for (auto &t : c.tags) tg += t + " ";
    set_str(g_sh->tags, tg, sizeof g_sh->tags);
    if (r == 1) {
        g_sh->outcome = 1;
        set_str(g_sh->key, key, sizeof g_sh->key);
        set_str(g_sh->msg, msg, MSG);
        set_str(g_sh->text, d, MSG);
    }
    return r;
}
static void add_label(const std::string &l, long n = 1)
{
    for (int i = 0; i < g_sh->nlab; i++) if (!strncmp(g_sh->lab[i].name, l.c_str(), 55)) { g_sh->lab[i].n += n; return; }
    if (g_sh->nlab < MAXLAB) { set_str(g_sh->lab[g_sh->nlab].name, l, 56); g_sh->lab[g_sh->nlab++].n = n; }
}
static Shared *new_shared()
{
    void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    memset(p, 0, 4096);
    return (Shared *)p;
}
static void child_setup()
{
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    int fd = open(getenv("VF_STDERR") ? getenv("VF_STDERR") : "/dev/null", O_WRONLY | O_APPEND);
    dup2(fd, 2);
    dup2(fd, 1);
    rt::install_signals();
    rt::fatal_hook = fatal_cb;
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
}

typedef std::vector<std::vector<uint32_t>> History;
struct Failure { std::vector<uint32_t> ch; std::string key, msg, text, tags; long idx; History before; };

static void remember()
{
    long k = g_sh->nhist++;
    long slot = k < NHIST ? k : NHIST + k % NHIST;
    uint32_t n = std::min<uint32_t>(g_sh->nch, HISTCH);
    g_sh->hist[slot].n = n;
    memcpy(g_sh->hist[slot].ch, g_sh->ch, n * sizeof(uint32_t));
}
static History history_of(const Shared *sh)
{
    History h;
    auto add = [&](long slot) { h.emplace_back(sh->hist[slot].ch, sh->hist[slot].ch + sh->hist[slot].n); };
    for (long k = 0; k < std::min<long>(NHIST, sh->nhist); k++) add(k);
    for (long k = std::max<long>(NHIST, sh->nhist - NHIST); k < sh->nhist; k++) add(NHIST + k % NHIST);
    return h;
}

// execute a choice sequence in a forked child, after the cases of a history if one is given. returns outcome 0/1/2
static int probe(const Prop &p, const std::vector<uint32_t> &ch, Failure *out, double tmo, const History *before = nullptr)
{
    Shared *sh = new_shared();
    Shared *saved = g_sh;
    g_sh = sh;
    pid_t pid = fork();
    if (pid == 0) {
        child_setup();
        if (before)
            for (auto &b : *before) {
                Src s;
                s.in = b;
                s.fresh = false;
                run_case(p, s, nullptr, nullptr, nullptr, nullptr);   // only the last case decides
            }
        Src s;
        s.in = ch;
        s.fresh = false;
        std::string d;
        int r = run_case(p, s, &d, nullptr, nullptr, nullptr);
        set_str(g_sh->text, d, MSG);
        _exit(50 + r);
    }
    int st = 0;
    double t0 = now();
    bool killed = false;
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        double el = now() - t0;
        if (el > tmo) { kill(pid, SIGKILL); waitpid(pid, &st, 0); killed = true; break; }
        usleep(el < 0.02 ? 200 : 2000);
    }
    int r;
    if (killed) { r = 1; set_str(sh->key, "hang.wall", 80); set_str(sh->msg, "no answer within the wall-clock limit", MSG); }
    else if (WIFEXITED(st) && WEXITSTATUS(st) >= 50 && WEXITSTATUS(st) <= 52) r = WEXITSTATUS(st) - 50;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 41) r = 1;
    else if (WIFEXITED(st) && (WEXITSTATUS(st) == 45 || WEXITSTATUS(st) == 46)) { fprintf(stderr, "harness error %d\n", WEXITSTATUS(st)); exit(3); }
    else {
        r = 1;
        if (!sh->outcome) {
            set_str(sh->key, "crash", 80);
            set_str(sh->msg, WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "process exited with status " + std::to_string(WEXITSTATUS(st)), MSG);
        }
    }
    if (out) {
        out->ch.assign(sh->ch, sh->ch + sh->nch);
        out->key = sh->key; out->msg = sh->msg; out->text = sh->text; out->tags = sh->tags;
    }
    munmap(sh, sizeof(Shared));
    g_sh = saved;
    return r;
}
static bool smaller(const std::vector<uint32_t> &a, const std::vector<uint32_t> &b)
{
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}
static bool g_noshrink = false;
static Failure shrink(const Prop &p, Failure f, double budget)
{
    double t0 = now();
    std::string key = f.key;
    Failure best = f;
    auto attempt = [&](const std::vector<uint32_t> &c) {
        if (now() - t0 > budget) return false;
        Failure o;
        if (probe(p, c, &o, 30) == 1 && o.key == key) {
            std::vector<uint32_t> t = o.ch;
            while (!t.empty() && t.back() == 0) t.pop_back();
            if (smaller(t, best.ch)) { o.idx = best.idx; o.ch = t; best = o; return true; }
        }
        return false;
    };
    while (!best.ch.empty() && best.ch.back() == 0) best.ch.pop_back();
    bool improved = true;
    while (improved && now() - t0 < budget) {
        improved = false;
        for (size_t len : {8, 4, 2, 1})
            for (size_t i = 0; i + len <= best.ch.size();) {
                if (now() - t0 > budget) break;
                auto c = best.ch;
                c.erase(c.begin() + i, c.begin() + i + len);
                if (attempt(c)) improved = true; else i++;
            }
        for (size_t i = 0; i < best.ch.size(); i++) {
            if (now() - t0 > budget) break;
            if (best.ch[i] == 0) continue;
            auto c = best.ch;
            c[i] = 0;
            if (attempt(c)) { improved = true; continue; }
            uint32_t lo = 0, hi = best.ch[i];
            while (hi - lo > 1 && now() - t0 < budget) {
                if (i >= best.ch.size()) break;
                uint32_t mid = lo + (hi - lo) / 2;
                c = best.ch;
                c[i] = mid;
                if (attempt(c)) { improved = true; hi = mid; } else lo = mid;
            }
        }
    }
    return best;
}

// a case that fails after earlier ones and not alone: find a short history that makes it fail
static bool with_history(const Prop &p, Failure &f, History h, double budget)
{
    double t0 = now();
    auto fails = [&](const History &x) {
        Failure o;
        if (probe(p, f.ch, &o, 120, &x) != 1 || o.key.compare(0, 4, "hang") == 0 || known_for(p.id, o.key, split_ws(o.tags))) return false;
        f.key = o.key; f.msg = o.msg; f.text = o.text; f.tags = o.tags;
        return true;
    };
    History all = h;
    bool found = false;
    for (size_t last : {64, 512, 2 * NHIST}) {
        h.assign(all.size() > last ? all.end() - last : all.begin(), all.end());
        if ((found = fails(h)) || h.size() == all.size()) break;
    }
    if (!found) return false;
    for (size_t len = h.size(); len >= 1; len = len / 2)
        for (size_t i = 0; i < h.size() && now() - t0 < budget;) {
            History x(h.begin(), h.begin() + i);
            if (i + len < h.size()) x.insert(x.end(), h.begin() + i + len, h.end());
            if (fails(x)) h = x; else i += len;
        }
    if (!fails(h)) return false;
    f.before = h;
    return true;
}

static void worker(const Prop &p, uint64_t seed, int w, long from, long cases, double deadline)
{
    child_setup();
    g_sh->nhist = 0;
    std::unordered_set<uint64_t> seen;
    for (uint32_t i = 0; i < g_sh->nhash; i++) seen.insert(g_sh->hash[i]);
    std::vector<std::vector<uint32_t>> corpus;
    for (long i = from; i < cases; i++) {
        if (now() > deadline) { add_label("stopped-at-time-limit"); break; }
        g_sh->idx = i;
        g_sh->state = 1;
        g_sh->started = now();
        Src s;
        s.rng = mix(seed * 1000003 + mix(w * 7919 + 13) + mix((uint64_t)i) * 31) ^ std::hash<std::string>()(p.id);
        if (!corpus.empty() && s.next() % 100 < 30) {
            auto c = corpus[s.next() % corpus.size()];
            int k = 1 + s.next() % 3;
            if (!c.empty()) {
                for (int j = 0; j < k; j++) c[s.next() % c.size()] = (uint32_t)s.next();
                if (s.next() % 4 == 0) c.resize(s.next() % c.size());
            }
            s.in = c;
        }
        memset(rt::cov_map, 0, sizeof rt::cov_map);
        std::string d;
        std::vector<std::string> labs;
        bool nt = false;
        long weight = 1;
        int r = run_case(p, s, &d, &labs, &nt, &weight);
        if (r != 1) remember();
        if (r == 1) {
            const KnownFinding *k = known_for(p.id, g_sh->key, split_ws(g_sh->tags));
            if (k) { g_sh->known++; add_label("known:" + k->id); g_sh->evals++; remember(); continue; }
            _exit(41);
        }
        if (r == 2) { g_sh->discards++; continue; }
        g_sh->evals++;
        g_sh->execs += weight;
        for (auto &l : labs) add_label(l);
        if (nt) {
            uint64_t h = 1469598103934665603ull;
            for (uint32_t k = 0; k < g_sh->nch; k++) h = mix(h ^ g_sh->ch[k]);
            if (seen.insert(h).second && g_sh->nhash < MAXHASH) g_sh->hash[g_sh->nhash++] = h;
            if (g_sh->nsamp < NSAMPLE && (i % 7) == 3) set_str(g_sh->samp[g_sh->nsamp++], d, MSG);
        }
        bool newcov = false;
        for (size_t b = 0; b < sizeof rt::cov_map; b += 8) {
            uint64_t v = *(uint64_t *)(rt::cov_map + b);
            if (!v) continue;
            uint64_t &g = *(uint64_t *)(g_sh->cov + b);
            if (v & ~g) { g |= v; newcov = true; }
        }
        if (newcov && corpus.size() < 2000) { corpus.push_back(std::vector<uint32_t>(g_sh->ch, g_sh->ch + g_sh->nch)); g_sh->corpus++; }
    }
    g_sh->state = 2;
    _exit(0);
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static void write_replay(const std::string &path, const std::string &prop, const Failure &f)
{
    std::ofstream o(path);
    o << "property " << prop << "\nkey " << f.key << "\nmessage " << f.msg << "\ncase " << f.text << "\ntags " << f.tags << "\n";
    for (auto &b : f.before) {
        o << "before";
        for (auto c : b) o << ' ' << c;
        o << "\n";
    }
    o << "choices";
    for (auto c : f.ch) o << ' ' << c;
    o << "\n";
}
static bool read_replay(const std::string &path, std::string *prop, std::vector<uint32_t> *ch, History *before)
{
    std::ifstream i(path);
    if (!i) return false;
    std::string line;
    while (std::getline(i, line)) {
        std::istringstream ls(line);
        std::string k;
        ls >> k;
        if (k == "property") ls >> *prop;
        if (k == "before") { before->emplace_back(); uint32_t v; while (ls >> v) before->back().push_back(v); }
        if (k == "choices") { uint32_t v; while (ls >> v) ch->push_back(v); }
    }
    return true;
}

int main(int argc, char **argv)
{
    std::string prop, replay, evid, replaydir = ".", knownf, tier = "quick";
    uint64_t seed = 1;
    long cases = -1, budget_s = 0;
    int workers = 8;
    bool keep_going = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto v = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") prop = v();
        else if (a == "--seed") seed = std::stoull(v());
        else if (a == "--cases") cases = std::stol(v());
        else if (a == "--workers") workers = std::stoi(v());
        else if (a == "--replay") replay = v();
        else if (a == "--out") evid = v();
        else if (a == "--replaydir") replaydir = v();
        else if (a == "--known") knownf = v();
        else if (a == "--tier") tier = v();
        else if (a == "--budget") budget_s = std::stol(v());
        else if (a == "--keep-going") keep_going = true;
        else if (a == "--noshrink") g_noshrink = true;
        else if (a == "--ignore-known") g_ignore_known = true;
        else if (a == "--list") { for (auto &e : props()) printf("%s\n", e.first.c_str()); return 0; }
    }
    if (!getenv("VF_NOASLR_DONE")) {
        setenv("VF_NOASLR_DONE", "1", 1);
        setenv("OPENBLAS_NUM_THREADS", "1", 1);
        personality(ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    if (!knownf.empty()) {   // lines: property|id|keyprefix|replay|description
        std::ifstream i(knownf);
        std::string line;
        while (std::getline(i, line)) {
            if (line.empty() || line[0] == '#' || line.compare(0, 6, "fixed:") == 0) continue;
            KnownFinding k;
            std::istringstream ls(line);
            std::getline(ls, k.prop, '|'); std::getline(ls, k.id, '|'); std::getline(ls, k.key, '|'); std::getline(ls, k.replay, '|'); std::getline(ls, k.desc);
            g_known.push_back(k);
        }
    }
    if (!replay.empty()) {
        std::vector<uint32_t> ch;
        History before;
        if (!read_replay(replay, &prop, &ch, &before)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 3; }
        if (!props().count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
        Failure o;
        int r = probe(props()[prop], ch, &o, 120, &before);
        printf("%s %s: %s | %s\n", r == 1 ? "FAIL" : r == 0 ? "PASS" : "DISCARD", o.key.c_str(), o.msg.c_str(), o.text.c_str());
        return r == 1 ? 1 : 0;
    }
    if (!props().count(prop)) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 3; }
    const Prop &p = props()[prop];
    if (cases < 0) cases = tier == "thorough" ? p.thorough_cases : p.quick_cases;
    double t0 = now();
    if (!budget_s) budget_s = tier == "thorough" ? 600 : 150;
    double deadline = t0 + budget_s;
    long per = (cases + workers - 1) / workers;

    // listed findings: does each still fail as recorded?
    std::string knownlines;
    for (auto &k : g_known) {
        if (k.prop != prop || k.replay.empty()) continue;
        std::string dir = knownf.substr(0, knownf.find_last_of('/') + 1);
        std::vector<uint32_t> ch;
        std::string pp;
        Failure o;
        History before;
        if (read_replay(dir + k.replay, &pp, &ch, &before)) {
            int r = probe(p, ch, &o, 60, &before);
            if (r == 1 && o.key.compare(0, k.key.size(), k.key) == 0)
                printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), k.id.c_str(), k.desc.c_str());
        }
    }
    fflush(stdout);

    struct W { pid_t pid; Shared *sh; bool done; };
    std::vector<W> ws(workers);
    auto launch = [&](int w, long from) {
        g_sh = ws[w].sh;
        g_sh->state = 0;
        g_sh->started = now();
        pid_t pid = fork();
        if (pid == 0) worker(p, seed, w, from, per, deadline);
        ws[w].pid = pid;
        g_sh = nullptr;
    };
    for (int w = 0; w < workers; w++) { ws[w].sh = new_shared(); ws[w].done = false; }
    for (int w = 0; w < workers; w++) launch(w, 0);
    std::vector<Failure> fails;
    std::map<std::string, int> seenkeys;
    int alive = workers;
    bool stop = false;
    double hist_budget = 120;
    while (alive > 0) {
        bool any = false;
        for (int w = 0; w < workers; w++) {
            if (ws[w].done) continue;
            int st;
            pid_t r = waitpid(ws[w].pid, &st, WNOHANG);
            Shared *sh = ws[w].sh;
            bool killed = false;
            if (r == 0) {
                if (sh->state == 1 && now() - sh->started > 90) { kill(ws[w].pid, SIGKILL); waitpid(ws[w].pid, &st, 0); killed = true; }
                else continue;
            }
            any = true;
            if (!killed && sh->state == 2) { ws[w].done = true; alive--; continue; }
            if (!killed && WIFEXITED(st) && (WEXITSTATUS(st) == 45 || WEXITSTATUS(st) == 46)) { fprintf(stderr, "harness error %d in case %ld\n", WEXITSTATUS(st), (long)sh->idx); return 3; }
            Failure f;
            f.ch.assign(sh->ch, sh->ch + sh->nch);
            f.idx = sh->idx;
            if (sh->outcome) { f.key = sh->key; f.msg = sh->msg; f.text = sh->text; f.tags = sh->tags; }
            else if (killed) { f.key = "hang.wall"; f.msg = "case did not finish in 90 s"; f.text = sh->text; }
            else { f.key = "crash"; f.msg = WIFSIGNALED(st) ? "killed by signal " + std::to_string(WTERMSIG(st)) : "process exited (status " + std::to_string(WEXITSTATUS(st)) + ") inside a call"; f.text = sh->text; }
            // crash inside a known region is only recognised when the tags were published before
            if (known_for(prop, f.key, split_ws(f.tags))) { sh->known++; g_sh = sh; add_label("known-fatal"); g_sh = nullptr; sh->evals++; }
            else if (keep_going) fails.push_back(f);
            else {
                // confirm in fresh processes before reporting
                int rep = 0;
                Failure o;
                for (int k = 0; k < 3; k++) if (probe(p, f.ch, &o, 120) == 1) { rep++; f.key = o.key; f.msg = o.msg; f.text = o.text; f.tags = o.tags; }
                if (!rep) {
                    std::string was = f.key + ": " + f.msg;
                    double tb = now();
                    if (hist_budget > 0 && f.key.compare(0, 4, "hang") != 0 && with_history(p, f, history_of(sh), std::min(hist_budget, 60.0))) { fails.push_back(f); stop = true; }
                    else printf("NOTE: case failed once (%s) and not when repeated in a fresh process; not reported\n", was.c_str());
                    hist_budget -= now() - tb;
                }
                else if (!known_for(prop, f.key, split_ws(f.tags))) { fails.push_back(f); stop = true; }
            }
            sh->outcome = 0;
            if (stop || sh->idx + 1 >= per || (keep_going && seenkeys[f.key]++ > 400)) { ws[w].done = true; alive--; }
            else launch(w, sh->idx + 1);
        }
        if (stop) {
            for (int w = 0; w < workers; w++) if (!ws[w].done) { kill(ws[w].pid, SIGKILL); int st; waitpid(ws[w].pid, &st, 0); ws[w].done = true; alive--; }
        }
        if (!any) usleep(2000);
    }
    // aggregate
    long evals = 0, execs = 0, disc = 0, known = 0, corpus = 0;
    std::unordered_set<uint64_t> hs;
    std::map<std::string, long> labs;
    std::vector<std::string> samples;
    std::vector<uint8_t> cov(1 << 16, 0);
    for (auto &w : ws) {
        evals += w.sh->evals; execs += w.sh->execs; disc += w.sh->discards; known += w.sh->known; corpus += w.sh->corpus;
        for (uint32_t i = 0; i < w.sh->nhash; i++) hs.insert(w.sh->hash[i]);
        for (int i = 0; i < w.sh->nlab; i++) labs[w.sh->lab[i].name] += w.sh->lab[i].n;
        for (int i = 0; i < w.sh->nsamp && samples.size() < 8; i++) samples.push_back(w.sh->samp[i]);
        for (size_t i = 0; i < cov.size(); i++) cov[i] |= w.sh->cov[i];
    }
    long covn = std::count(cov.begin(), cov.end(), 1);
    int nviol = 0;
    if (keep_going) {
        std::map<std::string, std::vector<Failure *>> g;
        for (auto &f : fails) g[f.key].push_back(&f);
        for (auto &e : g) {
            printf("GROUP %s x%zu\n", e.first.c_str(), e.second.size());
            Failure s = shrink(p, *e.second[0], 15);
            printf("   %s | %s\n", s.msg.c_str(), s.text.c_str());
            std::string path = replaydir + "/" + prop + "-" + e.first + ".replay";
            for (auto &c : path) if (c == ' ') c = '_';
            write_replay(path, prop, s);
            printf("   %s\n", path.c_str());
        }
        nviol = (int)g.size();
    }
    else if (!fails.empty()) {
        for (auto &f : fails) {
            Failure s = f.before.empty() ? shrink(p, f, g_noshrink ? 0 : tier == "thorough" ? 120 : 40) : f;
            if (known_for(prop, s.key, split_ws(s.tags))) s = f;
            std::string path = replaydir + "/" + prop + "-" + std::to_string(seed) + ".replay";
            write_replay(path, prop, s);
            printf("  %s: %s\n  case: %s\n", s.key.c_str(), s.msg.c_str(), s.text.c_str());
            if (!s.before.empty()) printf("  after %zu earlier case(s) in the same process\n", s.before.size());
            printf("VIOLATION property=%s replay=%s\n", prop.c_str(), path.c_str());
            nviol++;
            break;
        }
    }
    if (!evid.empty()) {
        std::ofstream o(evid);
        o << "{\n \"property\": " << jstr(prop) << ",\n \"tier\": " << jstr(tier) << ",\n \"seed\": " << seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n"
          << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << hs.size() << ",\n  \"rule\": " << jstr(p.rule)
          << ",\n  \"calls_executed\": " << execs << ",\n  \"discarded\": " << disc << ",\n  \"in_known_finding_regions\": " << known
          << ",\n  \"basic_blocks_reached\": " << covn << ",\n  \"coverage_corpus\": " << corpus << ",\n  \"labels\": {";
        bool first = true;
        for (auto &l : labs) { o << (first ? "" : ", ") << jstr(l.first) << ": " << l.second; first = false; }
        o << "},\n  \"samples\": [";
        first = true;
        for (auto &s : samples) { o << (first ? "\n   " : ",\n   ") << jstr(s); first = false; }
        o << "]\n },\n \"wall_s\": " << (now() - t0) << ",\n \"violations\": " << nviol << "\n}\n";
    }
    if (!nviol) printf("OK property=%s evaluations=%ld nontrivial=%zu blocks=%ld wall=%.1fs\n", prop.c_str(), evals, hs.size(), covn, now() - t0);
    return nviol ? 1 : 0;
}

// C23: the variants of a routine in different precisions do the same thing.
#include "lib.h"
#include <map>
#include <set>

namespace {
const OpInfo *find(const std::string &base, char p)
{
    static std::map<std::string, const OpInfo *> m;
    if (m.empty()) for (auto *o : ops_in("*")) m[o->base + o->prec] = o;
    auto it = m.find(base + p);
    return it == m.end() ? nullptr : it->second;
}
struct Res { int info; double value; std::vector<std::vector<std::complex<double>>> v; };
// output elements, as numbers
Res result(Op &op)
{
    Res r{op.info, op.value, {}};
    for (auto &m : op.mats) {
        r.v.emplace_back();
        for (size_t k = 0; k < m->count(); k++) if (m->acc_(k) & W_) r.v.back().push_back(m->at_(k));
        auto l = op.live.find(m->name);
        if (l != op.live.end()) {
            // recorded as bytes of the array; only whole columns of the leading values are specified
            r.v.back().clear();
        }
    }
    return r;
}
// outputs the factorization determines only up to choices of the algorithm are compared where both variants make the same choices
bool skip_output(const std::string &base, const std::string &name)
{
    if (base == "gesdd") return name != "S";
    if (base == "stevx2") return name != "w" && name != "W";
    if (base[0] == 'm') return name != "X";      // pivots come from the shorter precision inside
    return false;
}
double dist(const std::string &base, Op &op, const Res &a, const Res &b, bool ints)
{
    double worst = 0;
    for (size_t k = 0; k < a.v.size(); k++) {
        bool iv = dynamic_cast<IVec *>(op.mats[k].get()) != nullptr;
        if (iv != ints || skip_output(base, op.mats[k]->name)) continue;
        if (a.v[k].size() != b.v[k].size()) return INFINITY;
        double scale = 0, d = 0;
        for (size_t i = 0; i < a.v[k].size(); i++) {
            auto x = a.v[k][i], y = b.v[k][i];
            if (std::isfinite(std::abs(y))) scale = std::max(scale, std::abs(y));
            if (x == y || (std::isnan(std::abs(x)) && std::isnan(std::abs(y)))) continue;
            double e = std::abs(x - y);
            d = std::max(d, std::isnan(e) ? INFINITY : e);
        }
        if (iv) worst = std::max(worst, d);
        else if (d > 0) worst = std::max(worst, scale > 0 ? d / scale : INFINITY);
    }
    if (!ints && op.isvalue && a.value != b.value && !(std::isnan(a.value) && std::isnan(b.value)))
        worst = std::max(worst, std::fabs(a.value - b.value) / std::max(std::fabs(b.value), 1e-300));
    return worst;
}
std::complex<double> element(const D &d, size_t i)
{
    switch (d.precision) {
    case PlasmaRealFloat: return ((float *)d.matrix)[i];
    case PlasmaRealDouble: return ((double *)d.matrix)[i];
    case PlasmaComplexFloat: return ((std::complex<float> *)d.matrix)[i];
    default: return ((std::complex<double> *)d.matrix)[i];
    }
}
// inputs to multiply by i, and the output that turns with them
struct Rot { std::set<std::string> in; std::string out; };
const std::map<std::string, Rot> &rotations()
{
    static std::map<std::string, Rot> m;
    if (m.empty()) {
        for (auto b : {"gemm", "gbmm", "symm", "hemm", "syrk", "syr2k"}) m[b] = {{"alpha", "C"}, "C"};
        for (auto b : {"trmm", "trsm"}) m[b] = {{"alpha"}, "B"};
        for (auto b : {"geadd", "tradd"}) m[b] = {{"alpha", "beta"}, "B"};
        m["laset"] = {{"alpha", "beta"}, "A"};
        m["lacpy"] = {{"A", "B"}, "B"};
        for (auto b : {"lascl", "geswp"}) m[b] = {{"A"}, "A"};
        for (auto b : {"gesv", "getrs", "posv", "potrs", "gbsv", "gbtrs", "pbsv", "pbtrs", "hesv", "hetrs", "gels", "geqrs", "gelqs"}) m[b] = {{"B"}, "B"};
        for (auto b : {"mgesv", "mposv", "mgbsv"}) m[b] = {{"B"}, "X"};
        for (auto b : {"unmqr", "unmlq"}) m[b] = {{"C"}, "C"};
        for (auto b : {"lange", "lantr", "lansy", "langb", "amax"}) m[b] = {{"A", "AB"}, ""};
    }
    return m;
}
void c23(Ctx &c)
{
    static const char PAIR[4][2] = {{'d', 's'}, {'z', 'c'}, {'z', 'd'}, {'c', 's'}};
    static std::map<int, std::vector<std::pair<const OpInfo *, const OpInfo *>>> cand;   // (reference variant, other variant)
    int pr = (int)c.s.u(4);
    if (cand.empty())
        for (int k = 0; k < 4; k++)
            for (auto *o : ops_in("*")) {
                if (o->prec != PAIR[k][0] || o->family == "mixed") continue;
                std::string b = o->base;
                if (k >= 2) {
                    if (b == "hemm") b = "symm";
                    if (b == "herk") b = "syrk";
                    if (b == "her2k") b = "syr2k";
                    if (b == "lanhe") b = "lansy";
                }
                if (auto *q = find(b, PAIR[k][1])) cand[k].push_back({o, q});
            }
    for (int k = 2; k < 3; k++) if (cand[k].size() && cand[k].back().first->family != "mixed" && find("mgesv", 'd') && find("mgesv", 'z'))
        for (auto b : {"mgesv", "mposv", "mgbsv", "lag2lo", "lag2hi"}) cand[k].push_back({find(b, 'z'), find(b, 'd')});
    auto pick = cand[pr][c.s.u((uint32_t)cand[pr].size())];
    const OpInfo *hi = pick.first, *lo = pick.second;
    auto a = lo->make(), b = hi->make();     // the real or shorter one is generated first
    draw_cfg(c, a->cfg, lo->panel);
    bool ints = (lo->family == "blas3" || (lo->family == "aux" && lo->base != "lascl")) && c.s.u(2);      // exact arithmetic
    a->mode |= (pr >= 2 ? M_REAL : 0) | (ints ? M_INT : 0);
    if (c.s.u(10) == 9 && (" " + lo->flags + " ").find(" sing ") != std::string::npos && (" " + hi->flags + " ").find(" sing ") != std::string::npos) a->mode |= M_SINGULAR;
    b->cfg = a->cfg; b->mode = a->mode;
    size_t at = c.s.rec.size();
    a->gen(c);
    Src s2;
    s2.in.assign(c.s.rec.begin() + at, c.s.rec.end());
    s2.fresh = false; s2.record = false;
    Ctx c2(s2);
    c2.prop = c.prop;
    b->gen(c2);
    for (auto &t : c2.tags) c.tag(t);
    c.desc << b->str() << " against " << a->str();
    note_case_text(c.desc.str());
    // the same problem?
    if (a->mats.size() != b->mats.size() || a->empty != b->empty || a->expect_info != b->expect_info) throw Discard();
    for (auto &x : a->shown) if (x.first == "extreme" && x.second && pr < 2) throw Discard();
    if (a->shown.size() != b->shown.size()) throw Discard();
    for (size_t i = 0; i < a->shown.size(); i++) {
        auto tr = [](long v) { return v >= PlasmaNoTrans && v <= PlasmaConjTrans; };
        bool flag = tr(a->shown[i].second) && tr(b->shown[i].second) && a->shown[i].second != PlasmaNoTrans && b->shown[i].second != PlasmaNoTrans;      // Trans and ConjTrans agree on real data
        if (a->shown[i].first != b->shown[i].first || (a->shown[i].second != b->shown[i].second && !flag)) throw Discard();
    }
    for (size_t k = 0; k < a->mats.size(); k++) {
        auto &x = *a->mats[k], &y = *b->mats[k];
        if (x.count() != y.count() || x.name != y.name) throw Discard();
        for (size_t i = 0; i < x.count(); i++) {
            if ((x.acc_(i) & R_) != (y.acc_(i) & R_)) throw Discard();
            if (!(x.acc_(i) & R_)) continue;
            auto u = x.at_(i), v = y.at_(i);
            if (std::abs(u - v) > 1e-5 * std::abs(u)) { if (!(std::isnan(std::abs(u)) && std::isnan(std::abs(v)))) throw Discard(); }   // generated differently
            else y.set_(i, u);
        }
        x.snapshot();
    }
    // reflectors that are a matter of rounding (the phase of a zero that came out as noise) may show in T only
    if (D *ta = a->factors(), *tb = b->factors(); ta && tb)
        for (size_t i = 0, e = (size_t)std::min(ta->gm, tb->gm) * std::min(ta->gn, tb->gn); i < e; i++) {
            auto u = element(*ta, i), v = element(*tb, i);
            if (std::abs(u) < 8 && std::abs(v) < 8 && std::abs(u - v) > 1e-3) throw Discard();
        }
    // Half of the complex against real comparisons are made on data turned by the imaginary unit: what a linear
    // operation computes turns with its operand, and norms do not notice.
    const Rot *rot = nullptr;
    if (pr >= 2 && c.s.u(2)) {
        auto it = rotations().find(hi->base);
        if (it != rotations().end()) rot = &it->second;
        // a unit diagonal does not turn with the matrix
        if (rot) for (auto &x : b->shown) if ((b->isvalue && x.second == PlasmaUnit) || (hi->base == "lacpy" && x.second == PlasmaConjTrans)) rot = nullptr;
    }
    if (rot) {
        for (auto &m : b->mats) if (rot->in.count(m->name)) for (size_t i = 0; i < m->count(); i++) if (m->acc_(i) & R_) { auto v = m->at_(i); m->set_(i, {-v.imag(), v.real()}); }
        for (auto &x : b->scalars) if (rot->in.count(x.first)) x.second();
        if (b->empty) throw Discard();
        c.label("turned by i");
        c.desc << " with data turned by i";
        note_case_text(c.desc.str());
    }
    for (auto &m : b->mats) m->snapshot();
    c.weight = 2;
    begin_plasma(a->cfg);
    execute(c, *a);
    Res ra = result(*a);
    a->footprint(c);
    long ta = rt::stats().tasks;
    a->cleanup();
    end_plasma();
    begin_plasma(b->cfg);
    execute(c, *b);
    Res rb = result(*b);
    b->footprint(c);
    long tb = rt::stats().tasks;
    b->cleanup();
    end_plasma();
    if ((ra.info > 0 && !a->expect_info && a->accidental()) || (rb.info > 0 && !b->expect_info && b->accidental())) throw Discard();
    std::string nm = b->name + "." + a->name;
    if (!a->isvalue && ra.info != rb.info) c.fail(nm + ".info", a->name + " returns " + std::to_string(ra.info) + ", " + b->name + " returns " + std::to_string(rb.info));
    if (rot)
        for (size_t k = 0; k < ra.v.size() && k < b->mats.size(); k++)
            if (rot->out == b->mats[k]->name) for (auto &v : ra.v[k]) v = {-v.imag(), v.real()};
    if (pr >= 2 && !rot)
        for (size_t k = 0; k < rb.v.size(); k++)
            for (auto &v : rb.v[k]) if (v.imag() != 0 && !std::isnan(v.imag()) && rb.info == 0) c.fail(nm + ".imag", b->name + " on real data gives imaginary part " + std::to_string(v.imag()) + " in " + b->mats[k]->name);
    c.nontrivial = !a->empty && (ta >= 4 || tb >= 4);
    c.label(std::string(1, PAIR[pr][0]) + "/" + PAIR[pr][1]);
    c.label(hi->base);
    if (ra.info != 0 || a->empty) return;
    double eps = PAIR[pr][1] == 's' || PAIR[pr][1] == 'c' ? 6e-8 : 1.2e-16;
    bool exact = ints;
    double d = dist(lo->base, *b, ra, rb, false), di = dist(lo->base, *b, ra, rb, true);
    int dim = 1;
    for (auto &m : b->mats) dim = std::max(dim, std::max(m->m, m->n));
    double tol = exact ? 0 : 30 * eps * (dim + 8);
    if (d <= tol && di == 0) return;
    if (exact) c.fail(nm + ".differs", "results of exact arithmetic differ");
    // is this how much the result moves when the data moves by rounding errors of the shorter precision?
    double md = 0, mi = 0;
    for (int t = 0; t < 8; t++) {
        Op &o = t % 2 ? *a : *b;
        const Res &r0 = t % 2 ? ra : rb;
        uint64_t h = 88172645463325252ull + 977 * t;
        double e = 16 * std::max(eps, 2e-15);
        for (auto &m : o.mats) {
            m->restore();
            if (dynamic_cast<IVec *>(m.get())) continue;
            double big = 0;
            for (size_t i = 0; i < m->count(); i++) if ((m->acc_(i) & R_) && std::isfinite(std::abs(m->at_(i)))) big = std::max(big, std::abs(m->at_(i)));
            for (size_t i = 0; i < m->count(); i++) {
                if (!(m->acc_(i) & R_)) continue;
                auto rnd = [&]() { h ^= h << 13; h ^= h >> 7; h ^= h << 17; return (double)(h % 2001) / 1000 - 1; };
                m->set_(i, m->at_(i) * (1 + e * rnd()) + (t >= 4 ? e * big * rnd() : 0));
            }
        }
        begin_plasma(o.cfg);
        note_case_text(c.desc.str() + " (perturbed)");
        execute(c, o);
        Res rp = result(o);
        o.cleanup();
        end_plasma();
        if (rp.info != 0) throw Discard();
        md = std::max(md, dist(lo->base, o, rp, r0, false));
        mi = std::max(mi, dist(lo->base, o, rp, r0, true));
    }
    if (mi != 0) throw Discard();           // pivots are a matter of rounding here
    std::string first;
    for (size_t k = 0; k < ra.v.size() && first.empty(); k++)
        for (size_t i = 0, e = 0; i < b->mats[k]->count() && first.empty(); i++) {
            if (!(b->mats[k]->acc_(i) & W_)) continue;
            if (e >= ra.v[k].size()) break;
            auto x = ra.v[k][e], y = rb.v[k][e];
            e++;
            if (std::abs(x - y) > 1e-2 * std::abs(y)) { char t[160]; snprintf(t, sizeof t, " (%s element %zu: %g%+gi and %g%+gi)", b->mats[k]->name.c_str(), i, x.real(), x.imag(), y.real(), y.imag()); first = t; }
        }
    char buf[200];
    snprintf(buf, sizeof buf, "outputs differ by %.3g relative to the largest, rounding errors explain %.3g", d, std::max(md, tol));
    if (di != 0) c.fail(nm + ".pivots", "different pivots");
    if (!(d <= 20 * (dim + 8) * md + tol)) c.fail(nm + ".differs", buf + first);
    c.label("ill-conditioned");
}
}
static RegProp rp23({"C23", "both variants ran the same non-empty problem with at least four tasks", c23, 40000, 500000});

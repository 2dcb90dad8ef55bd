// Cases, arrays, reference arithmetic and the operation registry.
#pragma once
#include "engine.h"
#include "pl.h"
#include "rt.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <memory>
#include <set>

typedef long double LD;
template<class T> struct XT_ { typedef LD type; };
template<class R> struct XT_<std::complex<R>> { typedef std::complex<LD> type; };
template<class T> using XT = typename XT_<T>::type;

inline float conj_(float x) { return x; }
inline double conj_(double x) { return x; }
inline LD conj_(LD x) { return x; }
template<class R> inline std::complex<R> conj_(std::complex<R> x) { return std::conj(x); }
inline LD re_(LD x) { return x; }
template<class R> inline R re_(std::complex<R> x) { return x.real(); }
inline LD im_(LD) { return 0; }
inline float im_(float) { return 0; }
inline double im_(double) { return 0; }
template<class R> inline R im_(std::complex<R> x) { return x.imag(); }
inline LD abs_(LD x) { return std::fabs(x); }
inline LD abs_(float x) { return std::fabs((LD)x); }
inline LD abs_(double x) { return std::fabs((LD)x); }
template<class R> inline LD abs_(std::complex<R> x) { return std::hypot((LD)x.real(), (LD)x.imag()); }
inline LD abs1_(LD x) { return std::fabs(x); }
template<class R> inline LD abs1_(std::complex<R> x) { return std::fabs((LD)x.real()) + std::fabs((LD)x.imag()); }
inline LD tox(float x) { return x; }
inline LD tox(double x) { return x; }
inline LD tox(LD x) { return x; }
template<class R> inline std::complex<LD> tox(std::complex<R> x) { return {x.real(), x.imag()}; }
template<class T> inline T mk(double re, double im) { if constexpr (is_cplx<T>) return T((RT<T>)re, (RT<T>)im); else return (T)re; }
template<class T> constexpr LD ulp() { return std::is_same<RT<T>, float>::value ? (LD)5.9604644775390625e-08L : (LD)1.1102230246251565e-16L; }
template<class T> inline bool isnan_(T x) { return std::isnan((double)re_(tox(x))) || std::isnan((double)im_(tox(x))); }
template<class T> inline bool isfinite_(T x) { return std::isfinite((double)re_(tox(x))) && std::isfinite((double)im_(tox(x))); }

// ---------------------------------------------------------------- reference dense matrices
template<class X> struct DM {
    int m = 0, n = 0;
    std::vector<X> a;
    DM() {}
    DM(int m_, int n_) : m(m_), n(n_), a((size_t)m_ * n_, X(0)) {}
    X &operator()(int i, int j) { return a[(size_t)i + (size_t)j * m]; }
    const X &operator()(int i, int j) const { return a[(size_t)i + (size_t)j * m]; }
};
template<class X> DM<X> mul(const DM<X> &A, const DM<X> &B)
{
    DM<X> C(A.m, B.n);
    for (int j = 0; j < B.n; j++)
        for (int l = 0; l < A.n; l++) {
            X b = B(l, j);
            if (b == X(0)) continue;
            for (int i = 0; i < A.m; i++) C(i, j) += A(i, l) * b;
        }
    return C;
}
template<class X> DM<X> opx(const DM<X> &A, int tr)
{
    if (tr == PlasmaNoTrans) return A;
    DM<X> B(A.n, A.m);
    for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) B(j, i) = tr == PlasmaConjTrans ? conj_(A(i, j)) : A(i, j);
    return B;
}
template<class X> DM<LD> absm(const DM<X> &A)
{
    DM<LD> B(A.m, A.n);
    for (size_t i = 0; i < A.a.size(); i++) B.a[i] = abs_(A.a[i]);
    return B;
}
template<class X> DM<X> add(const DM<X> &A, const DM<X> &B, X s = X(1)) { DM<X> C = A; for (size_t i = 0; i < C.a.size(); i++) C.a[i] += s * B.a[i]; return C; }
template<class X> DM<X> scale(const DM<X> &A, X s) { DM<X> C = A; for (auto &x : C.a) x *= s; return C; }
template<class X> DM<X> eye(int n) { DM<X> C(n, n); for (int i = 0; i < n; i++) C(i, i) = 1; return C; }
template<class X> LD fro(const DM<X> &A) { LD s = 0; for (auto &x : A.a) { LD v = abs_(x); s += v * v; } return std::sqrt(s); }
template<class X> LD one(const DM<X> &A) { LD b = 0; for (int j = 0; j < A.n; j++) { LD s = 0; for (int i = 0; i < A.m; i++) s += abs_(A(i, j)); b = std::max(b, s); } return b; }
template<class X> LD maxabs(const DM<X> &A) { LD b = 0; for (auto &x : A.a) { LD v = abs_(x); if (!(v <= b)) b = v; } return b; }
template<class X> bool finite(const DM<X> &A) { for (auto &x : A.a) if (!std::isfinite((double)re_(x)) || !std::isfinite((double)im_(x))) return false; return true; }
template<class X> DM<X> sub(const DM<X> &A, int i0, int j0, int m, int n) { DM<X> B(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) B(i, j) = A(i0 + i, j0 + j); return B; }
// triangle of A (trapezoid), unit diagonal optional
template<class X> DM<X> tri(const DM<X> &A, int uplo, int diag)
{
    DM<X> B(A.m, A.n);
    for (int j = 0; j < A.n; j++)
        for (int i = 0; i < A.m; i++)
            if (i == j) B(i, j) = diag == PlasmaUnit ? X(1) : A(i, j);
            else if ((uplo == PlasmaUpper) == (i < j) || uplo == PlasmaGeneral) B(i, j) = A(i, j);
    return B;
}
// full symmetric (herm=false) or Hermitian matrix from its triangle
template<class X> DM<X> symfull(const DM<X> &A, int uplo, bool herm)
{
    DM<X> B(A.n, A.n);
    for (int j = 0; j < A.n; j++)
        for (int i = 0; i < A.n; i++) {
            bool stored = uplo == PlasmaLower ? i >= j : i <= j;
            X v = stored ? A(i, j) : A(j, i);
            if (!stored && herm) v = conj_(v);
            if (i == j && herm) v = X(re_(v));
            B(i, j) = v;
        }
    return B;
}
// inverse / solve in extended precision with partial pivoting; returns false when singular
template<class X> bool solvex(DM<X> A, DM<X> B, DM<X> &S)
{
    int n = A.n;
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++) if (abs_(A(i, k)) > abs_(A(p, k))) p = i;
        if (abs_(A(p, k)) == 0) return false;
        if (p != k) { for (int j = 0; j < n; j++) std::swap(A(p, j), A(k, j)); for (int j = 0; j < B.n; j++) std::swap(B(p, j), B(k, j)); }
        for (int i = k + 1; i < n; i++) {
            X f = A(i, k) / A(k, k);
            if (f == X(0)) continue;
            for (int j = k + 1; j < n; j++) A(i, j) -= f * A(k, j);
            for (int j = 0; j < B.n; j++) B(i, j) -= f * B(k, j);
        }
    }
    for (int j = 0; j < B.n; j++)
        for (int k = n - 1; k >= 0; k--) {
            X s = B(k, j);
            for (int l = k + 1; l < n; l++) s -= A(k, l) * B(l, j);
            B(k, j) = s / A(k, k);
        }
    S = B;
    return true;
}

// ---------------------------------------------------------------- caller arrays
void *far_map(size_t bytes);
void far_unmap(void *p, size_t bytes);
struct MatBase {
    std::string name;
    int m, n, ld;
    virtual ~MatBase() {}
    virtual void snapshot() = 0;
    virtual void restore() = 0;                                  // back to the snapshot
    virtual bool outside_ok(std::string *why) = 0;               // elements not writable keep their bits
    virtual bool all_ok(std::string *why) = 0;                   // every element keeps its bits
    virtual std::vector<uint8_t> bytes_out() = 0;                // bits of the writable elements
    virtual void values_out(std::vector<double> &re, std::vector<double> &im) = 0;
    virtual bool has_out() = 0;
    virtual std::complex<double> at_(size_t k) = 0;              // element k of the storage, as numbers
    virtual void set_(size_t k, std::complex<double> v) = 0;
    virtual int acc_(size_t k) = 0;
    virtual size_t count() = 0;
    virtual void poison(int variant) = 0;                        // rewrite elements that are neither read nor written
    virtual bool go_far(int) { return false; }                         // move the columns to a sparse array with a huge leading dimension
    virtual bool come_back(std::string *) { return true; }
};
enum { R_ = 1, W_ = 2 };
template<class T> struct Mat : MatBase {
    T *p = nullptr;
    std::vector<T> orig;
    std::vector<uint8_t> acc;        // per element R_|W_
    Mat(const std::string &nm, int m_, int n_, int ld_)
    {
        name = nm; m = m_; n = n_; ld = ld_;
        size_t cnt = (size_t)ld * n;
        p = (T *)rt::guarded(std::max<size_t>(cnt, 1) * sizeof(T));
        acc.assign(cnt, 0);
    }
    T *near = nullptr;
    size_t farlen = 0;
    int farld = 0;
    bool go_far(int newld) override
    {
        farlen = (size_t)newld * n * sizeof(T);
        if (!farlen) return false;
        void *q = far_map(farlen);
        if (!q) return false;
        near = p; p = (T *)q; farld = newld;
        for (int j = 0; j < n; j++) memcpy((void *)(p + (size_t)j * newld), (void *)(near + (size_t)j * ld), (size_t)ld * sizeof(T));
        return true;
    }
    bool come_back(std::string *why) override
    {
        bool ok = true;
        for (int j = 0; j < n; j++) {
            T *x = p + (size_t)j * farld, zero[4];
            memcpy((void *)(near + (size_t)j * ld), (void *)x, (size_t)ld * sizeof(T));
            memset((void *)zero, 0, sizeof zero);
            if (memcmp((void *)(x + ld), (void *)zero, sizeof zero)) { ok = false; if (why) *why = name + " column " + std::to_string(j) + " was written beyond its rows"; }
        }
        far_unmap(p, farlen);
        p = near; near = nullptr;
        return ok;
    }
    ~Mat() { if (near) far_unmap(p, farlen); }
    T &operator()(int i, int j) { return p[(size_t)i + (size_t)j * ld]; }
    uint8_t &at(int i, int j) { return acc[(size_t)i + (size_t)j * ld]; }
    T &o(int i, int j) { return orig[(size_t)i + (size_t)j * ld]; }
    template<class F> void access(F f, int a) { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (f(i, j)) at(i, j) |= a; }
    void access_all(int a) { access([](int, int) { return true; }, a); }
    void access_uplo(int uplo, int diag, int a)
    {
        access([&](int i, int j) { if (i == j) return diag != PlasmaUnit; return uplo == PlasmaGeneral || (uplo == PlasmaUpper) == (i < j); }, a);
    }
    void put(uint8_t pat, int i, int j) { memset((void *)&p[(size_t)i + (size_t)j * ld], pat, sizeof(T)); }
    void poison(int variant) override
    {
        for (int j = 0; j < n; j++)
            for (int i = 0; i < ld; i++)
                if (!(acc[(size_t)i + (size_t)j * ld] & R_)) {
                    size_t k = (size_t)i + (size_t)j * ld;
                    if (variant == 0) memset((void *)&p[k], 0xFF, sizeof(T));
                    else { double v = (double)((k * 2654435761u) % 1000) / 7.0 * (variant == 2 ? (sizeof(RT<T>) == 4 ? 1e20 : 1e200) : 1); p[k] = mk<T>(v - 50, 3 * v); }
                }
    }
    void snapshot() override { orig.assign(p, p + (size_t)ld * n); }
    void restore() override { if (!orig.empty()) memcpy((void *)p, orig.data(), orig.size() * sizeof(T)); }
    bool cmp(int mode, std::string *why)
    {
        for (int j = 0; j < n; j++)
            for (int i = 0; i < ld; i++) {
                size_t k = (size_t)i + (size_t)j * ld;
                if (mode == 0 && (acc[k] & W_)) continue;
                if (memcmp(&p[k], &orig[k], sizeof(T))) {
                    if (why) *why = name + "(" + std::to_string(i) + "," + std::to_string(j) + ")" + (i >= m ? " in the padding rows" : "") + " changed";
                    return false;
                }
            }
        return true;
    }
    bool outside_ok(std::string *why) override { return cmp(0, why); }
    bool all_ok(std::string *why) override { return cmp(1, why); }
    bool has_out() override { for (auto a : acc) if (a & W_) return true; return false; }
    std::complex<double> at_(size_t k) override { auto x = tox(p[k]); return {(double)re_(x), (double)im_(x)}; }
    void set_(size_t k, std::complex<double> v) override { p[k] = mk<T>(v.real(), v.imag()); }
    int acc_(size_t k) override { return acc[k]; }
    size_t count() override { return acc.size(); }
    std::vector<uint8_t> bytes_out() override
    {
        std::vector<uint8_t> v;
        for (size_t k = 0; k < acc.size(); k++) if (acc[k] & W_) v.insert(v.end(), (uint8_t *)&p[k], (uint8_t *)&p[k] + sizeof(T));
        return v;
    }
    void values_out(std::vector<double> &re, std::vector<double> &im) override
    {
        for (size_t k = 0; k < acc.size(); k++) if (acc[k] & W_) { auto x = tox(p[k]); re.push_back((double)re_(x)); im.push_back((double)im_(x)); }
    }
    DM<XT<T>> x() { DM<XT<T>> d(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) d(i, j) = tox((*this)(i, j)); return d; }
    DM<XT<T>> xo() { DM<XT<T>> d(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) d(i, j) = tox(o(i, j)); return d; }
};
// integer vector argument (pivots)
struct IVec : MatBase {
    int *p;
    std::vector<int> orig;
    bool out;
    IVec(const std::string &nm, int cnt, bool out_) { name = nm; m = ld = cnt; n = 1; out = out_; p = (int *)rt::guarded(std::max(cnt, 1) * sizeof(int)); }
    void snapshot() override { orig.assign(p, p + m); }
    void restore() override { std::copy(orig.begin(), orig.end(), p); }
    bool outside_ok(std::string *why) override { return out || all_ok(why); }
    bool all_ok(std::string *why) override { for (int i = 0; i < m; i++) if (p[i] != orig[i]) { if (why) *why = name + "[" + std::to_string(i) + "] changed"; return false; } return true; }
    std::vector<uint8_t> bytes_out() override { std::vector<uint8_t> v; if (out) v.assign((uint8_t *)p, (uint8_t *)(p + m)); return v; }
    void values_out(std::vector<double> &re, std::vector<double> &im) override { if (out) for (int i = 0; i < m; i++) { re.push_back(p[i]); im.push_back(0); } }
    bool has_out() override { return out; }
    std::complex<double> at_(size_t k) override { return p[k]; }
    void set_(size_t k, std::complex<double> v) override { p[k] = (int)v.real(); }
    int acc_(size_t) override { return out ? W_ : R_; }
    size_t count() override { return m; }
    void poison(int) override { if (out) memset(p, 0xEE, m * sizeof(int)); }
};

// ---------------------------------------------------------------- configuration
struct Cfg {
    int nb = 4, ib = 2, mtpf = 1, hh = PlasmaFlatHouseholder, tuning = PlasmaDisabled;
    rt::Sched sc;
    int cap = 12;            // largest dimension worth generating
    bool square = false;     // dimensions multiples of nb (race monitor)
    std::string str() const;
};
void draw_cfg(Ctx &c, Cfg &g, bool panel);           // random configuration
void async_chain_races(Ctx &c);                         // a chain of asynchronous calls under the race monitor (prop_async.cc)
void draw_sched(Ctx &c, rt::Sched &s, bool wild);
void begin_plasma(const Cfg &g);                      // init + set; (re)configures the scheduler
void end_plasma();
int draw_dim(Ctx &c, const Cfg &g, int lo, int cap = 0);
int draw_ld(Ctx &c, int rows);

// ---------------------------------------------------------------- data
uint64_t hash2(uint64_t a, uint64_t b);
struct DG {
    uint64_t seed = 1;
    int kind = 0;          // 0 small integers, 1 uniform, 2 wide magnitudes
    bool realonly = false;
    double u(uint64_t tag, int i, int j, int part) const;      // one component
    template<class T> T v(uint64_t tag, int i, int j) const { return mk<T>(u(tag, i, j, 0), realonly || !is_cplx<T> ? 0.0 : u(tag, i, j, 1)); }
};

// ---------------------------------------------------------------- operations
struct ArgSpec { int pos; std::string name; int *v; std::vector<int> bad; };
enum { M_PLAIN = 0, M_SINGULAR = 1, M_INT = 2, M_REAL = 4, M_NONEMPTY = 8, M_EMPTY = 16, M_SQUARE_TILES = 32, M_WELL = 64, M_SMALL = 128, M_HARD = 256 };
struct Op {
    std::string name;      // with precision letter
    Cfg cfg;
    int mode = 0;
    DG dg;
    std::vector<std::unique_ptr<MatBase>> mats;
    std::vector<ArgSpec> args;
    std::vector<std::pair<std::string, long>> shown;
    int info = -999;
    double value = 0;
    bool isvalue = false;       // returns a norm
    bool empty = false;         // quick return expected
    bool exact = false;         // result must be exact (integer data)
    int expect_info = 0;        // expected return code in singular mode
    std::map<std::string, size_t> live; // outputs of which only the first bytes are specified by the result of the call
    std::set<int> alt_info;     // further return codes the documentation allows
    std::vector<std::pair<std::string, std::function<void()>>> scalars;      // name and multiplication by the imaginary unit
    bool owns_desc = false;     // call hands a descriptor to the caller
    bool unique_out = true;     // outputs determined by the inputs up to rounding
    double cmp_scale = 1;       // extra tolerance factor for cross-configuration comparison
    virtual ~Op() {}
    virtual void gen(Ctx &c) = 0;
    virtual void call() = 0;
    virtual void check(Ctx &c) = 0;      // throws Fail
    virtual bool accidental() { return false; }   // unexpected positive info: the random input happens to be singular
    virtual void cleanup() {}            // release what the call handed out
    virtual D *handed() { return nullptr; }      // descriptor through which the call hands memory to the caller
    virtual D *factors() { return nullptr; }     // auxiliary factorization data prepared for the call
    virtual void forget() {}                     // drop the handle without releasing
    // helpers
    template<class T> Mat<T> &mat(const std::string &nm, int m, int n, int ld) { auto *x = new Mat<T>(nm, m, n, ld); mats.emplace_back(x); return *x; }
    IVec &ivec(const std::string &nm, int cnt, bool out) { auto *x = new IVec(nm, cnt, out); mats.emplace_back(x); return *x; }
    template<class T> void scalar(const char *nm, T &v) { scalars.push_back({nm, [&v]() { auto x = tox(v); v = mk<T>(-(double)im_(x), (double)re_(x)); }}); }
    void show(const std::string &k, long v) { shown.push_back({k, v}); }
    bool faulted = false;      // an allocation failed during the call: shortcuts promised for normal operation need not be taken
    int a_dim(Ctx &c, int pos, const char *nm, int &v, int lo = 0, int cap = 0)
    {
        v = draw_dim(c, cfg, (mode & M_NONEMPTY) ? std::max(lo, 1) : lo, cap);
        if ((mode & M_EMPTY) && lo == 0 && c.s.u(2) == 0) v = 0;
        args.push_back({pos, nm, &v, {-1, -7}});
        show(nm, v);
        return v;
    }
    template<class V> void a_enum(Ctx &c, int pos, const char *nm, int &v, const V &vals, std::vector<int> bad = {0, 999, 110, 190})
    {
        v = *(vals.begin() + c.s.u((uint32_t)vals.size()));
        args.push_back({pos, nm, &v, bad});
        show(nm, v);
    }
    void a_ld(int pos, const char *nm, int &v, int rows)
    {
        std::vector<int> bad{-1};
        if (rows >= 1) bad.push_back(rows - 1);
        bad.push_back(0);
        args.push_back({pos, nm, &v, bad});
        show(nm, v);
    }
    void draw_data(Ctx &c)
    {
        dg.seed = c.s.u(65536) + 1;
        dg.kind = (mode & M_INT) ? 0 : (int)c.s.u(3);
        if (mode & M_REAL) dg.realonly = true;
        if (mode & M_INT) exact = true;
        if (dg.kind == 0 && !(mode & M_WELL)) exact = true;
        show("data", dg.kind);
        show("seed", (long)dg.seed);
    }
    void finish_gen() { for (auto &m : mats) { m->poison(0); m->snapshot(); } }
    std::string str() const
    {
        std::string s = name + "(";
        for (size_t i = 0; i < shown.size(); i++) s += (i ? " " : "") + shown[i].first + "=" + std::to_string(shown[i].second);
        return s + ") " + cfg.str();
    }
    void footprint(Ctx &c)
    {
        std::string w;
        for (auto &m : mats) if (!m->outside_ok(&w)) c.fail(name + ".footprint", w);
        if (!rt::check_canaries(&w)) c.fail(name + ".footprint", w);
    }
    void bad(Ctx &c, const std::string &what, const std::string &msg) { c.fail(name + "." + what, msg); }
};
struct OpInfo { std::string base, family; char prec; bool panel; std::function<std::unique_ptr<Op>()> make; std::string flags; };
std::vector<OpInfo> &ops();
struct RegOp { RegOp(OpInfo o) { ops().push_back(o); } };
#if defined(PREC)
#if PREC == 1
typedef float T0;
static const char PC = 's';
#elif PREC == 2
typedef double T0;
static const char PC = 'd';
#elif PREC == 3
typedef std::complex<float> T0;
static const char PC = 'c';
#else
typedef std::complex<double> T0;
static const char PC = 'z';
#endif
typedef XT<T0> X0;
typedef RT<T0> R0;
#define REG_OP(CLS, BASE, FAMILY, PANEL, FLAGS) \
    static RegOp reg_##CLS({BASE, FAMILY, PC, PANEL, []() { auto o = std::make_unique<CLS>(); o->name = std::string(1, PC) + BASE; return std::unique_ptr<Op>(std::move(o)); }, FLAGS});
#endif
const std::vector<const OpInfo *> &ops_in(const std::string &family, char prec = 0);

// compare a computed region with the reference within fac * ulp * mag
template<class T, class F> void cmp_region(Ctx &c, Op &op, const char *what, Mat<T> &M, F in, const DM<XT<T>> &ref, const DM<LD> &mag, LD fac)
{
    for (int j = 0; j < M.n; j++)
        for (int i = 0; i < M.m; i++) {
            if (!in(i, j)) continue;
            LD e = abs_(tox(M(i, j)) - ref(i, j));
            LD b = op.exact ? (LD)0 : fac * ulp<T>() * mag(i, j) + 8 * (LD)std::numeric_limits<RT<T>>::min();
            if (!(e <= b)) {
                char buf[300];
                snprintf(buf, sizeof buf, "%s(%d,%d) = (%.9g,%.9g), expected (%.9Lg,%.9Lg), error %.3Lg, bound %.3Lg", M.name.c_str(), i, j,
                         (double)re_(tox(M(i, j))), (double)im_(tox(M(i, j))), re_(ref(i, j)), im_(ref(i, j)), e, b);
                op.bad(c, what, buf);
            }
        }
}
// run the operation inside a prepared context; returns after the call
void execute(Ctx &c, Op &op);
void execute_far(Ctx &c, Op &op);
// scalars: 0, 1, -1 and general values; small integers when the data is integer
template<class T> inline T draw_scalar(Ctx &c, const Op &op, const char *nm, Op &o, bool real = false)
{
    int k = (int)c.s.u(6);
    double re = 0, im = 0;
    switch (k) {
    case 0: re = 1; break;
    case 1: re = 0; break;
    case 2: re = -1; break;
    default: {
        uint32_t a = c.s.u(7), b = c.s.u(7);
        re = (int)a - 3; im = (int)b - 3;
        if (op.dg.kind != 0) { re = re * 0.375 + 0.25; im = im * 0.625 - 0.125; }
    } }
    if (real || !is_cplx<T> || (op.mode & M_REAL)) im = 0;
    o.shown.push_back({std::string(nm) + (im != 0 ? "(c)*1000" : "*1000"), (long)(re * 1000)});
    return mk<T>(re, im);
}
// overall residual check helper
inline void need(Ctx &c, Op &op, const char *what, LD err, LD bound)
{
    if (!(err <= bound)) {
        char buf[160];
        snprintf(buf, sizeof buf, "error %.4Lg exceeds bound %.4Lg", err, bound);
        op.bad(c, what, buf);
    }
}

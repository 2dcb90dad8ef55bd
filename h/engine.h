// Choice-sequence property-based testing engine.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

struct Fail { std::string key, msg; };
struct Discard { };

// Everything a case does is a function of the choices it draws.
struct Src {
    std::vector<uint32_t> in;   // prescribed choices (prefix)
    size_t pos = 0;
    bool fresh = true;          // draw randomly after the prefix (else 0)
    uint64_t rng = 1;
    bool record = true;         // part of the case (false: choices repeated for a second object)
    std::vector<uint32_t> rec;  // values drawn
    uint64_t next();
    uint32_t u(uint32_t n);     // [0,n), 0 simplest
    int range(int a, int b) { return a + (int)u((uint32_t)(b - a + 1)); }
    bool chance(int pct) { return u(100) >= (uint32_t)(100 - pct); }
    template<class C> auto pick(const C &c) -> typename C::value_type { return *(c.begin() + u((uint32_t)c.size())); }
    template<class V> V pick(std::initializer_list<V> c) { return *(c.begin() + u((uint32_t)c.size())); }
};

struct Ctx {
    Src &s;
    std::string prop;
    std::ostringstream desc;              // human readable case
    std::vector<std::string> labels;
    std::vector<std::string> tags;        // known-finding regions this case lies in
    bool nontrivial = false;
    long weight = 1;                      // executions of the code under test in this case
    explicit Ctx(Src &src) : s(src) {}
    void label(const std::string &l) { labels.push_back(l); }
    void tag(const std::string &t);      // published at once, so that a crash is attributed too
    [[noreturn]] void fail(const std::string &key, const std::string &msg) { throw Fail{key, msg}; }
};

struct Prop {
    std::string id;
    std::string rule;
    std::function<void(Ctx &)> run;
    long quick_cases, thorough_cases;
    bool fresh_process = false;           // fork per case
};
std::map<std::string, Prop> &props();
struct RegProp { RegProp(Prop p) { props()[p.id] = p; } };

// true when finding `id` is listed in the known-findings file (its region may be skipped or tolerated)
bool known_listed(const std::string &id);
void note_case_text(const std::string &text);   // make the description visible to the supervisor before a risky call

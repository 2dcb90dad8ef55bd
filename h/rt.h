// Runtime under the code under test: allocator, OpenMP stand-in (deterministic cooperative scheduler), race monitor.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

// ---- allocator ----
struct AllocInfo { void *base; size_t npages; void *user; size_t size; const char *file; int line; bool tracked; uint64_t uid; };
long live_count();                 // live allocations made by the code under test
size_t live_bytes();
uint64_t alloc_serial();           // number of allocation requests so far
void arm_oom(long nth);            // nth request from now (1-based) fails; 0 disarms
void set_fill(int byte);           // what fresh memory contains
bool oom_fired();
std::string live_report(uint64_t since_serial);
bool check_canaries(std::string *msg);
void *guarded(size_t bytes);       // caller-side array with guard page right behind it and canary before it
void guarded_free(void *p);
void release_all_guarded();
bool is_live(void *p);             // pointer returned by the allocator and not yet freed

// ---- OpenMP stand-in ----
struct Sched {
    int nthreads = 1;
    int policy = 0;        // 0 fifo  1 lifo  2 random  3 priority  4 starve-oldest
    uint64_t seed = 0;
    int quantum = 0;       // 0: switch only when blocked or after a long stretch; k>0: mean number of basic blocks between switches
    int immediate_pct = 0; // chance (percent) that a ready task runs at its creation point
};
void configure(const Sched &s);
const Sched &sched();
struct Stats { long tasks = 0, switches = 0, preempts = 0, barriers = 0, regions = 0, loops = 0, maxready = 0, deps = 0; long steps = 0; };
Stats &stats();
void stats_reset();
void parallel_master(const std::function<void()> &f);   // #pragma omp parallel + master
bool in_team();

// ---- race monitor ----
void race_begin();
// returns description of the first conflict or ""
std::string race_end();
struct RaceStats { long strands = 0, blocks = 0, accesses = 0, pairs = 0; };
RaceStats race_stats();

// ---- failure exit used from places that cannot unwind ----
extern void (*fatal_hook)(const char *key, const char *msg);
[[noreturn]] void fatal(const char *key, const std::string &msg);
void install_signals();
void reset_all();

// ---- coverage ----
extern uint8_t cov_map[1 << 16];
}

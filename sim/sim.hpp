// Deterministic simulator: choice tapes, simulated disk below libstdc++'s filebuf, allocator with
// fault injection, cooperative scheduler of client threads, event log, batch runner and minimiser.
#ifndef VERIF_SIM_HPP
#define VERIF_SIM_HPP
#include <cstddef>
#include <cstdint>
#include <exception>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

inline uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}

// One named stream of choices. Fresh runs draw from a PRNG and record; replays read the recorded
// values and give 0 (always the simplest choice) when the recording ends.
struct Tape {
    std::vector<uint32_t> v;
    size_t pos = 0;
    uint64_t state = 0;
    bool replay = false;
    int which = 0;
    uint32_t draw(uint32_t n);                 // 0 .. n-1 (n >= 1)
    bool chance(uint32_t num, uint32_t den) { return draw(den) >= den - num; } // 0 -> false
    uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
    uint64_t bits64() {
        uint64_t a = draw(0x10000), b = draw(0x10000), c = draw(0x10000), d = draw(0x10000);
        return a | b << 16 | c << 32 | d << 48;
    }
    template <class T> const T& pick(const std::vector<T>& xs) { return xs[draw((uint32_t)xs.size())]; }
    uint32_t skewed(uint32_t max);             // small values likely, up to max (inclusive)
};
enum { WORK = 0, FAULT = 1, SCHED = 2, NTAPES = 3 };

struct Violation { std::string cls, msg; };

// ---- event log -------------------------------------------------------------------------------
void log_event(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t log_hash();

// ---- faults ------------------------------------------------------------------------------------
enum Sys { SYS_OPEN, SYS_READ, SYS_WRITE, SYS_SEEK, SYS_CLOSE, SYS_FLUSH, SYS_OTHER, NSYS };
extern const char* const sys_name[NSYS];

enum FaultKind {
    F_NONE = 0,
    F_SHORT_READ, F_EINTR_READ, F_SHORT_WRITE, F_EINTR_WRITE, F_LATENCY,      // benign delivery
    F_EIO_READ, F_EIO_READ_STICKY,                                              // read side
    F_OPEN_EACCES, F_OPEN_EMFILE, F_OPEN_EIO, F_SEEK_EIO,
    F_EIO_WRITE, F_EIO_WRITE_STICKY, F_ENOSPC, F_TORN_WRITE, F_DISK_FULL_AT, F_CLOSE_LOST, // write side
    F_CRASH,
    F_ALLOC_ONE, F_ALLOC_STICKY, F_MEMORY_CAP,
    F_BYTE_DAMAGE, F_TRUNCATE, F_BLOCK_DAMAGE, F_SINK_FULL, F_SINK_THROW, F_PREEMPT, F_DIRTY_MEMORY, F_REJECTED_EDIT, F_FILE_CUT_WHILE_OPEN, F_FILE_GROWS_WHILE_OPEN,
    NFAULT
};
extern const char* const fault_name[NFAULT];
void count_fault(FaultKind k, uint64_t n = 1);

struct Chunking {             // per-client delivery variation that changes no result
    uint32_t max_read = 0;    // 0: whole
    uint32_t max_write = 0;
    uint32_t eintr_every = 0; // 0: never
    uint64_t seed = 0;
    bool latency = false;
};

// ---- disk --------------------------------------------------------------------------------------
bool disk_exists(const std::string& path);
std::string disk_get(const std::string& path);
void disk_put(const std::string& path, const std::string& bytes);
void disk_remove(const std::string& path);
int open_descriptors();

// ---- per-client context -----------------------------------------------------------------------
struct Client {
    int id = 0;
    // armed system call fault: fires at the first system call it fits, from index `at` on
    FaultKind fault = F_NONE;
    uint64_t fault_at = 0, fault_arg = 0;
    bool fired = false;
    uint64_t sys_count = 0;       // system calls since reset
    uint64_t sys_of[NSYS] = {0};
    Chunking chunk;
    uint64_t chunk_n = 0;
    bool crashed = false;         // its process died: nothing it does reaches the disk any more
    // allocation
    int lib_depth = 0;            // > 0: running library code
    uint64_t alloc_count = 0;     // allocations in library scope since reset
    uint64_t alloc_bytes = 0;
    bool alloc_armed = false, alloc_sticky = false, alloc_fired = false;
    uint64_t alloc_fail_at = 0;
};
Client& self();                   // current client (the harness itself is client 0)

void arm_sys(FaultKind k, uint64_t at, uint64_t arg = 0);
void arm_file_change(uint64_t at, const std::string& bytes, bool grows); // another process changes the file that is being read
void disarm_sys();
bool sys_fired();
void reset_counts();
void arm_alloc(uint64_t at, bool sticky);
void disarm_alloc();
bool alloc_fired();

// RAII: library code runs inside
struct Lib { Lib() { self().lib_depth++; } ~Lib() { self().lib_depth--; } };
struct NotLib { int d; NotLib() : d(self().lib_depth) { self().lib_depth = 0; } ~NotLib() { self().lib_depth = d; } };

size_t live_lib_allocations();    // library-scope allocations of this run not yet freed
void set_memory_cap(uint64_t bytes); // a library allocation beyond this many live bytes fails (0: none)
void set_dirty(uint8_t pattern);  // fill pattern of fresh memory

// Budget on simulated steps in library scope; exceeding it ends the run as a hang.
void set_budget(uint64_t syscalls, uint64_t allocs, uint64_t alloc_bytes);

// ---- scheduler ---------------------------------------------------------------------------------
// Runs the bodies as client threads 1..n, exactly one at a time; switches only at system calls,
// allocations in library scope, lock attempts and explicit yields, decided by the SCHED tape.
// Runs the clients to their ends; returns the number of switch points passed. expected_points (0: unknown) spreads the switches over the run.
uint64_t run_clients(const std::vector<std::function<void()>>& bodies, bool yield_at_alloc, uint64_t expected_points = 0);
void count_places(bool on);        // collect the basic blocks that clients run (places to park a client later)
void yield_point();

// ---- run ---------------------------------------------------------------------------------------
struct Stats {
    uint64_t faults[NFAULT] = {0};
    uint64_t syscalls[NSYS] = {0};
    uint64_t allocs = 0, switches = 0, sim_us = 0, ops = 0, checks = 0;
    std::map<std::string, uint64_t> probes;
};
extern Stats stats;
void probe(const char* name, uint64_t n = 1);
inline void op() { stats.ops++; }

Tape& tape(int which);
inline Tape& W() { return tape(WORK); }
inline Tape& F() { return tape(FAULT); }
inline Tape& S() { return tape(SCHED); }

[[noreturn]] void violate(const std::string& cls, const std::string& msg); // throws Violation
void note_violation(const std::string& cls, const std::string& msg);       // first one wins, no throw

void draw_chunking();  // sets self().chunk from the FAULT tape
void clear_chunking();

typedef void (*RunFn)();
int sim_main(int argc, char** argv, const char* prop, RunFn fn);
std::string hex(const std::string& s, size_t max = 64);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string printable(const std::string& s, size_t max = 100);
} // namespace sim
#endif

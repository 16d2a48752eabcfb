#include "sim.hpp"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <memory>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/personality.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern "C" const char* __asan_default_options() {
    return "detect_leaks=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=8:max_allocation_size_mb=2048:"
           "detect_stack_use_after_return=0:handle_abort=0:alloc_dealloc_mismatch=0:intercept_tls_get_addr=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }

namespace sim {
const char* const sys_name[NSYS] = {"open", "read", "write", "seek", "close", "flush", "other"};
const char* const fault_name[NFAULT] = {
    "none", "short_read", "eintr_read", "short_write", "eintr_write", "latency", "eio_read", "eio_read_sticky",
    "open_eacces", "open_emfile", "open_eio", "seek_eio", "eio_write", "eio_write_sticky", "enospc", "torn_write",
    "disk_full_at", "close_lost_data", "crash", "alloc_fail_once", "alloc_fail_from", "memory_cap", "byte_damage",
    "truncate", "block_damage", "sink_full", "sink_throw", "preempt", "dirty_memory", "rejected_edit", "file_cut_while_open", "file_grows_while_open"};

Stats stats;
static Tape tapes[NTAPES];
static uint64_t g_loghash = 0;
static uint64_t g_events = 0;
static bool g_trace = false;      // keep the event text
static std::string* g_trace_text = nullptr;
static Violation* g_viol = nullptr;
static bool g_in_run = false;

static const size_t SHARED_TAPE = 1 << 17;
static const int BATCH = 32;
struct Slot {
    volatile uint64_t cur, done, warm;
    uint64_t faults[NFAULT], syscalls[NSYS], allocs, switches, sim_us, ops, checks, events;
    uint64_t hashes[BATCH], sched[BATCH];
    uint8_t nontrivial[BATCH];
    int have_viol;
    uint64_t viol_index, viol_hash;
    char cls[160], msg[4000];
    char probes[24576];
    volatile uint64_t ntape[NTAPES];
    uint32_t tp[NTAPES][SHARED_TAPE];
    char sample[3000];
};
static Slot* g_slot = nullptr;
static bool g_mirror = false;

std::string fmt(const char* f, ...) {
    char b[8192];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return std::string(b, n < 0 ? 0 : std::min<size_t>(n, sizeof b - 1));
}
std::string hex(const std::string& s, size_t max) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; i++) { r += d[(uint8_t)s[i] >> 4]; r += d[s[i] & 15]; }
    if (s.size() > max) r += "...";
    return r;
}
std::string printable(const std::string& s, size_t max) {
    std::string r;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c >= 32 && c < 127) r += (char)c; else r += fmt("\\x%02x", c);
    }
    if (s.size() > max) r += "...";
    return r;
}

uint32_t Tape::draw(uint32_t n) {
    if (n <= 1) n = 1;
    uint32_t x;
    if (replay) {
        x = pos < v.size() ? v[pos] % n : 0;
        pos++;
    } else {
        state += 0x9e3779b97f4a7c15ULL;
        uint64_t z = mix(state);
        x = (uint32_t)((z >> 32) % n);
        v.push_back(x);
        pos++;
    }
    if (g_mirror && g_slot && pos <= SHARED_TAPE && this == &tapes[which]) { g_slot->tp[which][pos - 1] = x; g_slot->ntape[which] = pos; }
    return x;
}
uint32_t Tape::skewed(uint32_t max) {
    uint32_t bits = 0;
    while ((1u << bits) <= max && bits < 31) bits++;
    uint32_t b = draw(bits + 1);
    if (b == 0) return 0;
    uint32_t hi = std::min<uint64_t>(max, (1ull << b) - 1);
    return draw(hi + 1);
}
Tape& tape(int which) { return tapes[which]; }

void log_event(const char* f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n < 0) return;
    if (n >= (int)sizeof b) n = sizeof b - 1;
    uint64_t h = g_loghash;
    for (int i = 0; i < n; i++) h = (h ^ (uint8_t)b[i]) * 0x100000001b3ULL;
    g_loghash = mix(h + n);
    g_events++;
    if (g_trace && g_trace_text && g_trace_text->size() < 400000) {
        char p[64];
        int m = snprintf(p, sizeof p, "[%llu c%d t=%lluus] ", (unsigned long long)g_events, self().id, (unsigned long long)stats.sim_us);
        int d = self().lib_depth;
        self().lib_depth = 0;
        g_trace_text->append(p, m);
        g_trace_text->append(b, n);
        g_trace_text->push_back('\n');
        self().lib_depth = d;
    }
}
uint64_t log_hash() { return g_loghash; }
void count_fault(FaultKind k, uint64_t n) { stats.faults[k] += n; }
void probe(const char* name, uint64_t n) { NotLib nl; stats.probes[name] += n; }

// ---- clients / scheduler -----------------------------------------------------------------------
static Client g_main_client;
static thread_local Client* t_client = nullptr;
Client& self() { return t_client ? *t_client : g_main_client; }

struct Sched {
    bool active = false, at_alloc = false, dead = false;
    int n = 0, cur = 0, alive = 0;
    std::vector<sem_t> sems;
    sem_t main_sem;
    std::vector<char> finished, waiting;
    uint64_t quantum = 0, run_switches = 0, points = 0, expected = 0;
    int burst = 0;
    uint32_t style = 0;
    uint64_t hash = 0, spins = 0;
    std::vector<Client> clients;
    // parking schedules: at a drawn place of the code, reached for the drawn time, the running client is
    // put behind all others (places come from the clients' runs alone, so rare code is as likely as hot loops)
    struct Place { uintptr_t pc; uint64_t left; };
    bool parking = false;
    Place place[8];
    int places = 0;
    std::vector<int64_t> prio;
    int64_t lowest = 0;
};
static Sched sc;
static struct { uintptr_t pc; uint64_t n; } g_pcs[1 << 15]; // basic blocks run so far and how often
static int g_npcs = 0;
static bool g_pcs_on = false;
static void count_pc(uintptr_t pc) {
    size_t i = (pc * 0x9E3779B97F4A7C15ull) >> 49;
    for (int probe = 0; probe < 64; probe++, i = (i + 1) & 32767) {
        if (g_pcs[i].pc == pc) { g_pcs[i].n++; return; }
        if (!g_pcs[i].pc) { g_pcs[i].pc = pc; g_pcs[i].n = 1; g_npcs++; return; }
    }
}
void count_places(bool on) { if (on) { memset(g_pcs, 0, sizeof g_pcs); g_npcs = 0; } g_pcs_on = on; }
static void draw_places() {
    std::vector<std::pair<uintptr_t, uint64_t>> all;
    for (auto& x : g_pcs) if (x.pc) all.push_back({x.pc, x.n});
    std::sort(all.begin(), all.end());
    // The library's own functions, so that a small one is as likely as a large one or as what it calls
    static std::map<uintptr_t, uintptr_t> function_of;
    std::map<uintptr_t, std::vector<uint32_t>> by_function;
    for (uint32_t i = 0; i < all.size(); i++) {
        auto it = function_of.find(all[i].first);
        if (it == function_of.end()) {
            Dl_info info;
            uintptr_t f = 0;
            if (dladdr((void*)all[i].first, &info) && info.dli_sname && (!strncmp(info.dli_sname, "_ZN5boost9astronomy", 19) || !strncmp(info.dli_sname, "_ZNK5boost9astronomy", 20))) f = (uintptr_t)info.dli_saddr;
            it = function_of.emplace(all[i].first, f).first;
        }
        if (it->second) by_function[it->second].push_back(i + 1);
    }
    std::vector<std::vector<uint32_t>> functions;
    for (auto& x : by_function) functions.push_back(x.second);
    sc.places = 0;
    uint32_t d = 1 + S().draw(6);
    for (uint32_t i = 0; i < d; i++) {
        uint32_t k = 0;
        if (!functions.empty() && S().draw(4)) { auto& f = S().pick(functions); k = S().pick(f); }
        else k = S().draw((uint32_t)all.size() + 1);
        uint64_t o = S().draw(4);
        if (k == 0) continue; // replay default: none
        auto& a = all[k - 1];
        uint64_t most = std::min<uint64_t>(a.second, 1u << 30);
        uint64_t occ = o == 0 ? 1 : o == 1 ? 1 + S().draw((uint32_t)std::min<uint64_t>(most, 8)) : 1 + S().draw((uint32_t)most);
        sc.place[sc.places++] = {a.first, occ};
    }
    sc.prio.clear();
    for (int i = 0; i < sc.n; i++) sc.prio.push_back(1 + S().draw(1000));
    sc.lowest = 0;
}

static void draw_quantum() {
    // 0 (replay default): never preempt again
    uint32_t k = S().draw(2048);
    if (k == 0) { sc.quantum = ~0ull; return; }
    if (!sc.expected) {
        static const uint32_t m[] = {1, 8, 80, 1200, 16000};
        uint32_t c = sc.style == 0 ? k % 5 : sc.style == 1 ? k % 2 : sc.style == 2 ? 1 + k % 3 : 3 + k % 2;
        if (sc.run_switches++ > 600) c = 4; // bounds the cost of a run
        sc.quantum = 1 + S().draw(m[c]);
        return;
    }
    // spread over the whole run, whose number of switch points is known from running the clients alone
    if (sc.burst > 0) { sc.burst--; sc.quantum = 1 + S().draw(8); return; }
    static const uint32_t gaps[] = {3, 25, 150, 500};
    uint64_t mean = sc.expected / gaps[sc.style];
    if (sc.run_switches++ > 800) mean = sc.expected;
    sc.quantum = 1 + S().draw((uint32_t)std::min<uint64_t>(2 * mean + 1, 1u << 30));
    if (sc.style < 3 && k % 2) sc.burst = (int)(k % 32);
}
static int pick_other(int cur) {
    std::vector<int> c;
    for (int i = 0; i < sc.n; i++) if (i != cur && !sc.finished[i]) c.push_back(i);
    if (c.empty()) return -1;
    if (sc.parking) { int b = c[0]; for (int i : c) if (sc.prio[i] > sc.prio[b]) b = i; return b; }
    return c[S().draw((uint32_t)c.size())];
}
static void switch_to(int next) {
    int me = sc.cur;
    sc.cur = next;
    stats.switches++;
    sc.hash = mix(sc.hash ^ (uint64_t)(next + 1) ^ (g_events << 8));
    sem_post(&sc.sems[next]);
    while (sem_wait(&sc.sems[me]) != 0) {}
}
static bool scheduled_client() { return sc.active && t_client && t_client->id > 0; }
void yield_point() {
    if (!scheduled_client()) return;
    sc.points++;
    if (sc.quantum != ~0ull && --sc.quantum == 0) {
        NotLib nl;
        int nx = pick_other(sc.cur);
        draw_quantum();
        if (nx >= 0) { stats.faults[F_PREEMPT]++; log_event("preempt -> c%d", nx + 1); switch_to(nx); }
    }
}
static void park_here() {
    NotLib nl;
    int nx = pick_other(sc.cur);
    if (nx < 0) return;
    sc.prio[sc.cur] = --sc.lowest;
    stats.faults[F_PREEMPT]++;
    log_event("park c%d -> c%d", sc.cur + 1, nx + 1);
    switch_to(nx);
}
[[noreturn]] static void end_as(const char* cls, const char* msg);
static void forced_yield() {
    NotLib nl;
    int nx = pick_other(sc.cur);
    if (sc.parking) sc.prio[sc.cur] = --sc.lowest;
    if (++sc.spins > 200000 || nx < 0) end_as("deadlock", "every client waits for a lock that another one holds");
    switch_to(nx);
}
struct ThreadArg { int i; const std::function<void()>* f; };
static void* thread_main(void* p) {
    ThreadArg* a = (ThreadArg*)p;
    t_client = &sc.clients[a->i];
    while (sem_wait(&sc.sems[a->i]) != 0) {}
    try { (*a->f)(); }
    catch (Violation& v) { note_violation(v.cls, v.msg); }
    catch (std::exception& e) { note_violation("harness", std::string("client body leaked an exception: ") + e.what()); }
    catch (...) { note_violation("non-std-exception", "client body leaked an exception"); }
    t_client->lib_depth = 0;
    sc.finished[a->i] = 1;
    int nx = pick_other(a->i);
    if (nx >= 0) { sc.cur = nx; sem_post(&sc.sems[nx]); }
    else sem_post(&sc.main_sem);
    return nullptr;
}
uint64_t run_clients(const std::vector<std::function<void()>>& bodies, bool yield_at_alloc, uint64_t expected_points) {
    sc.points = 0; sc.expected = expected_points; sc.burst = 0;
    int n = (int)bodies.size();
    sc.n = n; sc.at_alloc = yield_at_alloc; sc.spins = 0;
    sc.sems = std::vector<sem_t>(n);
    sc.finished.assign(n, 0);
    sc.clients.assign(n, Client());
    for (int i = 0; i < n; i++) { sem_init(&sc.sems[i], 0, 0); sc.clients[i].id = i + 1; sc.clients[i].chunk = g_main_client.chunk; sc.clients[i].chunk.seed += i * 77; }
    sem_init(&sc.main_sem, 0, 0);
    std::vector<ThreadArg> args(n);
    std::vector<pthread_t> th(n);
    for (int i = 0; i < n; i++) { args[i] = {i, &bodies[i]}; pthread_create(&th[i], nullptr, thread_main, &args[i]); }
    sc.run_switches = 0;
    sc.style = S().draw(expected_points && g_npcs ? 8 : 4);
    sc.parking = sc.style >= 4;
    sc.places = 0;
    if (sc.parking) { draw_places(); sc.quantum = ~0ull; } else draw_quantum();
    sc.cur = sc.parking ? pick_other(-1) : (int)S().draw(n);
    sc.active = true;
    sem_post(&sc.sems[sc.cur]);
    while (sem_wait(&sc.main_sem) != 0) {}
    sc.active = false;
    for (int i = 0; i < n; i++) pthread_join(th[i], nullptr);
    for (int i = 0; i < n; i++) sem_destroy(&sc.sems[i]);
    sem_destroy(&sc.main_sem);
    return sc.points;
}

// ---- violations --------------------------------------------------------------------------------
void note_violation(const std::string& cls, const std::string& msg) {
    NotLib nl;
    if (!g_viol) { g_viol = new Violation{cls, msg}; log_event("VIOLATION %s: %s", cls.c_str(), msg.c_str()); }
}
void violate(const std::string& cls, const std::string& msg) { throw Violation{cls, msg}; }

static void slot_violation(const char* cls, const char* msg) {
    if (!g_slot || g_slot->have_viol) return;
    snprintf(g_slot->cls, sizeof g_slot->cls, "%s", cls);
    snprintf(g_slot->msg, sizeof g_slot->msg, "%s", msg);
    g_slot->viol_index = g_slot->cur;
    g_slot->viol_hash = g_loghash;
    g_slot->have_viol = 1;
}
static void write_trace_file();
[[noreturn]] static void end_as(const char* cls, const char* msg) {
    log_event("VIOLATION %s: %s", cls, msg);
    slot_violation(cls, msg);
    write_trace_file();
    _exit(77);
}

// ---- budgets -----------------------------------------------------------------------------------
static uint64_t b_sys = 0, b_alloc = 0, b_bytes = 0, u_sys = 0, u_alloc = 0, u_bytes = 0;
void set_budget(uint64_t s, uint64_t a, uint64_t b) { b_sys = s; b_alloc = a; b_bytes = b; u_sys = u_alloc = u_bytes = 0; }

// ---- allocator ---------------------------------------------------------------------------------
struct Hdr { uint32_t magic, epoch; uint64_t size; };
static const uint32_t MAGIC = 0x51aa7e57;
static uint32_t g_epoch = 1;
static size_t g_live = 0;
static uint64_t g_live_bytes = 0, g_cap = 0;
static uint8_t g_dirty = 0;
size_t live_lib_allocations() { return g_live; }
void set_memory_cap(uint64_t b) { g_cap = b; }
void set_dirty(uint8_t p) { g_dirty = p; if (p) count_fault(F_DIRTY_MEMORY); }

static void* sim_alloc(size_t n, bool nothrow) {
    Client& c = self();
    bool lib = c.lib_depth > 0;
    if (lib) {
        uint64_t k = c.alloc_count++;
        c.alloc_bytes += n;
        stats.allocs++;
        u_alloc++; u_bytes += n;
        if (b_alloc && u_alloc > b_alloc) end_as("hang", "allocation budget exceeded: the operation does not end");
        if (b_bytes && u_bytes > b_bytes) end_as("unbounded-memory", "memory requested is out of proportion to the input");
        if (sc.active && sc.at_alloc) yield_point();
        if (c.alloc_armed && (k == c.alloc_fail_at || (c.alloc_sticky && k > c.alloc_fail_at))) {
            if (!c.alloc_fired) {
                c.alloc_fired = true;
                stats.faults[c.alloc_sticky ? F_ALLOC_STICKY : F_ALLOC_ONE]++;
                log_event("alloc #%llu (%zu bytes) fails%s", (unsigned long long)k, n, c.alloc_sticky ? ", and all later ones" : "");
            }
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
        if (g_cap && g_live_bytes + n > g_cap) {
            stats.faults[F_MEMORY_CAP]++;
            log_event("alloc of %zu bytes exceeds the memory cap", n);
            if (nothrow) return nullptr;
            throw std::bad_alloc();
        }
    }
    Hdr* h = (Hdr*)malloc(n + sizeof(Hdr));
    if (!h) { if (nothrow) return nullptr; throw std::bad_alloc(); }
    h->magic = MAGIC;
    h->size = n;
    h->epoch = lib ? g_epoch : 0;
    if (lib) { g_live++; g_live_bytes += n; }
    void* p = h + 1;
    if (lib && g_dirty && n <= (1u << 20)) memset(p, g_dirty, n);
    return p;
}
static void sim_free(void* p) {
    if (!p) return;
    Hdr* h = (Hdr*)p - 1;
    if (h->magic != MAGIC) { if (h->magic == 0xdeadf4ee) end_as("double-free", "memory released twice"); abort(); }
    if (h->epoch == g_epoch && h->epoch) { g_live--; g_live_bytes -= h->size; }
    h->magic = 0xdeadf4ee;
    free(h);
}
} // namespace sim

void* operator new(size_t n) { return sim::sim_alloc(n, false); }
void* operator new[](size_t n) { return sim::sim_alloc(n, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::sim_alloc(n, true); }
void operator delete(void* p) noexcept { sim::sim_free(p); }
void operator delete[](void* p) noexcept { sim::sim_free(p); }
void operator delete(void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete[](void* p, size_t) noexcept { sim::sim_free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim::sim_free(p); }

namespace sim {
// ---- disk --------------------------------------------------------------------------------------
struct Inode { std::string data; };
struct OpenFile { std::shared_ptr<Inode> ino; size_t off = 0; bool rd = false, wr = false, app = false; int owner = 0; bool lost = false; };
static std::map<std::string, std::shared_ptr<Inode>> g_disk;
static std::map<int, OpenFile> g_files;
static int g_next_fd = 0;
static const int FD_BASE = 1000000;
struct FakeFile { int fd; };
static std::map<void*, std::unique_ptr<FakeFile>> g_fakes;

static bool is_sim_path(const char* p) { return p && strncmp(p, "/sim/", 5) == 0; }
bool disk_exists(const std::string& p) { return g_disk.count(p) != 0; }
std::string disk_get(const std::string& p) { auto i = g_disk.find(p); return i == g_disk.end() ? std::string() : i->second->data; }
void disk_put(const std::string& p, const std::string& b) { auto n = std::make_shared<Inode>(); n->data = b; g_disk[p] = n; }
void disk_remove(const std::string& p) { g_disk.erase(p); }
int open_descriptors() { return (int)g_files.size(); }

void arm_sys(FaultKind k, uint64_t at, uint64_t arg) { Client& c = self(); c.fault = k; c.fault_at = at; c.fault_arg = arg; c.fired = false; c.sys_count = 0; log_event("arm %s at syscall >=%llu arg %llu", fault_name[k], (unsigned long long)at, (unsigned long long)arg); }
static std::string g_changed_file;
void arm_file_change(uint64_t at, const std::string& bytes, bool grows) { g_changed_file = bytes; arm_sys(grows ? F_FILE_GROWS_WHILE_OPEN : F_FILE_CUT_WHILE_OPEN, at); }
void disarm_sys() { self().fault = F_NONE; self().fired = false; }
bool sys_fired() { return self().fired; }
void reset_counts() { Client& c = self(); c.sys_count = 0; memset(c.sys_of, 0, sizeof c.sys_of); c.alloc_count = c.alloc_bytes = 0; }
void arm_alloc(uint64_t at, bool sticky) { Client& c = self(); c.alloc_armed = true; c.alloc_sticky = sticky; c.alloc_fail_at = at; c.alloc_count = 0; c.alloc_fired = false; }
void disarm_alloc() { self().alloc_armed = self().alloc_fired = false; }
bool alloc_fired() { return self().alloc_fired; }

static bool fault_fits(FaultKind k, Sys s) {
    switch (k) {
    case F_EIO_READ: case F_EIO_READ_STICKY: return s == SYS_READ;
    case F_OPEN_EACCES: case F_OPEN_EMFILE: case F_OPEN_EIO: return s == SYS_OPEN;
    case F_SEEK_EIO: return s == SYS_SEEK;
    case F_FILE_CUT_WHILE_OPEN: case F_FILE_GROWS_WHILE_OPEN: return s == SYS_READ || s == SYS_SEEK;
    case F_EIO_WRITE: case F_EIO_WRITE_STICKY: case F_ENOSPC: case F_TORN_WRITE: case F_DISK_FULL_AT: case F_CRASH: return s == SYS_WRITE;
    case F_CLOSE_LOST: return s == SYS_CLOSE;
    default: return false;
    }
}
static size_t slack(const Client& c) { return c.chunk_n > 20000 ? 8192 : 0; } // large files in bearable time
static uint64_t chunk_next(Client& c) { return mix(c.chunk.seed + 0x1234567 * ++c.chunk_n); }

// Called at the start of every system call. Returns the fault to apply now (F_NONE: none).
static FaultKind enter(Sys s) {
    Client& c = self();
    stats.syscalls[s]++;
    u_sys++;
    if (b_sys && u_sys > b_sys) end_as("hang", "system call budget exceeded: the operation does not end");
    yield_point();
    stats.sim_us += 5;
    if (c.chunk.latency) { uint64_t l = chunk_next(c) % 8 == 0 ? chunk_next(c) % 50000 : chunk_next(c) % 300; stats.sim_us += l; stats.faults[F_LATENCY]++; }
    uint64_t k = c.sys_count++;
    c.sys_of[s]++;
    if (c.fault != F_NONE && !c.crashed && k >= c.fault_at && fault_fits(c.fault, s)) {
        bool repeat = c.fault == F_EIO_READ_STICKY || c.fault == F_EIO_WRITE_STICKY || c.fault == F_ENOSPC || c.fault == F_DISK_FULL_AT;
        if (!c.fired || repeat) {
            if (c.fault != F_DISK_FULL_AT) { if (!c.fired) stats.faults[c.fault]++; c.fired = true; }
            return c.fault;
        }
    }
    return F_NONE;
}
static ssize_t sim_read(int fd, void* buf, size_t n) {
    NotLib nl;
    auto it = g_files.find(fd);
    if (it == g_files.end() || !it->second.rd) { errno = EBADF; return -1; }
    FaultKind f = enter(SYS_READ);
    it = g_files.find(fd);
    if (it == g_files.end()) { errno = EBADF; return -1; }
    OpenFile& o = it->second;
    Client& c = self();
    if (f == F_EIO_READ || f == F_EIO_READ_STICKY) { log_event("read fd%d off %zu len %zu -> EIO", fd - FD_BASE, o.off, n); errno = EIO; return -1; }
    if (c.chunk.eintr_every && chunk_next(c) % c.chunk.eintr_every == 0) { stats.faults[F_EINTR_READ]++; log_event("read fd%d -> EINTR", fd - FD_BASE); errno = EINTR; return -1; }
    if (f == F_FILE_CUT_WHILE_OPEN || f == F_FILE_GROWS_WHILE_OPEN) { o.ino->data = g_changed_file; log_event("the file now has %zu bytes", o.ino->data.size()); }
    size_t avail = o.off < o.ino->data.size() ? o.ino->data.size() - o.off : 0;
    size_t m = std::min(n, avail);
    if (c.chunk.max_read && m > 1) {
        size_t lim = 1 + chunk_next(c) % c.chunk.max_read + slack(c);
        if (lim < m) { m = lim; stats.faults[F_SHORT_READ]++; }
    }
    memcpy(buf, o.ino->data.data() + o.off, m);
    log_event("read fd%d off %zu len %zu -> %zu", fd - FD_BASE, o.off, n, m);
    o.off += m;
    return (ssize_t)m;
}
static void put_bytes(OpenFile& o, const char* p, size_t m) {
    if (self().crashed || o.lost) { o.off += m; return; }
    if (o.app) o.off = o.ino->data.size();
    if (o.off + m > o.ino->data.size()) o.ino->data.resize(o.off + m, '\0');
    memcpy(&o.ino->data[o.off], p, m);
    o.off += m;
}
static ssize_t sim_write(int fd, const char* buf, size_t n) {
    NotLib nl;
    auto it = g_files.find(fd);
    if (it == g_files.end() || !it->second.wr) { errno = EBADF; return -1; }
    FaultKind f = enter(SYS_WRITE);
    it = g_files.find(fd);
    if (it == g_files.end()) { errno = EBADF; return -1; }
    OpenFile& o = it->second;
    Client& c = self();
    size_t m = n;
    switch (f) {
    case F_EIO_WRITE: case F_EIO_WRITE_STICKY: log_event("write fd%d off %zu len %zu -> EIO", fd - FD_BASE, o.off, n); errno = EIO; return -1;
    case F_ENOSPC: log_event("write fd%d off %zu len %zu -> ENOSPC", fd - FD_BASE, o.off, n); errno = ENOSPC; return -1;
    case F_TORN_WRITE: { // part of the bytes reach the disk, then the device fails
        size_t k = n ? c.fault_arg % n : 0;
        put_bytes(o, buf, k);
        log_event("write fd%d off %zu len %zu -> torn after %zu, EIO", fd - FD_BASE, o.off, n, k);
        errno = EIO;
        return -1;
    }
    case F_DISK_FULL_AT: { // capacity in bytes for this file
        size_t room = o.off < c.fault_arg ? c.fault_arg - o.off : 0;
        if (room < n) {
            if (!c.fired) { c.fired = true; stats.faults[F_DISK_FULL_AT]++; }
            if (room == 0) { log_event("write fd%d off %zu len %zu -> ENOSPC (full at %llu)", fd - FD_BASE, o.off, n, (unsigned long long)c.fault_arg); errno = ENOSPC; return -1; }
            m = room;
        }
        break;
    }
    case F_CRASH: {
        size_t k = n ? c.fault_arg % (n + 1) : 0;
        put_bytes(o, buf, k);
        c.crashed = true;
        log_event("CRASH: write fd%d off %zu len %zu, %zu bytes reached the disk", fd - FD_BASE, o.off, n, k);
        o.off += n - k;
        return (ssize_t)n;
    }
    default: break;
    }
    if (c.chunk.eintr_every && chunk_next(c) % c.chunk.eintr_every == 0) { stats.faults[F_EINTR_WRITE]++; log_event("write fd%d -> EINTR", fd - FD_BASE); errno = EINTR; return -1; }
    if (c.chunk.max_write && m > 1) {
        size_t lim = 1 + chunk_next(c) % c.chunk.max_write + slack(c);
        if (lim < m) { m = lim; stats.faults[F_SHORT_WRITE]++; }
    }
    log_event("write fd%d off %zu len %zu -> %zu", fd - FD_BASE, o.off, n, m);
    put_bytes(o, buf, m);
    return (ssize_t)m;
}
static off_t sim_lseek(int fd, off_t off, int wh) {
    NotLib nl;
    auto it = g_files.find(fd);
    if (it == g_files.end()) { errno = EBADF; return -1; }
    FaultKind f = enter(SYS_SEEK);
    it = g_files.find(fd);
    if (it == g_files.end()) { errno = EBADF; return -1; }
    OpenFile& o = it->second;
    if (f == F_SEEK_EIO) { log_event("seek fd%d -> EIO", fd - FD_BASE); errno = EIO; return -1; }
    if (f == F_FILE_CUT_WHILE_OPEN || f == F_FILE_GROWS_WHILE_OPEN) { o.ino->data = g_changed_file; log_event("the file now has %zu bytes", o.ino->data.size()); }
    int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o.off : (int64_t)o.ino->data.size();
    int64_t t;
    if (__builtin_add_overflow(base, (int64_t)off, &t) || t < 0) { log_event("seek fd%d -> EINVAL", fd - FD_BASE); errno = EINVAL; return -1; }
    o.off = (size_t)t;
    log_event("seek fd%d -> %lld", fd - FD_BASE, (long long)t);
    return t;
}
static FILE* sim_fopen(const char* path, const char* mode) {
    NotLib nl;
    FaultKind f = enter(SYS_OPEN);
    Client& c = self();
    bool plus = strchr(mode, '+') != nullptr;
    if (f == F_OPEN_EACCES || f == F_OPEN_EMFILE || f == F_OPEN_EIO) {
        log_event("open %s %s -> error", path, mode);
        errno = f == F_OPEN_EACCES ? EACCES : f == F_OPEN_EMFILE ? EMFILE : EIO;
        return nullptr;
    }
    auto it = g_disk.find(path);
    if (mode[0] == 'r' && it == g_disk.end()) { log_event("open %s %s -> ENOENT", path, mode); errno = ENOENT; return nullptr; }
    OpenFile o;
    o.rd = mode[0] == 'r' || plus;
    o.wr = mode[0] != 'r' || plus;
    o.app = mode[0] == 'a';
    o.owner = c.id;
    if (it == g_disk.end()) {
        o.ino = std::make_shared<Inode>();
        if (!c.crashed) g_disk[path] = o.ino;
    } else {
        o.ino = it->second;
        if (mode[0] == 'w' && !c.crashed) o.ino->data.clear();
    }
    if (c.crashed) { auto cp = std::make_shared<Inode>(*o.ino); if (mode[0] == 'w') cp->data.clear(); o.ino = cp; }
    int fd = FD_BASE + g_next_fd++;
    g_files[fd] = o;
    auto ff = std::unique_ptr<FakeFile>(new FakeFile{fd});
    void* key = ff.get();
    g_fakes[key] = std::move(ff);
    log_event("open %s %s -> fd%d", path, mode, fd - FD_BASE);
    return (FILE*)key;
}
static FakeFile* fake_of(FILE* fp) {
    if (g_fakes.empty()) return nullptr;
    auto it = g_fakes.find((void*)fp);
    return it == g_fakes.end() ? nullptr : it->second.get();
}
static int sim_fclose(FILE* fp, FakeFile* ff) {
    NotLib nl;
    FaultKind f = enter(SYS_CLOSE);
    int fd = ff->fd;
    int rc = 0;
    auto it = g_files.find(fd);
    if (f == F_CLOSE_LOST && it != g_files.end() && it->second.wr) { // deferred write error: the last bytes never got there
        std::string& d = it->second.ino->data;
        size_t k = std::min<size_t>(d.size(), 1 + self().fault_arg % 4096);
        d.resize(d.size() - k);
        log_event("close fd%d -> EIO, last %zu bytes lost", fd - FD_BASE, k);
        errno = EIO;
        rc = EOF;
    } else {
        if (f == F_CLOSE_LOST) { self().fired = false; stats.faults[F_CLOSE_LOST]--; }
        log_event("close fd%d", fd - FD_BASE);
    }
    g_files.erase(fd);
    g_fakes.erase((void*)fp);
    return rc;
}
} // namespace sim

// ---- libc seam ------------------------------------------------------------------------------------
using namespace sim;
template <class Fn> static Fn real(const char* name) { return (Fn)dlsym(RTLD_NEXT, name); }
extern "C" {
FILE* fopen(const char* p, const char* m) {
    if (is_sim_path(p)) return sim_fopen(p, m);
    static auto r = real<FILE* (*)(const char*, const char*)>("fopen");
    return r(p, m);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* f) {
    if (FakeFile* ff = fake_of(f)) return sim_fclose(f, ff);
    static auto r = real<int (*)(FILE*)>("fclose");
    return r(f);
}
int fileno(FILE* f) {
    if (FakeFile* ff = fake_of(f)) return ff->fd;
    static auto r = real<int (*)(FILE*)>("fileno");
    return r(f);
}
int fflush(FILE* f) {
    if (f && fake_of(f)) { NotLib nl; enter(SYS_FLUSH); return 0; }
    static auto r = real<int (*)(FILE*)>("fflush");
    return r(f);
}
int setvbuf(FILE* f, char* b, int mode, size_t n) {
    if (fake_of(f)) return 0;
    static auto r = real<int (*)(FILE*, char*, int, size_t)>("setvbuf");
    return r(f, b, mode, n);
}
ssize_t read(int fd, void* b, size_t n) {
    if (fd >= FD_BASE) return sim_read(fd, b, n);
    return syscall(SYS_read, fd, b, n);
}
ssize_t write(int fd, const void* b, size_t n) {
    if (fd >= FD_BASE) return sim_write(fd, (const char*)b, n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec* v, int n) {
    if (fd < FD_BASE) return syscall(SYS_writev, fd, v, n);
    NotLib nl;
    std::string s;
    size_t most = self().chunk.max_write ? 32768 : SIZE_MAX; // a short write follows anyway
    for (int i = 0; i < n && s.size() < most; i++) s.append((const char*)v[i].iov_base, std::min(v[i].iov_len, most - s.size()));
    return sim_write(fd, s.data(), s.size());
}
off_t lseek(int fd, off_t o, int w) noexcept {
    if (fd >= FD_BASE) return sim_lseek(fd, o, w);
    return syscall(SYS_lseek, fd, o, w);
}
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int fstat(int fd, struct stat* st) noexcept {
    if (fd >= FD_BASE) {
        NotLib nl;
        auto it = g_files.find(fd);
        if (it == g_files.end()) { errno = EBADF; return -1; }
        enter(SYS_OTHER);
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = (off_t)it->second.ino->data.size();
        st->st_nlink = 1;
        return 0;
    }
    return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH);
}
int poll(struct pollfd* p, nfds_t n, int t) {
    if (n == 1 && p->fd >= FD_BASE) { p->revents = p->events; return 1; }
    return (int)syscall(SYS_poll, p, n, t);
}
int ioctl(int fd, unsigned long req, ...) noexcept {
    va_list ap;
    va_start(ap, req);
    void* a = va_arg(ap, void*);
    va_end(ap);
    if (fd >= FD_BASE) { errno = ENOTTY; return -1; }
    return (int)syscall(SYS_ioctl, fd, req, a);
}
int remove(const char* p) noexcept {
    if (is_sim_path(p)) { NotLib nl; enter(SYS_OTHER); log_event("remove %s", p); if (self().crashed) return 0; if (!g_disk.erase(p)) { errno = ENOENT; return -1; } return 0; }
    static auto r = real<int (*)(const char*)>("remove");
    return r(p);
}
int unlink(const char* p) noexcept { if (is_sim_path(p)) return remove(p); return (int)syscall(SYS_unlink, p); }
int rename(const char* a, const char* b) noexcept {
    if (is_sim_path(a) && is_sim_path(b)) {
        NotLib nl;
        enter(SYS_OTHER);
        log_event("rename %s %s", a, b);
        if (self().crashed) return 0;
        auto it = g_disk.find(a);
        if (it == g_disk.end()) { errno = ENOENT; return -1; }
        auto ino = it->second;
        g_disk.erase(it);
        g_disk[b] = ino;
        return 0;
    }
    return (int)syscall(SYS_rename, a, b);
}
int access(const char* p, int m) noexcept {
    if (is_sim_path(p)) { NotLib nl; enter(SYS_OTHER); if (g_disk.count(p)) return 0; errno = ENOENT; return -1; }
    return (int)syscall(SYS_access, p, m);
}
int stat(const char* p, struct stat* st) noexcept {
    if (is_sim_path(p)) {
        NotLib nl;
        enter(SYS_OTHER);
        auto it = g_disk.find(p);
        if (it == g_disk.end()) { errno = ENOENT; return -1; }
        memset(st, 0, sizeof *st);
        st->st_mode = S_IFREG | 0644;
        st->st_size = (off_t)it->second->data.size();
        st->st_nlink = 1;
        return 0;
    }
    return (int)syscall(SYS_newfstatat, AT_FDCWD, p, st, 0);
}
// Every basic block of the library (-fsanitize-coverage=trace-pc): a point where another client may run.
void __sanitizer_cov_trace_pc() {
    if (!sc.active || !t_client || t_client->lib_depth <= 0) return;
    uintptr_t pc = (uintptr_t)__builtin_return_address(0);
    if (g_pcs_on) count_pc(pc);
    if (sc.parking) {
        sc.points++;
        for (int i = 0; i < sc.places; i++) if (sc.place[i].pc == pc && sc.place[i].left && --sc.place[i].left == 0) park_here();
    } else yield_point();
}
// Waiting for another client means letting it run.
int __cxa_guard_acquire(long long* g) {
    static int (*r)(long long*) = nullptr;
    if (!r) r = real<int (*)(long long*)>("__cxa_guard_acquire");
    if (sc.active && t_client) while (!(*(volatile uint32_t*)g & 1) && (*(volatile uint32_t*)g & 0x100)) forced_yield();
    return r(g);
}
int pthread_once(pthread_once_t* o, void (*f)()) {
    static auto r = real<int (*)(pthread_once_t*, void (*)())>("pthread_once");
    if (sc.active && t_client) while (!(*(volatile int*)o & 2) && (*(volatile int*)o & 1)) forced_yield();
    return r(o, f);
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept {
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_wrlock");
    if (sc.active && t_client) for (;;) { int e = pthread_rwlock_trywrlock(m); if (e != EBUSY) return e; forced_yield(); }
    return r(m);
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept {
    static auto r = real<int (*)(pthread_rwlock_t*)>("pthread_rwlock_rdlock");
    if (sc.active && t_client) for (;;) { int e = pthread_rwlock_tryrdlock(m); if (e != EBUSY) return e; forced_yield(); }
    return r(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
    static auto r = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
    if (sc.active && t_client) {
        for (;;) {
            int e = pthread_mutex_trylock(m);
            if (e != EBUSY) return e;
            forced_yield();
        }
    }
    return r ? r(m) : 0;
}
}

// ---- runs --------------------------------------------------------------------------------------
namespace sim {
void clear_chunking() { self().chunk = Chunking(); self().chunk_n = 0; }
void draw_chunking() {
    Client& c = self();
    c.chunk = Chunking();
    c.chunk_n = 0;
    uint32_t k = F().draw(8);
    if (k == 0) return; // whole reads and writes, at once
    static const uint32_t lim[] = {1, 3, 79, 80, 81, 512, 2879, 2881, 9000};
    if (k & 1) { c.chunk.max_read = lim[F().draw(9)]; c.chunk.max_write = lim[F().draw(9)]; }
    if (k & 2) c.chunk.eintr_every = 2 + F().draw(9);
    if (k & 4) c.chunk.latency = true;
    c.chunk.seed = F().draw(1 << 30);
    log_event("delivery: max_read %u max_write %u eintr 1/%u latency %d", c.chunk.max_read, c.chunk.max_write, c.chunk.eintr_every, c.chunk.latency);
}

static uint64_t g_seed = 1;
static uint64_t g_prop_hash = 0;
static RunFn g_fn;

static void seed_tapes(uint64_t index) {
    for (int i = 0; i < NTAPES; i++) {
        tapes[i] = Tape();
        tapes[i].which = i;
        tapes[i].state = mix(mix(g_seed) ^ mix(g_prop_hash) ^ mix(index * NTAPES + i + 1));
    }
}
static void begin() {
    g_disk.clear();
    g_files.clear();
    g_fakes.clear();
    g_next_fd = 0;
    g_loghash = 0x1234;
    g_events = 0;
    g_main_client = Client();
    g_epoch++;
    g_live = 0;
    g_live_bytes = 0;
    g_cap = 0;
    g_dirty = 0;
    set_budget(0, 0, 0);
    sc.hash = 0;
    sc.active = false;
    delete g_viol;
    g_viol = nullptr;
    if (g_slot) for (int i = 0; i < NTAPES; i++) g_slot->ntape[i] = 0;
    g_in_run = true;
}
static const char* g_slow_log = nullptr;
static unsigned g_cpu_limit = 90; // processor seconds one run may take before it counts as not ending
static void exec_run() {
    struct timespec ts0, ts1;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts0);
    struct rlimit rl;
    getrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = std::min<rlim_t>(rl.rlim_max, (rlim_t)ts0.tv_sec + g_cpu_limit + 1);
    setrlimit(RLIMIT_CPU, &rl);
    begin();
    try { g_fn(); }
    catch (Violation& v) { g_main_client.lib_depth = 0; note_violation(v.cls, v.msg); }
    catch (std::exception& e) { g_main_client.lib_depth = 0; note_violation("harness-exception", std::string("unexpected exception in the harness: ") + e.what()); }
    catch (...) { g_main_client.lib_depth = 0; note_violation("non-std-exception", "an exception not derived from std::exception"); }
    g_main_client.lib_depth = 0;
    g_in_run = false;
    if (g_slow_log) { // development aid: where the time goes
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts1);
        double d = ts1.tv_sec - ts0.tv_sec + (ts1.tv_nsec - ts0.tv_nsec) * 1e-9;
        if (d > 1.0) {
            int fd = (int)syscall(SYS_openat, AT_FDCWD, g_slow_log, O_CREAT | O_APPEND | O_WRONLY, 0644);
            dprintf(fd, "run %llu: %.1f s, %llu events\n", (unsigned long long)g_slot->cur, d, (unsigned long long)g_events);
            syscall(SYS_close, fd);
        }
    }
}
static void warm_up() {
    Stats keep = stats;
    for (int i = 0; i < NTAPES; i++) { tapes[i] = Tape(); tapes[i].which = i; tapes[i].replay = true; }
    g_slot->warm = 1;
    exec_run();
    if (g_viol) { slot_violation(g_viol->cls.c_str(), g_viol->msg.c_str()); }
    g_slot->warm = 0;
    stats = keep;
}
static const char* g_trace_path = nullptr;
static void write_trace_file() {
    if (!g_trace_path || !g_trace_text) return;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, g_trace_path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { size_t o = 0; while (o < g_trace_text->size()) { ssize_t n = syscall(SYS_write, fd, g_trace_text->data() + o, g_trace_text->size() - o); if (n <= 0) break; o += n; } syscall(SYS_close, fd); }
}
static void flush_stats_to_slot() {
    memcpy(g_slot->faults, stats.faults, sizeof stats.faults);
    memcpy(g_slot->syscalls, stats.syscalls, sizeof stats.syscalls);
    g_slot->allocs = stats.allocs; g_slot->switches = stats.switches; g_slot->sim_us = stats.sim_us; g_slot->ops = stats.ops; g_slot->checks = stats.checks;
    std::string s;
    for (auto& p : stats.probes) s += p.first + "=" + std::to_string(p.second) + "\n";
    snprintf(g_slot->probes, sizeof g_slot->probes, "%s", s.c_str());
}
static uint64_t fault_total() { uint64_t t = 0; for (int i = 1; i < NFAULT; i++) t += stats.faults[i]; return t; }

// Runs indices [first, first+n) in this process, then exits.
[[noreturn]] static void batch_child(uint64_t first, int n, double deadline) {
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    g_slot->cur = first;
    warm_up();
    uint64_t events = 0;
    if (!g_slot->have_viol)
    for (int i = 0; i < n; i++) {
        struct timespec ts;
        clock_gettime(CLOCK_MONOTONIC, &ts);
        if (ts.tv_sec + ts.tv_nsec * 1e-9 > deadline) break; // only bounds how many runs are made
        g_slot->cur = first + i;
        seed_tapes(first + i);
        uint64_t f0 = fault_total(), o0 = stats.ops, s0 = stats.switches;
        if (i == 0 && first == 0) { g_trace = true; g_trace_text = new std::string; }
        exec_run();
        if (i == 0 && first == 0) { snprintf(g_slot->sample, sizeof g_slot->sample, "%s", g_trace_text->c_str()); g_trace = false; }
        g_slot->hashes[i] = g_loghash;
        g_slot->sched[i] = sc.hash;
        events += g_events;
        g_slot->nontrivial[i] = (fault_total() > f0 || stats.switches > s0 || stats.ops - o0 >= 2) ? 1 : 0;
        g_slot->done = i + 1;
        if (g_viol) { slot_violation(g_viol->cls.c_str(), g_viol->msg.c_str()); break; }
    }
    g_slot->events = events;
    flush_stats_to_slot();
    _exit(g_slot->have_viol ? 1 : 0);
}

static std::string json_escape(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) r += fmt("\\u%04x", c);
        else r += (char)c;
    }
    return r;
}
static double now() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static Slot* make_slot() { return (Slot*)mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static std::string read_file(const std::string& p) {
    std::string s;
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_RDONLY, 0);
    if (fd < 0) return s;
    char b[65536];
    ssize_t n;
    while ((n = syscall(SYS_read, fd, b, sizeof b)) > 0) s.append(b, n);
    syscall(SYS_close, fd);
    return s;
}
static void write_file(const std::string& p, const std::string& s) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd < 0) return;
    size_t o = 0;
    while (o < s.size()) { ssize_t n = syscall(SYS_write, fd, s.data() + o, s.size() - o); if (n <= 0) break; o += n; }
    syscall(SYS_close, fd);
}
// What an ended child says about itself: class and message, or "" if all is well.
static Violation classify(int status, Slot* sl, const std::string& errfile, bool timed_out) {
    if (sl->have_viol) return {sl->cls, sl->msg};
    if (timed_out) return {"stall", "the run made no progress"};
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0) return {"", ""};
    std::string err = read_file(errfile);
    size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos) {
        std::string k = err.substr(p + 25, 60);
        k = k.substr(0, k.find_first_of(" \n("));
        std::string where;
        size_t q = p;
        for (int i = 0; i < 12; i++) {
            q = err.find("\n    #", q + 1);
            if (q == std::string::npos) break;
            std::string line = err.substr(q + 1, err.find('\n', q + 1) - q - 1);
            if (line.find("boost/astronomy") != std::string::npos) { where = line; break; }
        }
        return {"memory-error:" + k, err.substr(p, 400) + (where.empty() ? "" : " ... " + where)};
    }
    p = err.find("runtime error: ");
    if (p != std::string::npos) return {"undefined-behaviour", err.substr(p, 300)};
    p = err.find("Assertion '");
    if (p != std::string::npos) return {"assertion", err.substr(p > 300 ? p - 300 : 0, 700)};
    if (WIFSIGNALED(status)) {
        if (WTERMSIG(status) == SIGXCPU || (WTERMSIG(status) == SIGKILL && err.empty())) return {"hang-cpu", fmt("the run did not end (signal %d)", WTERMSIG(status))};
        return {fmt("crash:signal-%d", WTERMSIG(status)), "process killed: " + err.substr(0, 400)};
    }
    return {fmt("crash:exit-%d", WEXITSTATUS(status)), err.substr(0, 400)};
}
static void redirect_stderr(const std::string& f) {
    int fd = (int)syscall(SYS_openat, AT_FDCWD, f.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
}

struct Replay {
    std::vector<uint64_t> prefix;   // fresh runs (by index) executed before, in the same process
    std::vector<uint32_t> t[NTAPES];
    size_t size() const { return t[0].size() + t[1].size() + t[2].size(); }
};
static std::string g_tmp;
// Executes a replay in a child process. Gives the violation (cls empty: none) and the log hash.
static Violation attempt(const Replay& r, Slot* sl, uint64_t* hash, Replay* used, const char* trace, unsigned cpu) {
    memset(sl, 0, offsetof(Slot, tp));
    sl->have_viol = 0; sl->cls[0] = 0;
    std::string err = g_tmp + "/attempt.err";
    pid_t pid = fork();
    if (pid == 0) {
        redirect_stderr(err);
        g_cpu_limit = cpu;
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        g_slot = sl;
        warm_up();
        if (!sl->have_viol) {
            for (uint64_t i : r.prefix) { seed_tapes(i); exec_run(); if (g_viol) _exit(3); }
            for (int i = 0; i < NTAPES; i++) { tapes[i] = Tape(); tapes[i].which = i; tapes[i].replay = true; tapes[i].v = r.t[i]; }
            g_mirror = true;
            if (trace) { g_trace = true; g_trace_path = trace; g_trace_text = new std::string; }
            exec_run();
            if (g_viol) slot_violation(g_viol->cls.c_str(), g_viol->msg.c_str());
            sl->viol_hash = g_loghash;
            write_trace_file();
        }
        flush_stats_to_slot();
        _exit(sl->have_viol ? 1 : 0);
    }
    int st = 0;
    bool to = false;
    double t0 = now();
    for (;;) {
        pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) break;
        if (now() - t0 > cpu * 6 + 60) { kill(pid, SIGKILL); waitpid(pid, &st, 0); to = true; break; }
        usleep(now() - t0 < 0.05 ? 300 : 3000);
    }
    Violation v = classify(st, sl, err, to);
    if (hash) *hash = sl->viol_hash;
    if (used) {
        used->prefix = r.prefix;
        for (int i = 0; i < NTAPES; i++) {
            size_t n = std::min<size_t>((size_t)sl->ntape[i], SHARED_TAPE);
            used->t[i].assign(sl->tp[i], sl->tp[i] + n);
            while (!used->t[i].empty() && used->t[i].back() == 0) used->t[i].pop_back();
        }
    }
    return v;
}
static std::string replay_json(const Replay& r, const char* prop, const Violation& v, uint64_t hash, uint64_t index, const std::string& trace) {
    std::string s = fmt("{\"property\": \"%s\", \"seed\": %llu, \"run_index\": %llu, \"log_hash\": \"%016llx\",\n", prop, (unsigned long long)g_seed, (unsigned long long)index, (unsigned long long)hash);
    s += " \"class\": \"" + json_escape(v.cls) + "\",\n \"violation\": \"" + json_escape(v.msg) + "\",\n \"prefix_runs\": [";
    for (size_t i = 0; i < r.prefix.size(); i++) s += (i ? "," : "") + std::to_string(r.prefix[i]);
    s += "]";
    static const char* nm[] = {"work", "fault", "sched"};
    for (int i = 0; i < NTAPES; i++) {
        s += fmt(",\n \"tape_%s\": [", nm[i]);
        for (size_t k = 0; k < r.t[i].size(); k++) s += (k ? "," : "") + std::to_string(r.t[i][k]);
        s += "]";
    }
    s += ",\n \"trace\": [\n";
    size_t p = 0;
    bool first = true;
    while (p < trace.size()) {
        size_t e = trace.find('\n', p);
        if (e == std::string::npos) e = trace.size();
        s += (first ? "  \"" : ",\n  \"") + json_escape(trace.substr(p, e - p)) + "\"";
        first = false;
        p = e + 1;
    }
    s += "\n ]}\n";
    return s;
}
static std::vector<uint64_t> parse_list(const std::string& s, const char* key) {
    std::vector<uint64_t> r;
    size_t p = s.find(std::string("\"") + key + "\": [");
    if (p == std::string::npos) return r;
    p = s.find('[', p) + 1;
    while (p < s.size() && s[p] != ']') {
        char* e;
        unsigned long long x = strtoull(s.c_str() + p, &e, 10);
        if (e == s.c_str() + p) { p++; continue; }
        r.push_back(x);
        p = e - s.c_str();
    }
    return r;
}
static bool load_replay(const std::string& f, Replay& r, uint64_t& hash, std::string& cls) {
    std::string s = read_file(f);
    if (s.empty()) return false;
    r.prefix = parse_list(s, "prefix_runs");
    static const char* nm[] = {"tape_work", "tape_fault", "tape_sched"};
    for (int i = 0; i < NTAPES; i++) { auto l = parse_list(s, nm[i]); r.t[i].assign(l.begin(), l.end()); }
    size_t p = s.find("\"seed\": ");
    g_seed = p == std::string::npos ? 1 : strtoull(s.c_str() + p + 8, nullptr, 10);
    p = s.find("\"log_hash\": \"");
    hash = p == std::string::npos ? 0 : strtoull(s.c_str() + p + 13, nullptr, 16);
    p = s.find("\"class\": \"");
    cls = p == std::string::npos ? "" : s.substr(p + 10, s.find('"', p + 10) - p - 10);
    return true;
}

static Replay minimise(Replay best, const std::string& cls, Slot* sl, double until, uint64_t& tries) {
    auto try_it = [&](const Replay& c) -> bool {
        tries++;
        Replay used;
        uint64_t h;
        Violation v = attempt(c, sl, &h, &used, nullptr, 20);
        if (v.cls != cls) return false;
        if (used.size() > best.size()) return false;
        best = used;
        return true;
    };
    bool progress = true;
    while (progress && now() < until) {
        progress = false;
        // whole tapes first: no faults, no preemption
        for (int i = NTAPES - 1; i >= 0 && now() < until; i--) {
            if (best.t[i].empty()) continue;
            Replay c = best;
            c.t[i].clear();
            if (try_it(c)) progress = true;
        }
        for (int i = 0; i < NTAPES; i++) {
            for (size_t len = std::max<size_t>(1, best.t[i].size() / 2); len >= 1 && now() < until; len /= 2) {
                for (size_t p = 0; p < best.t[i].size() && now() < until;) {
                    Replay c = best;
                    size_t e = std::min(p + len, c.t[i].size());
                    c.t[i].erase(c.t[i].begin() + p, c.t[i].begin() + e);
                    size_t before = best.size();
                    if (try_it(c) && best.size() < before) { progress = true; continue; }
                    c = best;
                    bool any = false;
                    for (size_t k = p; k < std::min(p + len, c.t[i].size()); k++) if (c.t[i][k]) { c.t[i][k] = 0; any = true; }
                    if (any && try_it(c)) progress = true;
                    p += len;
                }
                if (len == 1) break;
            }
            for (size_t p = 0; p < best.t[i].size() && now() < until; p++) {
                uint32_t lo = 0;
                while (p < best.t[i].size() && best.t[i][p] > lo && now() < until) {
                    Replay c = best;
                    uint32_t x = best.t[i][p], m = lo + (x - lo) / 2;
                    c.t[i][p] = m;
                    if (try_it(c)) progress = true;
                    else if (m == lo && x - lo <= 1) break;
                    else lo = m + 1 > x ? x : m + 1;
                    if (p >= best.t[i].size()) break;
                }
            }
        }
        if (best.size() > 4000) break;
    }
    return best;
}

int sim_main(int argc, char** argv, const char* prop, RunFn fn) {
    g_fn = fn;
    g_prop_hash = 7;
    for (const char* p = prop; *p; p++) g_prop_hash = mix(g_prop_hash ^ (uint8_t)*p);
    // the same addresses in every process, so that code that looks at addresses repeats too
    g_slow_log = getenv("SIM_SLOW");
    if (!getenv("SIM_FIXED")) {
        setenv("SIM_FIXED", "1", 1);
        int was = personality(0xffffffff);
        if (was != -1 && personality(was | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    std::map<std::string, std::string> a;
    for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
    std::string mode = argc > 1 ? argv[1] : "";
    g_tmp = a.count("--tmp") ? a["--tmp"] : "/tmp";
    if (a.count("--seed")) g_seed = strtoull(a["--seed"].c_str(), nullptr, 10);
    setvbuf(stdout, nullptr, _IOLBF, 0);

    if (mode == "replay") {
        Replay r;
        uint64_t h = 0, got = 0;
        std::string cls;
        if (!load_replay(a["--file"], r, h, cls)) { printf("cannot read %s\n", a["--file"].c_str()); return 2; }
        Slot* sl = make_slot();
        std::string tr = g_tmp + "/replay.trace";
        Violation v = attempt(r, sl, &got, nullptr, a.count("--quiet") ? nullptr : tr.c_str(), 60);
        if (!a.count("--quiet")) printf("%s", read_file(tr).c_str());
        bool same = v.cls == cls && (got == h || cls.find("memory-error") == 0 || cls.find("crash") == 0 || cls.find("hang-cpu") == 0 || cls == "stall" || cls == "assertion" || cls == "undefined-behaviour");
        printf("RESULT class=%s hash=%016llx expected class=%s hash=%016llx %s\n%s\n", v.cls.empty() ? "none" : v.cls.c_str(), (unsigned long long)got, cls.c_str(), (unsigned long long)h, same ? "REPRODUCED" : "DIFFERENT", v.msg.c_str());
        return v.cls.empty() ? 0 : same ? 1 : 3;
    }
    if (mode == "hashes") { // determinism self-test: prints the log hash of every run
        uint64_t n = strtoull(a["--runs"].c_str(), nullptr, 10), first = a.count("--first") ? strtoull(a["--first"].c_str(), nullptr, 10) : 0;
        g_slot = make_slot();
        warm_up();
        for (uint64_t i = first; i < first + n; i++) {
            seed_tapes(i);
            exec_run();
            printf("%llu %016llx %s\n", (unsigned long long)i, (unsigned long long)g_loghash, g_viol ? g_viol->cls.c_str() : "-");
        }
        return 0;
    }
    if (mode == "show") { // one fresh run with its trace
        uint64_t i = strtoull(a["--index"].c_str(), nullptr, 10);
        g_slot = make_slot();
        warm_up();
        seed_tapes(i);
        g_trace = true;
        g_trace_text = new std::string;
        exec_run();
        printf("%s%s %s\n", g_trace_text->c_str(), g_viol ? g_viol->cls.c_str() : "ok", g_viol ? g_viol->msg.c_str() : "");
        return 0;
    }
    if (mode != "explore") { printf("usage: explore|replay|hashes|show\n"); return 2; }

    uint64_t runs = strtoull(a["--runs"].c_str(), nullptr, 10);
    int jobs = a.count("--jobs") ? atoi(a["--jobs"].c_str()) : 8;
    double wall = a.count("--wall") ? atof(a["--wall"].c_str()) : 60;
    double shrink_wall = a.count("--shrink") ? atof(a["--shrink"].c_str()) : 60;
    uint64_t nb = (runs + BATCH - 1) / BATCH;
    double t0 = now();
    struct Job { pid_t pid = 0; uint64_t batch = 0; Slot* sl = nullptr; std::string err; double last = 0; uint64_t lastdone = 0; };
    std::vector<Job> js(jobs);
    for (int i = 0; i < jobs; i++) { js[i].sl = make_slot(); js[i].err = g_tmp + fmt("/w%d.err", i); }
    Stats total;
    uint64_t done = 0, events = 0, nontriv = 0;
    std::set<uint64_t> hashes, scheds;
    std::string sample;
    uint64_t next = 0;
    bool found = false;
    uint64_t f_index = 0, f_batch = 0;
    Violation f_v;
    auto collect = [&](Job& j, int st, bool to) {
        Slot* s = j.sl;
        Violation v = classify(st, s, j.err, to);
        for (uint64_t i = 0; i < s->done; i++) { if (s->nontrivial[i]) { nontriv++; hashes.insert(s->hashes[i]); } if (s->sched[i]) scheds.insert(s->sched[i]); }
        done += s->done;
        events += s->events;
        if (s->sample[0]) sample = s->sample;
        for (int i = 0; i < NFAULT; i++) total.faults[i] += s->faults[i];
        for (int i = 0; i < NSYS; i++) total.syscalls[i] += s->syscalls[i];
        total.allocs += s->allocs; total.switches += s->switches; total.sim_us += s->sim_us; total.ops += s->ops; total.checks += s->checks;
        std::string p = s->probes;
        size_t q = 0;
        while (q < p.size()) {
            size_t e = p.find('\n', q);
            if (e == std::string::npos) break;
            std::string l = p.substr(q, e - q);
            size_t eq = l.rfind('=');
            if (eq != std::string::npos) total.probes[l.substr(0, eq)] += strtoull(l.c_str() + eq + 1, nullptr, 10);
            q = e + 1;
        }
        if (!v.cls.empty()) {
            uint64_t idx = s->have_viol ? s->viol_index : s->cur;
            if (!found || idx < f_index) { found = true; f_index = idx; f_batch = j.batch; f_v = v; }
        }
        j.pid = 0;
    };
    for (;;) {
        bool busy = false;
        for (auto& j : js) {
            if (j.pid) {
                int st;
                pid_t w = waitpid(j.pid, &st, WNOHANG);
                if (w == j.pid) collect(j, st, false);
                else {
                    uint64_t d = j.sl->done;
                    if (d != j.lastdone) { j.lastdone = d; j.last = now(); }
                    if (now() - j.last > 240) { kill(j.pid, SIGKILL); waitpid(j.pid, &st, 0); collect(j, st, true); }
                    else if (found && j.batch > f_batch) { kill(j.pid, SIGKILL); waitpid(j.pid, &st, 0); j.pid = 0; }
                }
            }
            if (!j.pid && next < nb && !found && now() - t0 < wall) {
                memset((void*)j.sl, 0, offsetof(Slot, tp));
                j.sl->sample[0] = 0;
                j.batch = next++;
                j.last = now();
                j.lastdone = 0;
                j.pid = fork();
                if (j.pid == 0) {
                    redirect_stderr(j.err);
                    g_slot = j.sl;
                    uint64_t first = j.batch * BATCH;
                    batch_child(first, (int)std::min<uint64_t>(BATCH, runs - first), t0 + wall);
                }
            }
            if (j.pid) busy = true;
        }
        if (!busy && (found || next >= nb || now() - t0 >= wall)) break;
        usleep(500);
    }
    double explore_s = now() - t0;
    int rc = 0;
    std::string viol_json = "null";
    if (found) {
        printf("found class=%s at run %llu: %s\n", f_v.cls.c_str(), (unsigned long long)f_index, f_v.msg.c_str());
        Slot* sl = make_slot();
        // 1. the run alone in a fresh process; 2. preceded by the runs that came before it in its process
        Replay r, used;
        auto fresh_tapes = [&](uint64_t index) { // record the fresh run's choices in a child
            memset((void*)sl, 0, offsetof(Slot, tp));
            pid_t pid = fork();
            if (pid == 0) {
                redirect_stderr(g_tmp + "/rec.err");
                g_slot = sl;
                warm_up();
                if (!sl->have_viol) {
                    for (uint64_t i : r.prefix) { seed_tapes(i); exec_run(); }
                    g_mirror = true;
                    seed_tapes(index);
                    exec_run();
                }
                _exit(0);
            }
            int st;
            waitpid(pid, &st, 0);
            for (int i = 0; i < NTAPES; i++) r.t[i].assign(sl->tp[i], sl->tp[i] + std::min<size_t>((size_t)sl->ntape[i], SHARED_TAPE));
        };
        fresh_tapes(f_index);
        uint64_t h1 = 0, h2 = 0;
        Violation v1 = attempt(r, sl, &h1, &used, nullptr, 60);
        if (v1.cls != f_v.cls) {
            uint64_t first = f_batch * BATCH;
            for (uint64_t k = 1;; k *= 2) {
                r.prefix.clear();
                uint64_t lo = f_index - first > k ? f_index - k : first;
                for (uint64_t i = lo; i < f_index; i++) r.prefix.push_back(i);
                fresh_tapes(f_index);
                v1 = attempt(r, sl, &h1, &used, nullptr, 60);
                if (v1.cls == f_v.cls || lo == first) break;
            }
        }
        Violation v2 = attempt(r, sl, &h2, nullptr, nullptr, 60);
        bool hash_matters = f_v.cls.find("memory-error") != 0 && f_v.cls.find("crash") != 0 && f_v.cls.find("hang-cpu") != 0 && f_v.cls != "stall" && f_v.cls != "assertion" && f_v.cls != "undefined-behaviour";
        if (!v1.cls.empty() && v1.cls == v2.cls && hash_matters && h1 != h2) printf("the violation recurs, but its event log differs from run to run (%016llx, %016llx): the code under test is not deterministic\n", (unsigned long long)h1, (unsigned long long)h2);
        if (v1.cls.empty() || v1.cls != v2.cls) {
            printf("NOT REPRODUCIBLE: first %s, then %s (%016llx) and %s (%016llx)\n", f_v.cls.c_str(), v1.cls.c_str(), (unsigned long long)h1, v2.cls.c_str(), (unsigned long long)h2);
            rc = 2;
        } else {
            uint64_t tries = 0;
            size_t before = r.size();
            Replay m = minimise(used.size() ? used : r, v1.cls, sl, now() + shrink_wall, tries);
            std::string tr = g_tmp + "/min.trace";
            uint64_t h = 0;
            Violation v = attempt(m, sl, &h, nullptr, tr.c_str(), 60);
            if (v.cls != v1.cls) { m = r; v = attempt(m, sl, &h, nullptr, tr.c_str(), 60); }
            write_file(a["--replay-out"], replay_json(m, prop, v, h, f_index, read_file(tr)));
            printf("minimised %zu -> %zu choices in %llu attempts: class=%s %s\n", before, m.size(), (unsigned long long)tries, v.cls.c_str(), v.msg.c_str());
            viol_json = "{\"class\": \"" + json_escape(v.cls) + "\", \"message\": \"" + json_escape(v.msg) + "\", \"run_index\": " + std::to_string(f_index) + "}";
            rc = v.cls.empty() ? 2 : 1;
        }
    }
    std::string o = "{";
    o += fmt("\"runs\": %llu, \"planned\": %llu, \"wall_s\": %.3f, \"events\": %llu, \"nontrivial\": %llu, \"distinct\": %zu, \"distinct_schedules\": %zu, \"allocs\": %llu, \"switches\": %llu, \"sim_us\": %llu, \"ops\": %llu, \"checks\": %llu",
             (unsigned long long)done, (unsigned long long)runs, explore_s, (unsigned long long)events, (unsigned long long)nontriv, hashes.size(), scheds.size(), (unsigned long long)total.allocs, (unsigned long long)total.switches, (unsigned long long)total.sim_us, (unsigned long long)total.ops, (unsigned long long)total.checks);
    o += ", \"faults\": {";
    bool first = true;
    for (int i = 1; i < NFAULT; i++) if (total.faults[i]) { o += fmt("%s\"%s\": %llu", first ? "" : ", ", fault_name[i], (unsigned long long)total.faults[i]); first = false; }
    o += "}, \"syscalls\": {";
    first = true;
    for (int i = 0; i < NSYS; i++) { o += fmt("%s\"%s\": %llu", first ? "" : ", ", sys_name[i], (unsigned long long)total.syscalls[i]); first = false; }
    o += "}, \"probes\": {";
    first = true;
    for (auto& p : total.probes) { o += fmt("%s\"%s\": %llu", first ? "" : ", ", json_escape(p.first).c_str(), (unsigned long long)p.second); first = false; }
    o += "}, \"sample\": \"" + json_escape(sample) + "\", \"violation\": " + viol_json + "}\n";
    if (a.count("--out")) write_file(a["--out"], o);
    else printf("%s", o.c_str());
    return rc;
}
} // namespace sim

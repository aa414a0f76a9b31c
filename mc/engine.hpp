// Internal interface of the engine, shared by engine.cpp (exploration, memory, scheduling),
// os.cpp (fake operating system) and pmemobj.cpp (fake libpmemobj).
#pragma once
#include "mc.hpp"
#include "spec.hpp"
#include <cstring>
#include <memory>
#include <set>
#include <map>
#include <string>
#include <vector>

#define EXPORT extern "C" __attribute__((visibility("default")))

namespace mc
{
// ---- memory layout (fixed addresses) ----
const uintptr_t BASE = 0x200000000000ull;
const int MAXF = 12;                       // fibers
const size_t SUB = 8u << 20;               // arena bytes per fiber (+1 for load time)
const uintptr_t ARENA = BASE;
const size_t ARENA_SZ = SUB * (MAXF + 1);
const uintptr_t PM = ARENA + ARENA_SZ;     // persistent memory windows
const size_t PM_SZ = 128u << 20;
const uintptr_t STK = PM + PM_SZ;          // fiber stacks
const size_t STK_ONE = 512u << 10;
const size_t STK_SZ = STK_ONE * MAXF;
const size_t TOTAL = ARENA_SZ + PM_SZ + STK_SZ;

inline bool in_arena(uintptr_t a) { return a - ARENA < ARENA_SZ; }
inline bool in_pm(uintptr_t a) { return a - PM < PM_SZ; }
inline bool in_stk(uintptr_t a) { return a - STK < STK_SZ; }

enum BlockKind { READY, B_LOCK, B_COND, B_TLOCK, B_TCOND, B_JOIN, B_SPIN, B_ALLDONE, B_QUIESCE, DONE_, NONE_ };

struct Fiber
{
    void *sp = nullptr;
    BlockKind st = NONE_;
    uint64_t bobj = 0;    // lock address / joined fiber
    int bmode = 0;        // 0 exclusive, 1 shared
    uint64_t h = 0;       // hash of everything this fiber has observed
    uint64_t change_seen = 0;
    int spin = 0;
    bool signaled = false;
    int64_t clk = 0;      // ns this fiber has waited in timed operations
    bool harness = false; // one of the scenario's threads
    bool daemon = false;  // created by the code under test
    bool in_op = false;
    bool detached = false;
    uintptr_t bump = 0;   // allocation pointer in its sub-arena
    std::vector<unsigned char> tls;
    uint64_t cxa[2] = {0, 0};
    void *(*entry)(void *) = nullptr;
    void *arg = nullptr;
    void *ret = nullptr;
    std::vector<std::pair<void (*)(void *), void *>> atexit;
    std::vector<std::pair<uint64_t, void *>> keys; // pthread_setspecific
    std::vector<uint32_t> vc;
    int opidx = 0;
    uint32_t below = 0;      // fibers that go first because this one yielded (fair scheduling)
    bool yields = false;
    uint32_t ran = 0;        // fibers scheduled since its last yield
};

struct LockSt
{
    int owner = -1;
    int depth = 0;
    uint32_t readers = 0;
    bool recursive = false;
};

struct File
{
    std::string name;
    bool dir = false;
    uint64_t size = 0;
    uintptr_t base = 0; // content lives here (PM window)
    size_t cap = 0;
    int maps = 0;
    int nlink = 1;
};
struct Fd
{
    int file = -1;
    uint64_t off = 0;
    std::vector<std::string> names; // directory listing
    size_t pos = 0;
};
struct Map_
{
    uintptr_t a = 0;
    size_t n = 0;
    int file = -1;
};

// Everything that a crash keeps.
struct FsState
{
    std::vector<File> files;
    std::map<std::string, int> names;
};
// What dies with the process.
struct ProcState
{
    std::map<int, Fd> fds;
    std::vector<Map_> maps;
    int next_fd = 1000;
};

typedef std::array<unsigned char, 64> LineV;
struct PmLine
{
    uint64_t first = 0;        // absolute number of vs[0]; vs[0] is the guaranteed content
    std::vector<LineV> vs;
    std::vector<std::pair<int, uint64_t>> flushed; // (fiber, absolute version)
};

struct PmemState; // fake libpmemobj volatile state

// ---- engine services ----
extern Fiber fibers[MAXF];
bool op_running();     // the running fiber executes an operation of the scenario
extern int cur;        // running fiber, -1 = engine
extern int in_engine;  // >0: allocations go to the real heap, hooks are off
extern FsState fs;
extern ProcState proc;
extern std::map<uint64_t, LockSt> locks;
extern uintptr_t pm_bump;
extern const Scenario *sc;
extern int dir_order;

struct Guard
{
    Guard() { ++in_engine; }
    ~Guard() { --in_engine; }
};
inline bool active() { return cur >= 0 && in_engine == 0; }

void violation(const std::string &msg); // does not return when called in a fiber
void sched_point();
void block(BlockKind k, uint64_t obj, int mode); // returns when runnable again
void observe(uint64_t v);                        // the running fiber learned v
void note_change();
void will_write(uintptr_t a, size_t n);          // before a plain write
void check_access(uintptr_t a, size_t n, bool wr);
void shadow_set(uintptr_t a, size_t n, bool valid);
void priv_add(uintptr_t a, size_t n, bool pmfile);
void priv_publish(uint64_t v);
void priv_publish_mine();
void priv_forget(uintptr_t a, size_t n);
bool shadow_ok(uintptr_t a, size_t n);
void *arena_alloc(size_t n, size_t al = 16, bool zero = false);
void arena_free(void *p);
size_t arena_size(void *p);
int spawn(void *(*f)(void *), void *arg, bool harness);
void crash_event();                              // enumerate crash images of the present state
void pm_flush(uintptr_t a);
void pm_fence();
void do_write(void *d, const void *s, size_t n); // tracked copy by the engine on behalf of the code
void do_set(void *d, int c, size_t n);
void ghost(uintptr_t p, size_t n); // no data race here matters
void hb_acquire(uint64_t obj);
void hb_release(uint64_t obj);
void pmem_restart();                             // fake libpmemobj: process restart
void pmem_set_snapshot(int which);               // save volatile state
void pmem_get_snapshot(int which);
uint64_t pmem_hash();
void pmem_cold();                                // an empty machine
bool pmem_live_lines(uintptr_t &base, std::vector<bool> &live);
uint64_t pmem_persist_hash();                    // what a crash keeps of the pool's metadata
std::shared_ptr<void> pmem_persist_copy();
void pmem_persist_install(const std::shared_ptr<void> &);
void pm_certain(uintptr_t a, size_t n);          // the present content is persistent
void pm_garbage(uintptr_t a, size_t n, int c);   // fresh memory
uintptr_t pm_window(size_t n);
void fs_init();
int choose(int n);
} // namespace mc

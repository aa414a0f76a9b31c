// Stateless model checker for real C++ code: controlled scheduling, state caching, crash-image
// enumeration. One operating-system thread; every thread of the code under test is a fiber.
#include "engine.hpp"
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" void *__tls_get_addr(void *);
EXPORT void mc_switch(void **save, void *to);
asm(R"(
.globl mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.globl mc_boot
mc_boot:
  xorl %ebp,%ebp
  call mc_fiber_main
  ud2
)");
extern "C" void mc_boot();

static FILE *elog()
{
    static FILE *f;
    if (!f)
    {
        f = fopen("/dev/null", "w");
        const char *e = getenv("MC_ELOG_FD");
        if (e) f = fdopen(atoi(e), "w");
        if (f) setvbuf(f, nullptr, _IONBF, 0);
    }
    return f;
}
namespace mc
{
Fiber fibers[MAXF];
int cur = -1;
int in_engine = 0;
FsState fs;
ProcState proc;
std::map<uint64_t, LockSt> locks;
uintptr_t pm_bump; // offset of the next free window inside a half
const Scenario *sc;
int dir_order;

static Harness *harness;
static std::unique_ptr<Spec> spec;
static void *engine_sp;
static uint64_t g_change;
static bool load_mode;
static uintptr_t load_bump, s0_bump;
static std::vector<unsigned char> s0_load, s0_lsh;

// ---- instrumented library image ----
struct Seg
{
    uintptr_t a;
    size_t n;
    std::vector<unsigned char> s0;
    std::vector<uint64_t> lh;
    std::vector<unsigned char> fl;
};
static std::vector<Seg> segs;
static unsigned char *tls_block;
static size_t tls_size;
static std::vector<unsigned char> tls_init;

// ---- memory hash ----
static uint64_t *big_lh;
static unsigned char *big_fl; // 1 = dirty, 2 = touched since restore, 4 = foreign stack line
static std::vector<uintptr_t> dirty;
static std::vector<std::pair<uintptr_t, uint64_t>> touched;
static uint64_t memhash;
static unsigned char *shadow;

static inline bool line_slot(uintptr_t a, uint64_t *&lh, unsigned char *&fl)
{
    if (a - BASE < TOTAL)
    {
        lh = &big_lh[(a - BASE) >> 6];
        fl = &big_fl[(a - BASE) >> 6];
        return true;
    }
    for (auto &s : segs)
        if (a - s.a < s.n)
        {
            lh = &s.lh[((a & ~63ull) - (s.a & ~63ull)) >> 6];
            fl = &s.fl[((a & ~63ull) - (s.a & ~63ull)) >> 6];
            return true;
        }
    return false;
}
static inline void mark(uintptr_t a, size_t n)
{
    for (uintptr_t l = a & ~63ull; l < a + n; l += 64)
    {
        uint64_t *lh;
        unsigned char *fl;
        if (!line_slot(l < a ? a : l, lh, fl)) return;
        if (!(*fl & 2))
        {
            *fl |= 2;
            touched.push_back({l, *lh});
        }
        if (!(*fl & 1))
        {
            *fl |= 1;
            dirty.push_back(l);
        }
    }
}
static uint64_t line_hash(uintptr_t l)
{
    uint64_t w[8], any = 0, h = l * 0x9e3779b97f4a7c15ull;
    memcpy(w, (void *)l, 64);
    for (int i = 0; i < 8; ++i)
    {
        any |= w[i];
        h = (h ^ w[i]) * 0xff51afd7ed558ccdull;
        h ^= h >> 29;
    }
    return any ? mix64(h) : 0;
}
static void rehash()
{
    for (auto l : dirty)
    {
        uint64_t *lh;
        unsigned char *fl;
        uintptr_t a = l;
        if (!line_slot(a, lh, fl)) // first line of an unaligned segment
            for (auto &s : segs)
                if (s.a > l && s.a - l < 64) line_slot(s.a, lh, fl);
        uint64_t nh = line_hash(l);
        memhash ^= *lh ^ nh;
        *lh = nh;
        *fl &= ~1;
    }
    dirty.clear();
}

// ---- exploration state ----
struct Choice
{
    bool sched;
    unsigned short n, chosen;
    bool costly; // alternatives other than 0 are preemptions
    unsigned char alt[MAXF];
    int pre; // preemptions before this point
};
static std::vector<Choice> stack;
static size_t depth_; // next choice of the present run
static int preempts;
static size_t replay_len;
struct Visited // open addressing: state hash -> least preemptions (or minus remaining depth)
{
    std::vector<uint64_t> k;
    std::vector<int16_t> v;
    size_t n = 0;
    Visited() : k(1 << 16), v(1 << 16) {}
    size_t size() const { return n; }
    int16_t *at(uint64_t key, bool &fresh)
    {
        if (!key) key = 1;
        if (n * 10 > k.size() * 6)
        {
            std::vector<uint64_t> ok(k.size() * 2);
            std::vector<int16_t> ov(ok.size());
            ok.swap(k);
            ov.swap(v);
            for (size_t i = 0; i < ok.size(); ++i)
                if (ok[i])
                {
                    size_t j = ok[i] & (k.size() - 1);
                    while (k[j]) j = (j + 1) & (k.size() - 1);
                    k[j] = ok[i];
                    v[j] = ov[i];
                }
        }
        size_t j = key & (k.size() - 1);
        while (k[j] && k[j] != key) j = (j + 1) & (k.size() - 1);
        fresh = !k[j];
        if (fresh)
        {
            k[j] = key;
            ++n;
        }
        return &v[j];
    }
};
static Visited visited;
static std::vector<int> forced; // recorded choices being replayed
static bool use_cache = true;
static bool replaying;

enum RunEnd { END_OK, END_PRUNED, END_VIOLATION, END_SNAP, END_RECOVERED };
static RunEnd run_end;
static std::string vio_msg;
static long steps_run;
enum Phase { P_MAIN, P_RECOVERY, P_SETUP };
static Phase phase;

struct Stats
{
    long executions = 0, steps = 0, pruned = 0, states = 0, choices = 0;
    long crash_events = 0, crash_dups = 0, images = 0, recoveries = 0, nested = 0, crash_caps = 0, lin_checks = 0;
    long sequences = 0, replays_ok = 0, max_steps = 0;
    std::unordered_set<uint64_t> outcomes;
    bool capped = false;
} stats;

// ---- history ----
struct Hist
{
    State start;
    std::vector<OpRec> win; // concurrent window
    std::vector<OpRec> obs; // sequential tail
    std::vector<OpRec> before; // sequential prefix already folded into start (for display)
    uint64_t hh = 0;
};
static Hist hist;
static bool in_window, collecting_obs;

// ---- persistent memory ----
static std::map<uintptr_t, PmLine> pml; // line -> versions beyond the guaranteed one
static std::vector<uintptr_t> pm_pending;
static std::set<uintptr_t> pm_flushing; // lines with outstanding flushes
static bool half; // which half of the PM region files live in
const size_t HALF = PM_SZ / 2;
static size_t pm_high;    // highest pm_bump since the snapshot
static bool other_dirty;  // the half that the snapshot does not use has content

struct LineChoice
{
    uintptr_t line; // relative to the half
    std::vector<LineV> alts;
};
struct CrashEvent
{
    std::vector<unsigned char> image; // guaranteed content, relative to the half
    std::vector<LineChoice> lines;
    FsState fs;
    uintptr_t bump;
    bool half;
    Hist hist;
    int level;
    std::shared_ptr<void> pmem;
    uint64_t pmh;
    std::vector<int> path; // for the replay file: event ordinal(s)
};
static std::vector<CrashEvent> events;
static std::unordered_set<uint64_t> seen_events, seen_images;
static long event_ordinal; // counts crash events inside one run, for replay
static int crash_level;
static bool crash_on;

// ---- helpers ----
static void to_engine()
{
    int me = cur;
    cur = -1;
    void *dummy;
    void **save = me >= 0 ? &fibers[me].sp : &dummy;
    int ie = in_engine;
    mc_switch(save, engine_sp);
    in_engine = ie;
}

static bool violated;
void violation(const std::string &msg)
{
    ++in_engine;
    if (!violated)
    {
        violated = true;
        vio_msg = msg;
    }
    run_end = END_VIOLATION;
    if (cur >= 0)
    {
        to_engine();
        abort();
    }
    --in_engine;
}

static inline bool own_stack(uintptr_t a)
{
    return cur >= 0 && a - (STK + cur * STK_ONE) < STK_ONE;
}

void observe(uint64_t v)
{
    if (cur >= 0) fibers[cur].h = hcomb(fibers[cur].h, v);
}
void note_change() { ++g_change; }

// ---- shadow memory ----
void shadow_set(uintptr_t a, size_t n, bool valid)
{
    uintptr_t o = a - BASE;
    for (size_t i = 0; i < n;)
    {
        if (((o + i) & 7) == 0 && n - i >= 8)
        {
            size_t k = (n - i) / 8;
            memset(shadow + (o + i) / 8, valid ? 0xff : 0, k);
            i += k * 8;
        }
        else
        {
            unsigned char m = 1u << ((o + i) & 7);
            if (valid) shadow[(o + i) / 8] |= m;
            else shadow[(o + i) / 8] &= ~m;
            ++i;
        }
    }
}
bool shadow_ok(uintptr_t a, size_t n)
{
    uintptr_t o = a - BASE;
    if ((o & 7) + n <= 8)
    {
        unsigned m = ((1u << n) - 1) << (o & 7);
        return (shadow[o / 8] & m) == m;
    }
    for (size_t i = 0; i < n; ++i)
        if (!(shadow[(o + i) / 8] >> ((o + i) & 7) & 1)) return false;
    return true;
}
static std::string hex(uint64_t v)
{
    char b[32];
    snprintf(b, sizeof b, "0x%lx", v);
    return b;
}
void check_access(uintptr_t a, size_t n, bool wr)
{
    if (a - BASE >= ARENA_SZ + PM_SZ) return;
    if (!sc->memcheck) return;
    if (!shadow_ok(a, n))
        violation(std::string("memory safety: ") + (wr ? "write" : "read") + " of " + std::to_string(n) + " bytes " +
                  (in_arena(a) ? "of heap memory" : "of persistent memory") + " that is not allocated/mapped (out of bounds or after free/unmap)");
}

// ---- arena ----
static void priv_del(uintptr_t a);
struct BlkHdr
{
    uint32_t magic;
    uint32_t size;
    uint64_t pad;
};
static long heap_live;
void *arena_alloc(size_t n, size_t al, bool)
{
    Guard g;
    int f = cur >= 0 ? cur : MAXF;
    uintptr_t &b = cur >= 0 ? fibers[cur].bump : load_bump;
    uintptr_t p = ARENA + f * SUB + b + sizeof(BlkHdr) + 16;
    if (al < 16) al = 16;
    p = (p + al - 1) & ~(al - 1);
    if (p + n + 16 > ARENA + (f + 1) * SUB)
    {
        violation("heap arena exhausted (unbounded allocation)");
        return nullptr;
    }
    BlkHdr *h = (BlkHdr *)(p - sizeof(BlkHdr));
    h->magic = 0xA110CA7E;
    h->size = n;
    mark((uintptr_t)h, sizeof *h);
    b = p + ((n + 15) & ~15ull) - (ARENA + f * SUB);
    shadow_set(p, n, true);
    priv_add(p, n, false);
    ++heap_live;
    return (void *)p;
}
void arena_free(void *p)
{
    Guard g;
    BlkHdr *h = (BlkHdr *)((uintptr_t)p - sizeof(BlkHdr));
    if (h->magic == 0xDEADF4EE) { violation("memory safety: double free"); return; }
    if (h->magic != 0xA110CA7E) { violation("memory safety: free of a pointer that was not allocated"); return; }
    h->magic = 0xDEADF4EE;
    mark((uintptr_t)h, sizeof *h);
    shadow_set((uintptr_t)p, h->size, false);
    priv_del((uintptr_t)p);
    --heap_live;
}
size_t arena_size(void *p) { return ((BlkHdr *)((uintptr_t)p - sizeof(BlkHdr)))->size; }

// ---- blocks that only their creator can reach ----
// Memory allocated by a scenario thread is private until a pointer into it is stored somewhere another
// thread could find it. Accesses to private memory commute with everything the other threads do, so they
// are not scheduling points.
static unsigned char *priv; // per 16 bytes: owner + 1
struct PrivBlk { size_t n; int owner; };
static std::map<uintptr_t, PrivBlk> priv_blks;
static bool priv_on() { return in_window && sc->priv && cur >= 0 && fibers[cur].harness; }
static void priv_set(uintptr_t a, size_t n, int v) { memset(priv + (a - BASE) / 16, v, (n + 15) / 16); }
void priv_add(uintptr_t a, size_t n, bool pmfile)
{
    if (!priv_on() || (pmfile && crash_on) || n == 0) return;
    priv_set(a, n, cur + 1);
    priv_blks[a] = {n, cur};
}
static void priv_del(uintptr_t a)
{
    auto it = priv_blks.find(a);
    if (it == priv_blks.end()) return;
    priv_set(a, it->second.n, 0);
    priv_blks.erase(it);
}
void priv_forget(uintptr_t a, size_t n) // everything in the range becomes public (with what it refers to)
{
    std::vector<uintptr_t> todo;
    for (auto &b : priv_blks)
        if (b.first < a + n && a < b.first + b.second.n) todo.push_back(b.first);
    for (auto t : todo) priv_publish(t);
}
void priv_publish(uint64_t v)
{
    v &= ~7ull;
    if (v - BASE >= ARENA_SZ + PM_SZ || !priv[(v - BASE) / 16]) return;
    auto it = priv_blks.upper_bound(v);
    if (it == priv_blks.begin()) return;
    --it;
    if (v >= it->first + it->second.n) return;
    uintptr_t a = it->first;
    size_t n = it->second.n;
    priv_del(a);
    if (!in_arena(a)) return; // table files hold no pointers
    for (size_t i = 0; i + 8 <= n; i += 8) priv_publish(*(uint64_t *)(a + i));
}
void priv_publish_mine()
{
    std::vector<uintptr_t> todo;
    for (auto &b : priv_blks)
        if (b.second.owner == cur) todo.push_back(b.first);
    for (auto t : todo) priv_del(t);
}
static void priv_clear()
{
    for (auto &b : priv_blks) priv_set(b.first, b.second.n, 0);
    priv_blks.clear();
}
static inline bool priv_mine(uintptr_t a)
{
    return !priv_blks.empty() && a - BASE < ARENA_SZ + PM_SZ && priv[(a - BASE) / 16] == cur + 1;
}
static inline bool my_tls(uintptr_t a) { return a - (uintptr_t)tls_block < tls_size; }

// ---- persistent memory versions ----
static LineV line_now(uintptr_t l)
{
    LineV v;
    memcpy(v.data(), (void *)l, 64);
    return v;
}
static void pm_settle()
{
    if (pm_pending.empty()) return;
    for (auto l : pm_pending)
    {
        auto &pl = pml[l];
        LineV v = line_now(l);
        if (pl.vs.back() != v) pl.vs.push_back(v);
    }
    pm_pending.clear();
}
static void pm_before(uintptr_t a, size_t n)
{
    for (uintptr_t l = a & ~63ull; l < a + n; l += 64)
    {
        auto it = pml.find(l);
        if (it == pml.end())
        {
            PmLine p;
            p.vs.push_back(line_now(l));
            pml.emplace(l, std::move(p));
        }
        pm_pending.push_back(l);
    }
}
void pm_flush(uintptr_t a)
{
    if (!in_pm(a) || !crash_on) return;
    Guard g;
    pm_settle();
    uintptr_t l = a & ~63ull;
    auto it = pml.find(l);
    if (it == pml.end()) return;
    PmLine &p = it->second;
    uint64_t v = p.first + p.vs.size() - 1;
    for (auto &f : p.flushed)
        if (f.first == cur)
        {
            f.second = v;
            return;
        }
    p.flushed.push_back({cur, v});
    pm_flushing.insert(l);
}
void pm_fence()
{
    if (!crash_on) return;
    Guard g;
    pm_settle();
    bool any = false;
    for (auto l : pm_flushing)
        for (auto &f : pml[l].flushed)
            if (f.first == cur && f.second > pml[l].first) any = true;
    if (any) crash_event();
    for (auto it = pm_flushing.begin(); it != pm_flushing.end();)
    {
        auto pit = pml.find(*it);
        PmLine &p = pit->second;
        for (size_t i = 0; i < p.flushed.size();)
        {
            if (p.flushed[i].first != cur) { ++i; continue; }
            uint64_t v = p.flushed[i].second;
            if (v > p.first)
            {
                p.vs.erase(p.vs.begin(), p.vs.begin() + (v - p.first));
                p.first = v;
            }
            p.flushed.erase(p.flushed.begin() + i);
        }
        bool idle = p.flushed.empty();
        if (idle && p.vs.size() == 1) pml.erase(pit);
        if (idle) it = pm_flushing.erase(it);
        else ++it;
    }
}
void pm_certain(uintptr_t a, size_t n)
{
    if (!crash_on) return;
    pm_settle();
    for (uintptr_t l = a & ~63ull; l < a + n; l += 64)
    {
        auto it = pml.find(l);
        if (it == pml.end()) continue;
        PmLine &p = it->second;
        p.first += p.vs.size() - 1;
        p.vs.erase(p.vs.begin(), p.vs.end() - 1);
        if (p.flushed.empty()) pml.erase(it);
    }
}
void pm_garbage(uintptr_t a, size_t n, int c)
{
    pm_settle();
    memset((void *)a, c, n);
    mark(a, n);
}
static uint64_t pm_hash()
{
    pm_settle();
    uint64_t h = 0;
    for (auto &e : pml)
    {
        uint64_t x = e.first;
        for (auto &v : e.second.vs)
            for (int i = 0; i < 8; ++i)
            {
                uint64_t w;
                memcpy(&w, v.data() + 8 * i, 8);
                x = (x ^ w) * 0xff51afd7ed558ccdull;
                x ^= x >> 31;
            }
        for (auto &f : e.second.flushed)
            if (f.second > e.second.first || e.second.vs.size() > 1) x = hcomb(hcomb(x, f.first), f.second - e.second.first);
        if (e.second.vs.size() > 1) h ^= mix64(x);
    }
    return h;
}
static uint64_t fs_hash()
{
    uint64_t h = 0;
    for (auto &n : fs.names) h ^= hcomb(std::hash<std::string>{}(n.first), n.second * 1000003ull + fs.files[n.second].size);
    return h;
}

static size_t cold_high; // highest pm_bump ever
static uintptr_t half_base() { return PM + (half ? HALF : 0); }
uintptr_t pm_window(size_t n)
{
    uintptr_t a = half_base() + pm_bump;
    pm_bump += (n + 4095) & ~4095ull;
    if (pm_bump > pm_high) pm_high = pm_bump;
    if (pm_bump > cold_high) cold_high = pm_bump;
    if (pm_bump > HALF) violation("persistent memory exhausted");
    return a;
}

void crash_event()
{
    if (!crash_on) return;
    Guard g;
    pm_settle();
    // what makes a crash here different from one already examined
    uint64_t key = hcomb(hcomb(hcomb(hist.hh, fs_hash()), crash_level), pmem_persist_hash());
    size_t used = pm_bump;
    uintptr_t hb = half_base();
    std::vector<LineChoice> lines;
    std::map<uintptr_t, LineV> base;
    uint64_t k2 = 0;
    uintptr_t pb = 0;
    std::vector<bool> live;
    pmem_live_lines(pb, live);
    auto dead = [&](uintptr_t l) { return l - pb < live.size() * 64 && !live[(l - pb) >> 6]; };
    LineV junk;
    junk.fill(0xa5);
    for (auto &e : pml)
    {
        auto &p = e.second;
        if (dead(e.first)) continue;
        base[e.first] = p.vs[0];
        if (p.vs.size() == 1) continue;
        LineChoice c;
        c.line = e.first - hb;
        for (auto &v : p.vs)
        {
            bool dup = false;
            for (auto &w : c.alts) dup |= w == v;
            if (!dup) c.alts.push_back(v);
        }
        if (c.alts.size() < 2) continue;
        lines.push_back(c);
        uint64_t x = c.line;
        for (auto &v : c.alts)
            for (int i = 0; i < 8; ++i)
            {
                uint64_t w;
                memcpy(&w, v.data() + 8 * i, 8);
                x = hcomb(x, w);
            }
        k2 ^= x;
    }
    rehash();
    // contribution of the persistent lines to the memory hash, with guaranteed content in place
    uint64_t k3 = 0;
    for (uintptr_t l = hb; l < hb + used; l += 64)
    {
        if (dead(l)) continue;
        uint64_t lh = big_lh[(l - BASE) >> 6];
        auto it = base.find(l);
        if (it != base.end())
        {
            uint64_t x = l;
            for (int i = 0; i < 8; ++i)
            {
                uint64_t w;
                memcpy(&w, it->second.data() + 8 * i, 8);
                x = hcomb(x, w);
            }
            lh = mix64(x ^ 0x5555);
        }
        k3 ^= lh;
    }
    key = hcomb(hcomb(key, k2), k3);
    long ord = event_ordinal++;
    ++stats.crash_events;
    if (!seen_events.insert(key).second)
    {
        ++stats.crash_dups;
        return;
    }
    CrashEvent ev;
    ev.image.assign((unsigned char *)hb, (unsigned char *)hb + used);
    for (auto &b : base)
        if (b.first >= hb && b.first < hb + used) memcpy(&ev.image[b.first - hb], b.second.data(), 64);
    for (size_t i = 0; i < live.size(); ++i)
        if (!live[i] && pb + i * 64 >= hb && pb + i * 64 < hb + used) memcpy(&ev.image[pb + i * 64 - hb], junk.data(), 64);
    ev.lines = std::move(lines);
    ev.fs = fs;
    ev.bump = pm_bump;
    ev.half = half;
    ev.hist = hist;
    ev.pmem = pmem_persist_copy();
    ev.pmh = pmem_persist_hash();
    ev.level = crash_level;
    ev.path.push_back(ord);
    events.push_back(std::move(ev));
}

// ---- happens-before race detection ----
typedef std::vector<uint32_t> VC;
static std::map<uint64_t, VC> lock_vc;
struct RaceCell
{
    int wt = -1;
    uint32_t wc = 0;
    uint32_t r[MAXF] = {};
    uint32_t ac[MAXF] = {}; // atomic accesses (writes)
};
static std::unordered_map<uintptr_t, RaceCell> cells;
static void vc_join(VC &a, const VC &b)
{
    if (a.size() < b.size()) a.resize(b.size());
    for (size_t i = 0; i < b.size(); ++i)
        if (b[i] > a[i]) a[i] = b[i];
}
void hb_acquire(uint64_t o)
{
    if (!sc->race || cur < 0) return;
    auto it = lock_vc.find(o);
    if (it != lock_vc.end()) vc_join(fibers[cur].vc, it->second);
}
void hb_release(uint64_t o)
{
    if (!sc->race || cur < 0) return;
    vc_join(lock_vc[o], fibers[cur].vc);
    ++fibers[cur].vc[cur];
}
static std::map<uintptr_t, uintptr_t> ghosts; // begin -> end of memory of the harness only
void ghost(uintptr_t p, size_t n)
{
    Guard g;
    ghosts[p] = p + n;
}
EXPORT void mc_ghost(const void *p, size_t n) { ghost((uintptr_t)p, n); }
static void race_access(uintptr_t a, size_t n, bool wr, bool atomic)
{
    if (!ghosts.empty())
    {
        auto g = ghosts.upper_bound(a);
        if (g != ghosts.begin() && a < (--g)->second) return;
    }
    auto &vc = fibers[cur].vc;
    for (uintptr_t b = a; b < a + n; ++b)
    {
        RaceCell &c = cells[b];
        bool bad = false;
        if (c.wt >= 0 && c.wt != cur && c.wc > vc[c.wt]) bad = true;
        if (!atomic)
            for (int i = 0; i < MAXF; ++i)
                if (i != cur && c.ac[i] > vc[i]) bad = true;
        if (wr)
            for (int i = 0; i < MAXF; ++i)
                if (i != cur && c.r[i] > vc[i]) bad = true;
        if (bad)
            violation(std::string("data race: unsynchronised conflicting ") + (wr ? "write" : "read") + " of shared memory by two threads");
        if (atomic)
        {
            if (wr) c.ac[cur] = vc[cur];
        }
        else if (wr)
        {
            c.wt = cur;
            c.wc = vc[cur];
        }
        else c.r[cur] = vc[cur];
    }
}
static void race_forget(uintptr_t a, size_t n)
{
    for (uintptr_t b = a; b < a + n; ++b) cells.erase(b);
}

// ---- plain access hooks ----
static inline bool tracked(uintptr_t a)
{
    if (a - BASE < TOTAL) return true;
    for (auto &s : segs)
        if (a - s.a < s.n) return true;
    return false;
}
static inline void plain(uintptr_t a, size_t n, bool wr)
{
    if (cur < 0 || in_engine) return;
    if (!tracked(a)) return;
    ++in_engine;
    bool mine = own_stack(a);
    if (!mine)
    {
        if (sc->plain_points && !priv_mine(a)) sched_point();
        if (wr && !priv_blks.empty() && !priv_mine(a) && !my_tls(a)) priv_publish_mine(); // the value is not known here
        check_access(a, n, wr);
        if (sc->race && !in_stk(a)) race_access(a, n, wr, false);
    }
    if (wr)
    {
        if (!mine)
        {
            mark(a, n);
            if (in_pm(a) && crash_on)
            {
                pm_settle();
                pm_before(a, n);
            }
            ++g_change;
        }
    }
    else if (!mine)
    {
        uint64_t h = fibers[cur].h;
        for (size_t i = 0; i < n; i += 8)
        {
            uint64_t w = 0;
            memcpy(&w, (void *)(a + i), n - i < 8 ? n - i : 8);
            h = hcomb(h, w);
        }
        fibers[cur].h = h;
    }
    --in_engine;
}
void will_write(uintptr_t a, size_t n) { plain(a, n, true); }
void do_write(void *d, const void *s, size_t n)
{
    if (crash_on && in_pm((uintptr_t)d))
    {
        // within a cache line stores reach persistence in order, word by word
        Guard g;
        unsigned char *D = (unsigned char *)d;
        const unsigned char *S = (const unsigned char *)s;
        check_access((uintptr_t)d, n, true);
        for (size_t i = 0; i < n;)
        {
            size_t k = 8 - ((uintptr_t)(D + i) & 7);
            if (k > n - i) k = n - i;
            pm_settle();
            pm_before((uintptr_t)D + i, k);
            memcpy(D + i, S + i, k);
            i += k;
        }
        mark((uintptr_t)d, n);
        ++g_change;
        return;
    }
    {
        Guard g;
        check_access((uintptr_t)d, n, true);
        if (tracked((uintptr_t)d))
        {
            if (!priv_blks.empty() && !own_stack((uintptr_t)d) && !priv_mine((uintptr_t)d) && !my_tls((uintptr_t)d)) priv_publish_mine();
            mark((uintptr_t)d, n);
            ++g_change;
        }
    }
    memmove(d, s, n);
}
void do_set(void *d, int c, size_t n)
{
    if (crash_on && in_pm((uintptr_t)d))
    {
        std::vector<unsigned char> *b;
        {
            Guard g;
            b = new std::vector<unsigned char>(n, (unsigned char)c);
        }
        do_write(d, b->data(), n);
        Guard g;
        delete b;
        return;
    }
    {
        Guard g;
        check_access((uintptr_t)d, n, true);
        if (tracked((uintptr_t)d))
        {
            mark((uintptr_t)d, n);
            ++g_change;
        }
    }
    memset(d, c, n);
}

// ---- scheduling ----
static bool lock_free_for(const Fiber &f, int id)
{
    auto it = locks.find(f.bobj);
    if (it == locks.end()) return true;
    auto &l = it->second;
    if (f.bmode == 1) return l.owner < 0;
    return (l.owner < 0 && l.readers == 0) || (l.recursive && l.owner == id);
}
static bool enabled(int i)
{
    Fiber &f = fibers[i];
    switch (f.st)
    {
    case READY: return true;
    case B_LOCK: return lock_free_for(f, i);
    case B_COND: return f.signaled;
    case B_TLOCK:
    case B_TCOND: return true; // its time may run out at any moment
    case B_JOIN: return fibers[f.bobj].st == DONE_;
    case B_SPIN: return g_change != f.change_seen;
    case B_ALLDONE:
        for (int j = 0; j < MAXF; ++j)
            if (fibers[j].harness && fibers[j].st != DONE_) return false;
        return true;
    case B_QUIESCE:
        for (int j = 0; j < MAXF; ++j)
            if (j != i && fibers[j].st != NONE_ && fibers[j].st != DONE_ && enabled(j)) return false;
        return true;
    default: return false;
    }
}
static void save_ctx(Fiber &f)
{
    if (tls_size) memcpy(f.tls.data(), tls_block, tls_size);
    memcpy(f.cxa, abi::__cxa_get_globals(), 16);
}
static void load_ctx(Fiber &f)
{
    if (tls_size) memcpy(tls_block, f.tls.data(), tls_size);
    memcpy((void *)abi::__cxa_get_globals(), f.cxa, 16);
}
static void switch_to(int i)
{
    if (i == cur) return;
    int me = cur;
    save_ctx(fibers[me]);
    cur = i;
    load_ctx(fibers[i]);
    int ie = in_engine;
    mc_switch(&fibers[me].sp, fibers[i].sp);
    in_engine = ie;
}

static uint64_t state_hash()
{
    rehash();
    uint64_t h = memhash;
    for (int i = 0; i < MAXF; ++i)
    {
        Fiber &f = fibers[i];
        if (f.st == NONE_) continue;
        uint64_t x = hcomb(hcomb(i + 77, f.h), f.st == B_SPIN ? (enabled(i) ? 100 : 101) : f.st);
        if (f.st != READY) x = hcomb(x, f.bobj * 4 + f.bmode * 2 + f.signaled);
        if (f.below | f.ran && f.st != DONE_) x = hcomb(x, (uint64_t)f.below << 32 | f.ran);
        h ^= mix64(x);
    }
    for (auto &l : locks)
        if (l.second.owner >= 0 || l.second.readers)
            h ^= hcomb(hcomb(l.first, l.second.owner + 2), l.second.readers * 16ull + l.second.depth);
    h ^= hcomb(hist.hh, 0x1234);
    h ^= fs_hash();
    if (crash_on) h ^= pm_hash();
    if (sc->race)
    {
        // race detection depends on the order of past synchronisation: distinguish it
        for (int i = 0; i < MAXF; ++i)
            if (fibers[i].st != NONE_)
                for (auto v : fibers[i].vc) h = hcomb(h, v);
    }
    h ^= pmem_hash();
    return h;
}

static void maybe_prune(int cur_enabled)
{
    // called at a fresh choice point in the main phase
    uint64_t h = state_hash();
    if (sc->bound >= 0) h = hcomb(h, cur_enabled ? cur + 1 : 0);
    bool fresh;
    int16_t *v = visited.at(h, fresh);
    if (fresh)
    {
        *v = preempts;
        ++stats.states;
        return;
    }
    if (sc->bound < 0 || *v <= preempts)
    {
        run_end = END_PRUNED;
        to_engine();
        abort();
    }
    *v = preempts;
}

static void deadlock()
{
    bool spin = false, lock = false;
    for (int i = 0; i < MAXF; ++i)
    {
        if (fibers[i].st == B_SPIN) spin = true;
        if (fibers[i].st == B_LOCK || fibers[i].st == B_COND) lock = true;
    }
    std::string d = "no thread can make progress:";
    if (lock) d += " deadlock (threads wait on locks/conditions forever)";
    if (spin) d += " livelock (threads spin without anything changing)";
    violation(d);
}

// Choose the next fiber to run. cur may or may not be enabled.
static void schedule()
{
    unsigned char alt[MAXF];
    int n = 0;
    bool timed = fibers[cur].st == B_TLOCK || fibers[cur].st == B_TCOND, ce = !timed && enabled(cur);
    if (ce) alt[n++] = cur;
    for (int i = 0; i < MAXF; ++i)
        if ((i != cur || timed) && fibers[i].st != NONE_ && fibers[i].st != DONE_ && enabled(i)) alt[n++] = i;
    if (n == 0) deadlock();
    if (n > 1)
    {
        // a thread that yielded waits until every other enabled thread has run
        uint32_t en = 0;
        for (int i = 0; i < n; ++i) en |= 1u << alt[i];
        int m = 0;
        unsigned char keep[MAXF];
        for (int i = 0; i < n; ++i)
            if (!(fibers[alt[i]].below & en)) keep[m++] = alt[i];
        if (m)
        {
            memcpy(alt, keep, m);
            n = m;
            ce = ce && alt[0] == cur;
        }
    }
    int pick = 0;
    bool branch = n > 1 && phase == P_MAIN && !(ce && fibers[cur].spin > sc->spin_branch);
    if (branch && ce && sc->bound >= 0 && preempts >= sc->bound)
    {
        branch = false; // no preemption left
        if (use_cache && !replaying && depth_ >= stack.size()) maybe_prune(ce);
    }
    if (branch)
    {
        if (depth_ < stack.size())
        {
            Choice &c = stack[depth_];
            if (!c.sched || c.n != n || memcmp(c.alt, alt, n) != 0)
            {
                fprintf(elog(), "DIVERGENCE at choice %zu: n %d vs %d sched %d\n", depth_, n, c.n, c.sched);
                _exit(9);
            }
            pick = c.chosen;
            ++depth_;
        }
        else
        {
            if (use_cache && !replaying) maybe_prune(ce);
            Choice c;
            c.sched = true;
            c.n = n;
            c.chosen = replaying && depth_ < forced.size() && forced[depth_] < n ? forced[depth_] : 0;
            c.costly = ce;
            memcpy(c.alt, alt, n);
            c.pre = preempts;
            pick = c.chosen;
            stack.push_back(c);
            ++depth_;
            ++stats.choices;
        }
        if (ce && pick != 0) ++preempts;
    }
    int nx = alt[pick];
    for (int i = 0; i < MAXF; ++i)
        if (fibers[i].st != NONE_)
        {
            fibers[i].below &= ~(1u << nx);
            if (i != nx && fibers[i].yields) fibers[i].ran |= 1u << nx;
        }
    if (fibers[nx].st != READY)
    {
        fibers[nx].st = READY;
        fibers[nx].spin = 0;
    }
    switch_to(nx);
}

static void step_count()
{
    ++stats.steps;
    if (++steps_run > sc->horizon)
        violation("an execution did not finish within " + std::to_string(sc->horizon) + " steps (non-termination)");
    Fiber &f = fibers[cur];
    f.h = hcomb(f.h, 0x51); // position in the program
    if (f.change_seen != g_change)
    {
        f.change_seen = g_change;
        f.spin = 0;
    }
    else ++f.spin;
}
void sched_point()
{
    ++in_engine;
    if (crash_on) pm_settle();
    step_count();
    Fiber &f = fibers[cur];
    if (f.spin > sc->spin)
    {
        if (sc->progress && f.harness)
        {
            bool others = false;
            for (int i = 0; i < MAXF; ++i)
                if (i != cur && fibers[i].harness && fibers[i].in_op && fibers[i].st != DONE_) others = true;
            if (others) violation("lock-freedom: an operation run in isolation does not complete; it waits for a suspended thread");
        }
        f.st = B_SPIN;
        f.change_seen = g_change;
    }
    schedule();
    --in_engine;
}
void block(BlockKind k, uint64_t obj, int mode)
{
    ++in_engine;
    if (crash_on) pm_settle();
    step_count();
    Fiber &f = fibers[cur];
    f.st = k;
    f.bobj = obj;
    f.bmode = mode;
    schedule();
    --in_engine;
}
static void yield_hint()
{
    if (!active()) return;
    ++in_engine;
    Fiber &f = fibers[cur];
    f.spin += sc->spin / 4 + 1;
    f.yields = true;
    for (int i = 0; i < MAXF; ++i)
        if (i != cur && fibers[i].st != NONE_ && fibers[i].st != DONE_ && !(f.ran >> i & 1) && enabled(i)) f.below |= 1u << i;
    f.ran = 0;
    --in_engine;
    sched_point();
}
int choose(int n)
{
    if (n <= 1) return 0;
    ++in_engine;
    int r = 0;
    if (phase == P_MAIN)
    {
        if (depth_ < stack.size())
        {
            Choice &c = stack[depth_];
            if (c.sched || c.n != n)
            {
                fprintf(elog(), "DIVERGENCE at data choice %zu\n", depth_);
                _exit(9);
            }
            r = c.chosen;
        }
        else
        {
            Choice c;
            c.sched = false;
            c.n = n;
            c.chosen = replaying && depth_ < forced.size() && forced[depth_] < n ? forced[depth_] : 0;
            c.costly = false;
            c.pre = preempts;
            r = c.chosen;
            stack.push_back(c);
            ++stats.choices;
        }
        ++depth_;
        observe(r);
    }
    --in_engine;
    return r;
}

// ---- fibers ----
static std::vector<int> to_free;
static void fiber_finish()
{
    Fiber &f = fibers[cur];
    while (!f.atexit.empty())
    {
        auto d = f.atexit.back();
        {
            Guard g;
            f.atexit.pop_back();
        }
        d.first(d.second);
    }
    ++in_engine;
    hb_release((uint64_t)&f);
    f.st = DONE_;
    ++g_change;
    schedule();
    abort();
}
EXPORT void mc_fiber_main()
{
    Fiber &f = fibers[cur];
    in_engine = 0;
    try
    {
        f.ret = f.entry(f.arg);
    }
    catch (std::exception &e)
    {
        ++in_engine;
        violation(std::string("uncaught exception: ") + e.what());
    }
    catch (...)
    {
        ++in_engine;
        { auto *t = abi::__cxa_current_exception_type(); violation(std::string("uncaught exception of type ") + (t ? t->name() : "?")); }
    }
    fiber_finish();
}
static void init_fiber(int i, void *(*e)(void *), void *arg, bool hn)
{
    uintptr_t keep = fibers[i].bump;
    fibers[i] = Fiber();
    Fiber &f = fibers[i];
    f.bump = keep;
    f.st = READY;
    f.entry = e;
    f.arg = arg;
    f.harness = hn;
    f.tls = tls_init;
    f.h = hcomb(i, 99);
    f.change_seen = g_change;
    f.vc.assign(MAXF, 0);
    f.vc[i] = 1;
    uintptr_t top = STK + (i + 1) * STK_ONE - 64;
    uint64_t *sp = (uint64_t *)top;
    *--sp = 0;
    *--sp = 0;
    *--sp = (uint64_t)mc_boot;
    for (int k = 0; k < 6; ++k) *--sp = 0;
    f.sp = sp;
}
int spawn(void *(*fn)(void *), void *arg, bool hn)
{
    Guard g;
    int i = 1;
    while (i < MAXF && fibers[i].st != NONE_) ++i;
    if (i == MAXF) { violation("too many threads"); return -1; }
    init_fiber(i, fn, arg, hn);
    if (!priv_blks.empty()) priv_publish_mine();
    if (cur >= 0)
    {
        vc_join(fibers[i].vc, fibers[cur].vc);
        ++fibers[cur].vc[cur];
    }
    ++g_change;
    return i;
}

// ---- snapshots ----
struct Snapshot
{
    std::vector<std::vector<unsigned char>> segd;
    uintptr_t load_bump;
    std::vector<unsigned char> arena[MAXF + 1], ash[MAXF + 1];
    std::vector<unsigned char> pm, psh;
    std::vector<unsigned char> stk[MAXF];
    uintptr_t stk_at[MAXF];
    Fiber fib[MAXF];
    int cur;
    std::map<uint64_t, LockSt> locks;
    FsState fs;
    ProcState proc;
    uintptr_t pm_bump;
    bool half;
    std::map<uintptr_t, PmLine> pml;
    std::set<uintptr_t> pm_flushing;
    Hist hist;
    bool in_window, collecting_obs;
    uint64_t g_change, memhash;
    long heap_live;
    Harness *harness;
    std::map<uint64_t, VC> lock_vc;
    std::unordered_map<uintptr_t, RaceCell> cells;
    long event_ordinal;
    bool valid = false;
};
static Snapshot S1;

static void take(Snapshot &s)
{
    pm_settle();
    rehash();
    s.segd.clear();
    for (auto &g : segs) s.segd.emplace_back((unsigned char *)g.a, (unsigned char *)g.a + g.n);
    s.load_bump = load_bump;
    for (int i = 0; i <= MAXF; ++i)
    {
        uintptr_t b = i < MAXF ? fibers[i].bump : load_bump, a = ARENA + i * SUB;
        s.arena[i].assign((unsigned char *)a, (unsigned char *)a + b);
        unsigned char *sh = shadow + (a - BASE) / 8;
        s.ash[i].assign(sh, sh + b / 8 + 8);
    }
    uintptr_t hb = half_base();
    s.pm.assign((unsigned char *)hb, (unsigned char *)hb + pm_bump);
    unsigned char *sh = shadow + (hb - BASE) / 8;
    s.psh.assign(sh, sh + pm_bump / 8);
    for (int i = 0; i < MAXF; ++i)
    {
        s.fib[i] = fibers[i];
        s.stk[i].clear();
        if (fibers[i].st == NONE_ || fibers[i].st == DONE_) continue;
        uintptr_t sp = (uintptr_t)fibers[i].sp, top = STK + (i + 1) * STK_ONE;
        s.stk_at[i] = sp;
        s.stk[i].assign((unsigned char *)sp, (unsigned char *)top);
    }
    s.locks = locks;
    s.fs = fs;
    s.proc = proc;
    s.pm_bump = pm_bump;
    s.half = half;
    s.pml = pml;
    s.pm_flushing = pm_flushing;
    s.hist = hist;
    s.in_window = in_window;
    s.collecting_obs = collecting_obs;
    s.g_change = g_change;
    s.memhash = memhash;
    s.heap_live = heap_live;
    s.harness = harness;
    s.lock_vc = lock_vc;
    s.cells = cells;
    s.event_ordinal = event_ordinal;
    pmem_set_snapshot(1);
    for (auto &t : touched)
    {
        uint64_t *lh;
        unsigned char *fl;
        uintptr_t l = t.first;
        if (!line_slot(l, lh, fl))
            for (auto &g : segs)
                if (g.a > l && g.a - l < 64) line_slot(g.a, lh, fl);
        *fl &= ~2;
    }
    touched.clear();
    pm_high = pm_bump;
    s.valid = true;
}
static void untouch()
{
    for (auto &t : touched)
    {
        uint64_t *lh;
        unsigned char *fl;
        uintptr_t l = t.first;
        if (!line_slot(l, lh, fl))
            for (auto &g : segs)
                if (g.a > l && g.a - l < 64) line_slot(g.a, lh, fl);
        *lh = t.second;
        *fl &= ~3;
    }
    touched.clear();
    dirty.clear();
}
static void restore_arena(int i, uintptr_t from, const std::vector<unsigned char> &d, const std::vector<unsigned char> &sh)
{
    uintptr_t a = ARENA + i * SUB;
    memcpy((void *)a, d.data(), d.size());
    if (from > d.size()) memset((void *)(a + d.size()), 0, from - d.size());
    unsigned char *p = shadow + (a - BASE) / 8;
    memcpy(p, sh.data(), sh.size());
    if (from / 8 + 8 > sh.size()) memset(p + sh.size(), 0, from / 8 + 8 - sh.size());
}
static void restore(const Snapshot &s)
{
    priv_clear();
    for (size_t i = 0; i < segs.size(); ++i) memcpy((void *)segs[i].a, s.segd[i].data(), segs[i].n);
    for (int i = 0; i <= MAXF; ++i) restore_arena(i, i < MAXF ? fibers[i].bump : load_bump, s.arena[i], s.ash[i]);
    load_bump = s.load_bump;
    for (int h = 0; h < 2; ++h)
    {
        uintptr_t hb = PM + (h ? HALF : 0);
        size_t done = 0;
        unsigned char *sh = shadow + (hb - BASE) / 8;
        if ((bool)h == s.half)
        {
            memcpy((void *)hb, s.pm.data(), s.pm.size());
            memcpy(sh, s.psh.data(), s.psh.size());
            done = s.pm.size();
        }
        else if (!other_dirty) continue;
        if (pm_high > done)
        {
            memset((void *)(hb + done), 0, pm_high - done);
            memset(sh + done / 8, 0, (pm_high - done) / 8);
        }
    }
    for (int i = 0; i < MAXF; ++i)
    {
        fibers[i] = s.fib[i];
        if (!s.stk[i].empty()) memcpy((void *)s.stk_at[i], s.stk[i].data(), s.stk[i].size());
    }
    locks = s.locks;
    fs = s.fs;
    proc = s.proc;
    pm_bump = s.pm_bump;
    half = s.half;
    pml = s.pml;
    pm_pending.clear();
    pm_flushing = s.pm_flushing;
    hist = s.hist;
    in_window = s.in_window;
    collecting_obs = s.collecting_obs;
    g_change = s.g_change;
    memhash = s.memhash;
    heap_live = s.heap_live;
    harness = s.harness;
    lock_vc = s.lock_vc;
    cells = s.cells;
    event_ordinal = s.event_ordinal;
    pmem_get_snapshot(1);
    untouch();
    pm_high = pm_bump;
    other_dirty = false;
}

// Fresh process: library image as loaded, empty heap, no threads, no open files. Persistent memory untouched.
static void fresh_process(int keep_fiber)
{
    priv_clear();
    for (auto &g : segs)
    {
        memcpy((void *)g.a, g.s0.data(), g.n);
        mark(g.a, g.n);
    }
    static std::vector<unsigned char> none;
    for (int i = 0; i < MAXF; ++i)
    {
        if (fibers[i].bump) mark(ARENA + i * SUB, fibers[i].bump);
        restore_arena(i, fibers[i].bump, none, none);
        fibers[i].bump = 0;
        if (i != keep_fiber) fibers[i].st = NONE_;
    }
    if (load_bump) mark(ARENA + MAXF * SUB, load_bump);
    restore_arena(MAXF, load_bump, s0_load, s0_lsh);
    load_bump = s0_bump;
    locks.clear();
    lock_vc.clear();
    cells.clear();
    for (auto &m : proc.maps) shadow_set(m.a, (m.n + 4095) & ~4095ull, false);
    for (auto &f : fs.files) f.maps = 0;
    proc = ProcState();
    heap_live = 0;
    if (keep_fiber >= 0)
    {
        fibers[keep_fiber].atexit.clear();
        fibers[keep_fiber].keys.clear();
        if (tls_size) memcpy(tls_block, tls_init.data(), tls_size);
    }
    pmem_restart();
}
// Files move to the other half of the persistent region, so absolute addresses do not survive.
static void relocate()
{
    uintptr_t ob = half_base();
    half = !half;
    uintptr_t nb = half_base();
    memcpy((void *)nb, (void *)ob, pm_bump);
    memset((void *)ob, 0, pm_bump);
    memset(shadow + (ob - BASE) / 8, 0, pm_bump / 8);
    memset(shadow + (nb - BASE) / 8, 0, pm_bump / 8);
    mark(ob, pm_bump);
    mark(nb, pm_bump);
    for (auto &f : fs.files)
        if (f.base) f.base = f.base - ob + nb;
    if (pm_high < pm_bump) pm_high = pm_bump;
    other_dirty = true;
}

// ---- scenario execution ----
static std::string show_hist(const Hist &h)
{
    std::string s;
    auto one = [&](const OpRec &o, const char *pre) {
        s += pre;
        s += harness ? harness->show(o.op) : std::to_string(o.op.code);
        s += o.done ? (" -> " + (o.res == ABSENT ? std::string("absent") : o.res == ANYRES ? "-" : std::to_string(o.res))) : " -> (pending)";
        s += "\n";
    };
    for (auto &o : h.before) one(o, "  setup: ");
    for (auto &o : h.win) one(o, (std::string("  T") + std::to_string(o.tid) + ": ").c_str());
    for (auto &o : h.obs) one(o, "  after: ");
    return s;
}
static std::string fail_detail;

static void restart_process_here(); // REOPEN

static uint64_t run_op(const Op &op)
{
    if (op.code == REOPEN || op.code == REOPEN_NEW)
    {
        ++in_engine;
        restart_process_here();
        --in_engine;
        if (op.code == REOPEN) harness->reopen(*sc);
        else harness->start(*sc);
        return ANYRES;
    }
    return harness->exec(op);
}
// Sequential operation (setup / observation / sequence): judged at once.
static void seq_op(const Op &op)
{
    ++in_engine;
    int base = hist.win.size();
    OpRec r;
    r.op = op;
    r.tid = 0;
    bool tail = collecting_obs;
    if (!tail)
    {
        crash_event();
        r.pred = 0;
        for (auto &o : hist.win) (void)o, r.pred |= 1ull << (&o - &hist.win[0]);
        hist.win.push_back(r);
        hist.hh = hcomb(hist.hh, hcomb(op.code, hcomb(op.a, hcomb(op.b, op.c))));
    }
    else
    {
        crash_event();
        hist.obs.push_back(r);
        if (crash_on) hist.hh = hcomb(hist.hh, hcomb(op.code + 77, hcomb(op.a, hcomb(op.b, op.c))));
    }
    fibers[0].in_op = true;
    --in_engine;
    uint64_t res = run_op(op);
    ++in_engine;
    fibers[0].in_op = false;
    r.res = res;
    r.done = true;
    if (tail)
    {
        hist.obs.back() = r;
        hist.hh = hcomb(hist.hh, res);
    }
    else
    {
        State before = hist.start;
        hist.win.pop_back();
        if ((int)hist.win.size() != base) abort();
        if (!spec->step(hist.start, op, res, false))
        {
            OpRec bad = r;
            hist.win.push_back(bad);
            violation("sequential operation returned a wrong result: " + harness->show(op) + " returned " +
                      (res == ABSENT ? std::string("absent") : std::to_string(res)) + " in state { " + spec->dump(before) + "}");
        }
        hist.before.push_back(r);
        hist.hh = 0;
        for (auto v : hist.start) hist.hh = hcomb(hist.hh, v);
    }
    uint64_t th = 0;
    for (size_t i = 0; i < tls_size; ++i)
        if (tls_block[i]) th = hcomb(th, i * 256 + tls_block[i]);
    fibers[0].h = hcomb(th, 5);
    if (tail) fibers[0].h = hcomb(fibers[0].h, hist.obs.size());
    --in_engine;
}

static void *thread_body(void *a)
{
    int t = (int)(intptr_t)a;
    ++in_engine;
    const std::vector<Op> &ops = sc->threads[t];
    int me = cur;
    --in_engine;
    harness->thread_begin(t);
    for (size_t i = 0; i < ops.size(); ++i)
    {
        sched_point();
        ++in_engine;
        crash_event();
        OpRec r;
        r.op = ops[i];
        r.tid = t + 1;
        r.idx = i;
        int at = hist.win.size();
        for (int j = 0; j < at; ++j)
            if (hist.win[j].done) r.pred |= 1ull << j;
        hist.win.push_back(r);
        // order-insensitive naming of the predecessors
        uint64_t ph = 0;
        for (int j = 0; j < at; ++j)
            if (hist.win[j].done) ph += hcomb(hist.win[j].tid * 100 + hist.win[j].idx, 3);
        uint64_t inv = hcomb(hcomb(t * 1000 + i, ph), 17);
        hist.hh += inv;
        fibers[me].in_op = true;
        --in_engine;
        uint64_t res = harness->exec(ops[i]);
        ++in_engine;
        fibers[me].in_op = false;
        hist.win[at].res = res;
        hist.win[at].done = true;
        hist.hh += hcomb(hcomb(t * 1000 + i, res), 23);
        uint64_t th = 0;
        for (size_t k = 0; k < tls_size; ++k)
            if (tls_block[k]) th = hcomb(th, k * 256 + tls_block[k]);
        fibers[me].h = hcomb(hcomb(th, t), i + 1);
        --in_engine;
    }
    harness->thread_end(t);
    return nullptr;
}

static bool lin_check(const Hist &h, std::string &why)
{
    ++stats.lin_checks;
    LinChecker lc(*spec);
    if (lc.check(h.start, h.win, h.obs)) return true;
    why = "no sequential order of the operations explains the observed results";
    return false;
}

static void do_obs()
{
    ++in_engine;
    collecting_obs = true;
    --in_engine;
    harness->quiesce();
    for (size_t i = 0; i < sc->fin.size(); ++i) seq_op(sc->fin[i]);
}

static bool in_sequence; // an operation of the enumerated sequence is running
bool op_running() { return fibers[cur].harness || (in_sequence && cur == 0); }
static void *main_body(void *)
{
    in_sequence = false;
    harness->start(*sc);
    if (!sc->crash_setup)
    {
        for (auto &o : sc->setup) seq_op(o);
        ++in_engine;
        run_end = END_SNAP;
        to_engine();
        --in_engine;
    }
    else
        for (auto &o : sc->setup) seq_op(o);
    in_sequence = false;
    if (sc->seq_depth > 0)
    {
        for (int d = 0; d < sc->seq_depth; ++d)
        {
            ++in_engine;
            if (use_cache && !replaying && phase == P_MAIN && depth_ >= stack.size())
            {
                uint64_t h = hcomb(state_hash(), 0xabc);
                int left = sc->seq_depth - d;
                bool fresh;
                int16_t *v = visited.at(h, fresh);
                if (fresh) ++stats.states;
                else if (*v <= -left)
                {
                    run_end = END_PRUNED;
                    to_engine();
                    abort();
                }
                *v = -left;
            }
            --in_engine;
            int k = choose(sc->alphabet.size());
            ++in_engine;
            fibers[0].h = 1; // the choice itself is not part of the state
            --in_engine;
            in_sequence = true;
            seq_op(sc->alphabet[k]);
            in_sequence = false;
        }
        ++in_engine;
        ++stats.sequences;
        --in_engine;
    }
    if (!sc->threads.empty())
    {
        ++in_engine;
        in_window = true;
        for (size_t t = 0; t < sc->threads.size(); ++t) spawn(thread_body, (void *)(intptr_t)t, true);
        block(B_ALLDONE, 0, 0);
        for (int j = 0; j < MAXF; ++j)
            if (fibers[j].harness) vc_join(fibers[0].vc, fibers[j].vc);
        --in_engine;
    }
    ++in_engine;
    crash_event();
    bool con = crash_on;
    crash_on = false;
    --in_engine;
    do_obs();
    ++in_engine;
    crash_on = con;
    std::string why;
    stats.outcomes.insert(hist.hh);
    if (!lin_check(hist, why)) violation(why);
    run_end = END_OK;
    to_engine();
    abort();
}
static void *recover_body(void *)
{
    harness->reopen(*sc);
    ++in_engine;
    crash_event();
    bool con = crash_on;
    if (!sc->crash_post) crash_on = false;
    --in_engine;
    do_obs();
    for (size_t i = 0; i < sc->post.size(); ++i) seq_op(sc->post[i]);
    ++in_engine;
    crash_event();
    crash_on = con;
    std::string why;
    if (!lin_check(hist, why)) violation("after a crash and recovery: " + why);
    run_end = END_RECOVERED;
    to_engine();
    abort();
}
typedef Harness *(*harness_fn)();
static harness_fn get_harness;

static void restart_process_here()
{
    // clean process exit and restart; everything stored is in the files
    pm_settle();
    pml.clear();
    pm_flushing.clear();
    fresh_process(0);
    relocate();
    --in_engine;
    harness = get_harness();
    ++in_engine;
}

static void go()
{
    void *s;
    (void)s;
    violated = false;
    ++stats.executions;
    steps_run = 0;
    in_engine = 1;
    load_ctx(fibers[cur]);
    mc_switch(&engine_sp, fibers[cur].sp);
    in_engine = 1;
    cur = -1;
    if (steps_run > stats.max_steps) stats.max_steps = steps_run;
}
static int s1_cur;
static void cold_start()
{
    // empty machine
    for (int i = 0; i < MAXF; ++i) fibers[i].st = NONE_;
    fs = FsState();
    fs_init();
    pmem_cold();
    pm_bump = 0;
    half = false;
    for (uintptr_t h : {PM, PM + HALF})
    {
        memset((void *)h, 0, cold_high);
        memset(shadow + (h - BASE) / 8, 0, cold_high / 8);
        mark(h, cold_high);
    }
    pml.clear();
    pm_pending.clear();
    pm_flushing.clear();
    hist = Hist();
    hist.start = spec->init(*sc);
    in_window = collecting_obs = false;
    g_change = 1;
    event_ordinal = 0;
    fresh_process(-1);
    init_fiber(0, main_body, nullptr, false);
    cur = 0;
    harness = nullptr;
}
static void *boot_main(void *)
{
    harness = get_harness();
    return main_body(nullptr);
}
static void *boot_recover(void *)
{
    harness = get_harness();
    return recover_body(nullptr);
}

struct Violation
{
    std::string msg, hist;
    std::vector<int> choices;
    std::vector<std::vector<int>> image; // nested image selections: [event ordinal, dir order, alt per line...]
};
static bool have_vio;
static Violation vio;

static std::vector<int> choice_list()
{
    std::vector<int> v;
    for (size_t i = 0; i < depth_ && i < stack.size(); ++i) v.push_back(stack[i].chosen);
    return v;
}

static std::vector<std::vector<int>> replay_images; // when replaying a crash violation
static void recover(const CrashEvent &ev, const std::vector<int> &sel, int order, std::vector<std::vector<int>> trail);

static double now();
static double deadline;
static void process_event(const CrashEvent &ev, std::vector<std::vector<int>> trail)
{
    if (have_vio) return;
    std::vector<std::vector<int>> sels;
    size_t nl = ev.lines.size();
    double prod = 1;
    for (auto &l : ev.lines) prod *= l.alts.size();
    if (prod <= sc->crash_cap)
    {
        std::vector<int> s(nl, 0);
        while (true)
        {
            sels.push_back(s);
            size_t i = 0;
            while (i < nl && ++s[i] == (int)ev.lines[i].alts.size()) s[i++] = 0;
            if (i == nl) break;
        }
    }
    else
    {
        ++stats.crash_caps;
        std::vector<int> lo(nl, 0), hi;
        for (auto &l : ev.lines) hi.push_back(l.alts.size() - 1);
        sels.push_back(lo);
        sels.push_back(hi);
        for (size_t i = 0; i < nl; ++i)
            for (int k = 0; k < (int)ev.lines[i].alts.size(); ++k)
            {
                auto a = lo, b = hi;
                a[i] = k;
                b[i] = k;
                if (a != lo) sels.push_back(a);
                if (b != hi) sels.push_back(b);
            }
    }
    int nfiles = 0;
    for (auto &f : ev.fs.names)
        if (!ev.fs.files[f.second].dir) ++nfiles;
    if (!replay_images.empty())
    {
        size_t lv = trail.size();
        if (lv >= replay_images.size()) return;
        auto &r = replay_images[lv];
        if (r[0] != ev.path[0]) return;
        std::vector<int> s(r.begin() + 2, r.end());
        if (s.size() != nl) { fprintf(elog(), "replay image mismatch\n"); return; }
        recover(ev, s, r[1], trail);
        return;
    }
    for (auto &s : sels)
        for (int o = 0; o < (nfiles > 1 ? 2 : 1); ++o)
        {
            // deduplicate by resulting image
            uint64_t h = hcomb(hcomb(ev.hist.hh, o), ev.level) ^ ev.pmh;
            for (auto &n : ev.fs.names) h = hcomb(h, std::hash<std::string>{}(n.first) + ev.fs.files[n.second].size * 31 + n.second);
            std::vector<unsigned char> img = ev.image;
            for (size_t i = 0; i < nl; ++i)
                if (ev.lines[i].line + 64 <= img.size()) memcpy(&img[ev.lines[i].line], ev.lines[i].alts[s[i]].data(), 64);
            uint64_t x = 1;
            for (size_t i = 0; i + 8 <= img.size(); i += 8)
            {
                uint64_t w;
                memcpy(&w, &img[i], 8);
                if (w) x = hcomb(x ^ i, w);
            }
            if (!seen_images.insert(hcomb(h, x)).second) continue;
            if (now() > deadline)
            {
                stats.capped = true;
                return;
            }
            ++stats.images;
            if (ev.level > 0) ++stats.nested;
            recover(ev, s, o, trail);
            if (have_vio) return;
        }
}
static void recover(const CrashEvent &ev, const std::vector<int> &sel, int order, std::vector<std::vector<int>> trail)
{
    std::vector<int> t{ev.path[0], order};
    t.insert(t.end(), sel.begin(), sel.end());
    trail.push_back(t);
    ++stats.recoveries;
    // leave whatever was running
    restore(S1);
    fresh_process(-1);
    // persistent memory as the crash left it
    size_t clear = pm_high > ev.bump ? pm_high : ev.bump;
    if (pm_bump > clear) clear = pm_bump;
    for (int h = 0; h < 2; ++h)
    {
        uintptr_t hb = PM + (h ? HALF : 0);
        memset((void *)hb, 0, clear);
        memset(shadow + (hb - BASE) / 8, 0, clear / 8);
        mark(hb, clear);
    }
    half = ev.half;
    pm_bump = ev.bump;
    fs = ev.fs;
    pmem_persist_install(ev.pmem);
    uintptr_t hb = half_base();
    memcpy((void *)hb, ev.image.data(), ev.image.size());
    for (size_t i = 0; i < sel.size(); ++i) memcpy((void *)(hb + ev.lines[i].line), ev.lines[i].alts[sel[i]].data(), 64);
    pm_high = clear;
    pml.clear();
    pm_pending.clear();
    pm_flushing.clear();
    for (auto &f : fs.files) f.maps = 0;
    relocate();
    hist = ev.hist;
    if (!sc->crash_post) hist.obs.clear();
    hist.hh = hcomb(hist.hh, 0xc7a5);
    if (ev.level > 0 && !sc->crash_post) hist.hh = ev.hist.hh;
    in_window = collecting_obs = false;
    dir_order = order;
    bool con = crash_on;
    int lv = crash_level;
    crash_on = (sc->crash_nested || sc->crash_post) && ev.level == 0;
    crash_level = ev.level + 1;
    phase = P_RECOVERY;
    event_ordinal = 0;
    pm_high = clear;
    std::vector<CrashEvent> saved;
    saved.swap(events);
    init_fiber(0, boot_recover, nullptr, false);
    cur = 0;
    go();
    --stats.executions;
    std::vector<CrashEvent> mine;
    mine.swap(events);
    events.swap(saved);
    phase = P_MAIN;
    crash_on = con;
    crash_level = lv;
    dir_order = 0;
    if (pm_high < clear) pm_high = clear;
    if (run_end == END_VIOLATION && replay_images.size() > trail.size()) run_end = END_RECOVERED;
    if (run_end == END_VIOLATION)
    {
        have_vio = true;
        vio.msg = vio_msg;
        if (vio.msg.rfind("after a crash", 0) != 0) vio.msg = "after a crash and recovery: " + vio.msg;
        vio.hist = show_hist(hist);
        vio.choices = choice_list();
        vio.image = trail;
        return;
    }
    for (auto &e : mine)
    {
        process_event(e, trail);
        if (have_vio) return;
    }
}

static void run_main(bool first)
{
    depth_ = 0;
    preempts = 0;
    run_end = END_OK;
    phase = S1.valid || sc->crash_setup ? P_MAIN : P_SETUP;
    crash_on = sc->crash && (S1.valid || sc->crash_setup);
    crash_level = 0;
    if (S1.valid)
    {
        restore(S1);
        cur = s1_cur;
    }
    else
    {
        cold_start();
        fibers[0].entry = boot_main;
    }
    (void)first;
    go();
}

static bool next_run()
{
    stack.resize(depth_ < stack.size() ? depth_ : stack.size());
    while (!stack.empty())
    {
        Choice &c = stack.back();
        if (c.chosen + 1 < c.n)
        {
            bool ok = true;
            if (c.sched && c.costly && sc->bound >= 0 && c.pre + 1 > sc->bound) ok = false;
            if (ok)
            {
                ++c.chosen;
                replay_len = stack.size();
                return true;
            }
        }
        stack.pop_back();
    }
    return false;
}

// Explore one scenario. Returns false on violation.
static double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static bool prepare()
{
    S1.valid = false;
    stack.clear();
    replay_len = 0;
    if (sc->crash_setup)
    {
        // snapshot the empty machine, main fiber ready to boot
        cold_start();
        fibers[0].entry = boot_main;
        in_engine = 1;
        take(S1);
        s1_cur = 0;
        cur = -1;
        return true;
    }
    crash_on = false;
    run_main(true);
    if (run_end == END_VIOLATION) return false;
    if (run_end != END_SNAP)
    {
        fprintf(elog(), "setup did not reach the snapshot point\n");
        _exit(8);
    }
    take(S1);
    s1_cur = 0;
    --stats.executions;
    return true;
}
static void record_vio()
{
    have_vio = true;
    vio.msg = vio_msg;
    vio.hist = show_hist(hist);
    vio.choices = choice_list();
    vio.image.clear();
}
static std::string sample; // one explored execution, for the evidence
static bool explore(double limit, size_t max_visited)
{
    double t0 = now();
    deadline = t0 + limit;
    if (!prepare())
    {
        record_vio();
        return false;
    }
    while (true)
    {
        events.clear();
        run_main(false);
        if (run_end == END_PRUNED) ++stats.pruned;
        if (run_end == END_VIOLATION)
        {
            record_vio();
            return false;
        }
        if (run_end == END_OK && (stats.executions & (stats.executions - 1)) == 0) sample = show_hist(hist);
        std::vector<CrashEvent> evs;
        evs.swap(events);
        size_t d = depth_;
        for (auto &e : evs)
        {
            process_event(e, {});
            depth_ = d;
            if (have_vio)
            {
                return false;
            }
        }
        depth_ = d;
        if (!next_run()) break;
        if (stats.capped || (stats.executions & 63) == 0 && (now() - t0 > limit || visited.size() > max_visited))
        {
            stats.capped = true;
            break;
        }
    }
    return true;
}
// Replay a recorded violation; returns whether it happened again with the same message.
static bool replay(const std::vector<int> &choices, const std::vector<std::vector<int>> &image, std::string &msg)
{
    have_vio = false;
    replaying = true;
    stack.clear();
    events.clear();
    seen_events.clear();
    seen_images.clear();
    replay_images = image;
    S1.valid = false;
    bool ok = prepare();
    if (!ok)
    {
        msg = vio_msg;
        vio.hist = show_hist(hist);
        replaying = false;
        return true;
    }
    forced = choices;
    replay_len = 0;
    run_main(false);
    if (image.empty())
    {
        replaying = false;
        replay_images.clear();
        if (run_end != END_VIOLATION) return false;
        msg = vio_msg;
        vio.hist = show_hist(hist);
        return true;
    }
    std::vector<CrashEvent> evs;
    evs.swap(events);
    for (auto &e : evs)
    {
        process_event(e, {});
        if (have_vio) break;
    }
    replaying = false;
    replay_images.clear();
    if (!have_vio) return false;
    msg = vio.msg;
    return true;
}
} // namespace mc

using namespace mc;

// ---- instrumentation callbacks ----
#define RW(n)                                                                                      \
    EXPORT void __tsan_read##n(void *a) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, n, false); }  \
    EXPORT void __tsan_write##n(void *a) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, n, true); }  \
    EXPORT void __tsan_unaligned_read##n(void *a) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, n, false); } \
    EXPORT void __tsan_unaligned_write##n(void *a) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, n, true); } \
    EXPORT void __tsan_volatile_read##n(void *a) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, n, false); }  \
    EXPORT void __tsan_volatile_write##n(void *a) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXPORT void __tsan_read_range(void *a, unsigned long n) { if (cur >= 0 && !in_engine && n) plain((uintptr_t)a, n, false); }
EXPORT void __tsan_write_range(void *a, unsigned long n) { if (cur >= 0 && !in_engine && n) plain((uintptr_t)a, n, true); }
EXPORT void __tsan_init() {}
EXPORT void __tsan_func_entry(void *) {}
EXPORT void __tsan_func_exit() {}
EXPORT void __tsan_vptr_update(void *a, void *) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, 8, true); }
EXPORT void __tsan_vptr_read(void *a) { if (cur >= 0 && !in_engine) plain((uintptr_t)a, 8, false); }

namespace mc
{
static inline void atomic_pre(uintptr_t a, size_t n, bool wr)
{
    if (sc->race && own_stack(a)) return;
    if (priv_mine(a) || sc->coarse && in_pm(a))
    {
        ++in_engine;
        if (crash_on) pm_settle();
        step_count();
        --in_engine;
    }
    else sched_point();
    ++in_engine;
    check_access(a, n, wr);
    if (sc->race) race_access(a, n, wr, true);
    --in_engine;
}
template <class T> static inline void atomic_obs(T v)
{
    if constexpr (sizeof(T) <= 8) observe((uint64_t)v);
    else
    {
        observe((uint64_t)v);
        observe((uint64_t)(v >> 64));
    }
}
template <class T> static inline void atomic_write(volatile T *a, T v)
{
    ++in_engine;
    uintptr_t u = (uintptr_t)a;
    if (!priv_blks.empty() && sizeof(T) >= 8 && !priv_mine(u))
    {
        priv_publish((uint64_t)v);
        if constexpr (sizeof(T) > 8) priv_publish((uint64_t)(v >> 64));
    }
    bool pm = crash_on && in_pm(u);
    if (pm) pm_before(u, sizeof(T));
    if (*a != v) ++g_change;
    *a = v;
    mark(u, sizeof(T));
    if (pm) pm_settle();
    --in_engine;
}
static inline void acq(uintptr_t a, int mo)
{
    if (sc->race && (mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
    {
        Guard g;
        hb_acquire(a);
    }
}
static inline void rel(uintptr_t a, int mo)
{
    if (sc->race && (mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST))
    {
        Guard g;
        hb_release(a);
    }
}
#define ACTIVE(a) (cur >= 0 && !in_engine && tracked((uintptr_t)a))
template <class T> static T a_load(const volatile T *a, int mo)
{
    if (!ACTIVE(a)) return *a;
    atomic_pre((uintptr_t)a, sizeof(T), false);
    T v = *a;
    acq((uintptr_t)a, mo);
    atomic_obs(v);
    return v;
}
template <class T> static void a_store(volatile T *a, T v, int mo)
{
    if (!ACTIVE(a)) { *a = v; return; }
    atomic_pre((uintptr_t)a, sizeof(T), true);
    rel((uintptr_t)a, mo);
    atomic_write(a, v);
    if (mo == __ATOMIC_SEQ_CST) pm_fence(); // xchg / mfence
}
template <class T, class F> static T a_rmw(volatile T *a, int mo, F f)
{
    if (!ACTIVE(a))
    {
        T o = *a;
        *a = f(o);
        return o;
    }
    atomic_pre((uintptr_t)a, sizeof(T), true);
    pm_fence(); // locked instructions order earlier write-backs
    T o = *a;
    acq((uintptr_t)a, mo);
    rel((uintptr_t)a, mo);
    atomic_obs(o);
    atomic_write(a, (T)f(o));
    return o;
}
template <class T> static int a_cas(volatile T *a, T *c, T v, int mo, int fmo)
{
    if (!ACTIVE(a))
    {
        if (*a == *c) { *a = v; return 1; }
        *c = *a;
        return 0;
    }
    atomic_pre((uintptr_t)a, sizeof(T), true);
    pm_fence();
    T o = *a;
    atomic_obs(o);
    if (o == *c)
    {
        acq((uintptr_t)a, mo);
        rel((uintptr_t)a, mo);
        atomic_write(a, v);
        return 1;
    }
    acq((uintptr_t)a, fmo);
    *c = o;
    return 0;
}
} // namespace mc
typedef unsigned __int128 u128;
#define AT(n, T)                                                                                                 \
    EXPORT T __tsan_atomic##n##_load(const volatile T *a, int mo) { return a_load<T>(a, mo); }                    \
    EXPORT void __tsan_atomic##n##_store(volatile T *a, T v, int mo) { a_store<T>(a, v, mo); }                    \
    EXPORT T __tsan_atomic##n##_exchange(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T) { return v; }); } \
    EXPORT T __tsan_atomic##n##_fetch_add(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o + v); }); } \
    EXPORT T __tsan_atomic##n##_fetch_sub(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o - v); }); } \
    EXPORT T __tsan_atomic##n##_fetch_and(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o & v); }); } \
    EXPORT T __tsan_atomic##n##_fetch_or(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o | v); }); } \
    EXPORT T __tsan_atomic##n##_fetch_xor(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T)(o ^ v); }); } \
    EXPORT T __tsan_atomic##n##_fetch_nand(volatile T *a, T v, int mo) { return a_rmw<T>(a, mo, [&](T o) { return (T) ~(o & v); }); } \
    EXPORT int __tsan_atomic##n##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int f) { return a_cas<T>(a, c, v, mo, f); } \
    EXPORT int __tsan_atomic##n##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int f) { return a_cas<T>(a, c, v, mo, f); } \
    EXPORT T __tsan_atomic##n##_compare_exchange_val(volatile T *a, T c, T v, int mo, int f) { a_cas<T>(a, &c, v, mo, f); return c; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t) AT(128, u128)
EXPORT void __tsan_atomic_thread_fence(int mo)
{
    if (active())
    {
        if (mo == __ATOMIC_SEQ_CST) mc_fence();
        hb_acquire(1);
        hb_release(1);
    }
}
EXPORT void __tsan_atomic_signal_fence(int) {}

// ---- memory functions of the code under test (linked with --wrap) ----
EXPORT void *__wrap_memcpy(void *d, const void *s, size_t n)
{
    if (active())
    {
        plain((uintptr_t)s, n, false);
        do_write(d, s, n);
        return d;
    }
    return memcpy(d, s, n);
}
EXPORT void *__wrap_memmove(void *d, const void *s, size_t n)
{
    if (active())
    {
        plain((uintptr_t)s, n, false);
        if (crash_on && in_pm((uintptr_t)d))
        {
            std::vector<unsigned char> *b;
            {
                Guard g;
                b = new std::vector<unsigned char>((const unsigned char *)s, (const unsigned char *)s + n);
            }
            do_write(d, b->data(), n);
            Guard g;
            delete b;
            return d;
        }
        do_write(d, s, n);
        return d;
    }
    return memmove(d, s, n);
}
EXPORT void *__wrap_memset(void *d, int c, size_t n)
{
    if (active())
    {
        do_set(d, c, n);
        return d;
    }
    return memset(d, c, n);
}
static inline bool use_arena() { return load_mode || active(); }
EXPORT void *__wrap_malloc(size_t n) { return use_arena() ? arena_alloc(n) : malloc(n); }
EXPORT void __wrap_free(void *p)
{
    if (!p) return;
    if (in_arena((uintptr_t)p)) arena_free(p);
    else if (in_pm((uintptr_t)p) || in_stk((uintptr_t)p)) violation("memory safety: free of a pointer that was not allocated");
    else free(p);
}
EXPORT void *__wrap_calloc(size_t a, size_t b) { return use_arena() ? arena_alloc(a * b, 16, true) : calloc(a, b); }
EXPORT void *__wrap_realloc(void *p, size_t n)
{
    if (!p) return __wrap_malloc(n);
    if (!in_arena((uintptr_t)p)) return realloc(p, n);
    void *q = arena_alloc(n);
    size_t k = arena_size(p);
    memcpy(q, p, k < n ? k : n);
    mark((uintptr_t)q, n);
    arena_free(p);
    return q;
}
EXPORT int __wrap_posix_memalign(void **r, size_t al, size_t n)
{
    if (!use_arena()) return posix_memalign(r, al, n);
    *r = arena_alloc(n, al);
    return 0;
}
EXPORT void *__wrap_aligned_alloc(size_t al, size_t n) { return use_arena() ? arena_alloc(n, al) : aligned_alloc(al, n); }

__attribute__((visibility("default"))) void *operator new(size_t n)
{
    if (use_arena()) return arena_alloc(n);
    void *p = malloc(n);
    if (!p) abort();
    return p;
}
__attribute__((visibility("default"))) void *operator new[](size_t n) { return operator new(n); }
__attribute__((visibility("default"))) void *operator new(size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
__attribute__((visibility("default"))) void *operator new[](size_t n, const std::nothrow_t &) noexcept { return operator new(n); }
__attribute__((visibility("default"))) void *operator new(size_t n, std::align_val_t al)
{
    if (use_arena()) return arena_alloc(n, (size_t)al);
    return aligned_alloc((size_t)al, (n + (size_t)al - 1) & ~((size_t)al - 1));
}
__attribute__((visibility("default"))) void *operator new[](size_t n, std::align_val_t al) { return operator new(n, al); }
static void del(void *p)
{
    if (!p) return;
    if (in_arena((uintptr_t)p)) arena_free(p);
    else if (in_pm((uintptr_t)p) || in_stk((uintptr_t)p)) violation("memory safety: delete of a pointer that was not allocated");
    else free(p);
}
#define DEL __attribute__((visibility("default"))) void operator delete
DEL(void *p) noexcept { del(p); }
DEL[](void *p) noexcept { del(p); }
DEL(void *p, size_t) noexcept { del(p); }
DEL[](void *p, size_t) noexcept { del(p); }
DEL(void *p, std::align_val_t) noexcept { del(p); }
DEL[](void *p, std::align_val_t) noexcept { del(p); }
DEL(void *p, size_t, std::align_val_t) noexcept { del(p); }
DEL[](void *p, size_t, std::align_val_t) noexcept { del(p); }
DEL(void *p, const std::nothrow_t &) noexcept { del(p); }
DEL[](void *p, const std::nothrow_t &) noexcept { del(p); }

// ---- services ----
EXPORT int mc_choose(int n) { return active() ? choose(n) : 0; }
EXPORT void mc_fail(const char *m)
{
    Guard g;
    violation(m);
}
EXPORT void mc_assert(int c, const char *m)
{
    if (!c) mc_fail(m);
}
EXPORT void mc_point()
{
    if (active()) sched_point();
}
EXPORT void mc_yield() { yield_hint(); }
EXPORT void mc_flush(const void *p)
{
    if (active()) pm_flush((uintptr_t)p);
}
// Others may run between a write and the fence that persists it.
static void fence_point()
{
    if (!crash_on || cur < 0) return;
    ++in_engine;
    pm_settle();
    bool any = false;
    for (auto l : pm_flushing)
        for (auto &f : pml[l].flushed)
            if (f.first == cur && f.second > pml[l].first) any = true;
    --in_engine;
    if (any) sched_point();
}
EXPORT void mc_fence()
{
    if (!active()) return;
    fence_point();
    pm_fence();
}
EXPORT void mc_persist(const void *p, size_t n)
{
    for (uintptr_t l = (uintptr_t)p & ~63ull; l < (uintptr_t)p + n; l += 64) mc_flush((void *)l);
    mc_fence();
}
EXPORT void mc_step_label(const char *) {}
EXPORT int mc_tid() { return cur; }
EXPORT int mc_mapped_ok(const void *p, size_t n)
{
    uintptr_t a = (uintptr_t)p;
    if (a - BASE >= ARENA_SZ + PM_SZ) return 1;
    return shadow_ok(a, n);
}
EXPORT unsigned long mc_heap_live() { return heap_live; }
EXPORT void mc_quiesce()
{
    if (!active()) return;
    Guard g;
    // let the code's own threads run until they wait
    block(B_QUIESCE, 0, 0);
}
EXPORT void __assert_fail(const char *e, const char *, unsigned, const char *fn)
{
    if (cur < 0)
    {
        fprintf(elog(), "assertion outside a fiber: %s\n", e);
        _exit(7);
    }
    ++in_engine;
    violation(std::string("assertion failed: ") + e);
    abort();
}
namespace mc
{
void mc_abort_called()
{
    ++in_engine;
    violation("the program aborted");
}
} // namespace mc

// ---- crash signals ----
static char altstack[65536];
static void on_segv(int sig, siginfo_t *si, void *)
{
    if (cur < 0)
    {
        const char m[] = "mcrun: fatal signal outside a fiber\n";
        if (write(2, m, sizeof m - 1)) {}
        _exit(6);
    }
    in_engine = 1;
    uintptr_t a = (uintptr_t)si->si_addr;
    uintptr_t lo = STK + cur * STK_ONE;
    std::string m;
    if (sig == SIGFPE) m = "arithmetic fault (division by zero)";
    else if (sig == SIGABRT) m = "the program aborted";
    else if (a - lo < 8192) m = "stack overflow (unbounded recursion)";
    else if (a < 65536) m = "memory safety: null pointer access";
    else m = "memory safety: access to unmapped memory";
    violation(m);
}

static int find_so(struct dl_phdr_info *i, size_t, void *d)
{
    const char *want = (const char *)d;
    if (!i->dlpi_name || !strstr(i->dlpi_name, want)) return 0;
    uintptr_t rl = 0, rn = 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
        if (i->dlpi_phdr[k].p_type == PT_GNU_RELRO)
        {
            rl = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr;
            rn = i->dlpi_phdr[k].p_memsz;
        }
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        auto &p = i->dlpi_phdr[k];
        if (p.p_type == PT_LOAD && (p.p_flags & PF_W))
        {
            uintptr_t a = i->dlpi_addr + p.p_vaddr, e = a + p.p_memsz;
            if (rl && a >= (rl & ~4095ull) && a < rl + rn) a = (rl + rn) & ~4095ull;
            if (a >= e) continue;
            Seg s;
            s.a = a;
            s.n = e - a;
            s.lh.assign((s.n >> 6) + 3, 0);
            s.fl.assign((s.n >> 6) + 3, 0);
            segs.push_back(std::move(s));
        }
        if (p.p_type == PT_TLS)
        {
            tls_size = p.p_memsz;
            struct { unsigned long m, o; } ti = {i->dlpi_tls_modid, 0};
            tls_block = (unsigned char *)__tls_get_addr(&ti);
        }
    }
    return 1;
}

static std::string jesc(const std::string &s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') (r += '\\') += c;
        else if (c == '\n') r += "\\n";
        else if (c < 32) r += ' ';
        else r += c;
    }
    return r;
}

int main(int argc, char **argv)
{
    if (argc < 5)
    {
        fprintf(elog(), "usage: mcrun lib.so property tier list|run|replay ...\n");
        return 2;
    }
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("MC_NOASLR"))
    {
        setenv("MC_NOASLR", "1", 1);
        personality(pers | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    in_engine = 1;
    void *r = mmap((void *)BASE, TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (r != (void *)BASE) { perror("mmap arena"); return 2; }
    big_lh = (uint64_t *)mmap(nullptr, (TOTAL >> 6) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    big_fl = (unsigned char *)mmap(nullptr, TOTAL >> 6, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    priv = (unsigned char *)mmap(nullptr, TOTAL / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    shadow = (unsigned char *)mmap(nullptr, TOTAL / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < MAXF; ++i) mprotect((void *)(STK + i * STK_ONE), 8192, PROT_NONE);
    stack_t ss = {};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_segv;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);

    int out = dup(1);
    {
        char b[16];
        snprintf(b, sizeof b, "%d", dup(2));
        setenv("MC_ELOG_FD", b, 1);
        elog();
    }
    if (!getenv("MC_DEBUG"))
    {
        int nul = open("/dev/null", O_WRONLY);
        dup2(nul, 1);
        if (!getenv("MC_STDERR")) dup2(nul, 2);
    }
    FILE *of = fdopen(out, "w");
    std::string so = argv[1], prop = argv[2], tier = argv[3], cmd = argv[4];
    load_mode = true;
    in_engine = 0;
    void *h = dlopen(so.c_str(), RTLD_NOW | RTLD_LOCAL);
    load_mode = false;
    in_engine = 1;
    if (!h) { fprintf(elog(), "dlopen: %s\n", dlerror()); return 2; }
    auto scen = (void (*)(const char *, int, std::vector<Scenario> *))dlsym(h, "mc_scenarios");
    get_harness = (harness_fn)dlsym(h, "mc_harness");
    if (!scen || !get_harness) { fprintf(elog(), "not a harness\n"); return 2; }
    const char *b = strrchr(so.c_str(), '/');
    dl_iterate_phdr(find_so, (void *)(b ? b + 1 : so.c_str()));
    for (auto &s : segs) s.s0.assign((unsigned char *)s.a, (unsigned char *)s.a + s.n);
    if (tls_size) tls_init.assign(tls_block, tls_block + tls_size);
    s0_bump = load_bump;
    {
        uintptr_t a = ARENA + MAXF * SUB;
        s0_load.assign((unsigned char *)a, (unsigned char *)a + load_bump);
        unsigned char *sh = shadow + (a - BASE) / 8;
        s0_lsh.assign(sh, sh + load_bump / 8 + 8);
    }

    std::vector<Scenario> list;
    scen(prop.c_str(), tier == "thorough", &list);
    for (auto &s : segs) memcpy((void *)s.a, s.s0.data(), s.n);
    if (cmd == "list")
    {
        for (size_t i = 0; i < list.size(); ++i) fprintf(of, "%zu\t%s\n", i, list[i].name.c_str());
        fflush(of);
        return 0;
    }
    size_t idx = atol(argv[5]);
    if (cmd == "replay" || !isdigit(argv[5][0]))
        for (size_t i = 0; i < list.size(); ++i)
            if (list[i].name == argv[5]) idx = i;
    if (idx >= list.size()) { fprintf(elog(), "no such scenario\n"); return 2; }
    sc = &list[idx];
    spec = make_spec(sc->spec);
    if (cmd == "run")
    {
        double limit = argc > 6 ? atof(argv[6]) : 60;
        size_t maxv = argc > 7 ? atol(argv[7]) : 20000000;
        double t0 = now();
        bool ok = explore(limit, maxv);
        double el = now() - t0;
        Stats s = stats;
        std::string confirmed = "";
        if (!ok)
        {
            Violation v = vio;
            // the same schedule has to fail the same way, twice
            std::string m1, m2;
            bool a = replay(v.choices, v.image, m1), b2 = a && replay(v.choices, v.image, m2);
            confirmed = a && b2 && m1 == m2 && m1 == v.msg ? "yes" : "no";
            std::string rh = vio.hist;
            vio = v;
            if (confirmed == "no") fprintf(elog(), "replay mismatch: %d '%s' / %d '%s' / '%s'\n%s\n", a, m1.c_str(), b2, m2.c_str(), v.msg.c_str(), rh.c_str());
        }
        fprintf(of, "{\"scenario\":\"%s\",\"ok\":%s,\"executions\":%ld,\"steps\":%ld,\"states\":%ld,\"choices\":%ld,\"pruned\":%ld,"
               "\"outcomes\":%zu,\"crash_events\":%ld,\"crash_dups\":%ld,\"images\":%ld,\"recoveries\":%ld,\"nested\":%ld,\"crash_caps\":%ld,"
               "\"lin_checks\":%ld,\"sequences\":%ld,\"max_steps\":%ld,\"capped\":%s,\"bound\":%d,\"threads\":%zu,\"seconds\":%.3f",
               jesc(sc->name).c_str(), ok ? "true" : "false", s.executions, s.steps, s.states, s.choices, s.pruned, s.outcomes.size(), s.crash_events,
               s.crash_dups, s.images, s.recoveries, s.nested, s.crash_caps, s.lin_checks, s.sequences, s.max_steps, s.capped ? "true" : "false",
               sc->bound, sc->threads.size(), el);
        fprintf(of, ",\"sample\":\"%s\"", jesc(sample).c_str());
        if (!ok)
        {
            fprintf(of, ",\"message\":\"%s\",\"history\":\"%s\",\"confirmed\":\"%s\",\"schedule\":[", jesc(vio.msg).c_str(), jesc(vio.hist).c_str(), confirmed.c_str());
            for (size_t i = 0; i < vio.choices.size(); ++i) fprintf(of, "%s%d", i ? "," : "", vio.choices[i]);
            fprintf(of, "],\"image\":[");
            for (size_t i = 0; i < vio.image.size(); ++i)
            {
                fprintf(of, "%s[", i ? "," : "");
                for (size_t k = 0; k < vio.image[i].size(); ++k) fprintf(of, "%s%d", k ? "," : "", vio.image[i][k]);
                fprintf(of, "]");
            }
            fprintf(of, "]");
        }
        fprintf(of, "}\n");
        fflush(of);
        _exit(ok ? 0 : 1);
    }
    if (cmd == "replay")
    {
        // replay <scenario> <choices as a,b,c> [image as a,b,c;d,e,f]
        std::vector<int> ch;
        std::vector<std::vector<int>> im;
        auto parse = [](const char *p, std::vector<int> &o) {
            while (*p)
            {
                o.push_back(atoi(p));
                while (*p && *p != ',' && *p != ';') ++p;
                if (*p == ';') break;
                if (*p) ++p;
            }
            return p;
        };
        if (argc > 6 && *argv[6] && strcmp(argv[6], "-")) parse(argv[6], ch);
        if (argc > 7)
        {
            const char *p = argv[7];
            while (*p)
            {
                im.emplace_back();
                p = parse(p, im.back());
                if (*p == ';') ++p;
            }
        }
        std::string m;
        bool a = replay(ch, im, m);
        fprintf(of, "%s\n%s\n", a ? ("VIOLATION: " + m).c_str() : "no violation", vio.hist.c_str());
        fflush(of);
        _exit(a ? 1 : 0);
    }
    return 2;
}

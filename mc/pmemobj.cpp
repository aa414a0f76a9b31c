// Fake libpmemobj on the engine's persistent memory: pools, atomic and transactional allocation, undo
// logging, locks. Allocation metadata and undo logs change atomically with respect to crashes (what the
// real library's redo log provides); the contents of objects follow the engine's cache-line model.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "engine.hpp"
#include <cerrno>
#include <cstdarg>
#include <csetjmp>
#include <libpmemobj.h>
#undef pmemobj_direct
#undef pmemobj_open
#undef pmemobj_create
#undef pmemobj_check
#undef pmemobj_errormsg

namespace mc
{
void os_lock(void *a, bool ex);
bool os_trylock(void *a, bool ex);
void os_unlock(void *a);
bool os_timedlock(void *a, bool ex, const struct timespec *t);
bool os_cond_wait(void *c, void *m, const struct timespec *t = nullptr, int64_t base = 0);
void os_cond_wake(void *c, bool all);
void pm_certain(uintptr_t a, size_t n);
void pm_garbage(uintptr_t a, size_t n, int c);
uintptr_t fs_pool_create(const char *p, size_t n); // 0: exists
uintptr_t fs_pool_open(const char *p);             // 0: absent

const uint64_t UUID = 0x77;
static const size_t HDR = 4096;

struct PmPersist // survives crashes
{
    struct Blk { uint64_t size, type; };
    std::map<uint64_t, Blk> blocks; // offset -> allocated object
    struct Undo { uint64_t off; std::vector<unsigned char> d; };
    std::map<int, std::vector<Undo>> undo; // per lane, in order
    uint64_t root = 0, root_size = 0;
    std::string layout;
    size_t size = 0;
    uint64_t runid = 2; // another one each time the pool is opened
    bool volatiles = false;
    uint64_t hash() const
    {
        uint64_t h = hcomb(root, root_size + size);
        if (volatiles) h = hcomb(h, runid);
        for (auto &b : blocks) h = hcomb(hcomb(h, b.first), b.second.size * 31 + b.second.type);
        for (auto &l : undo)
            for (auto &u : l.second)
            {
                h = hcomb(h, l.first * 100000 + u.off);
                for (auto c : u.d) h = (h ^ c) * 0x100000001b3ull;
            }
        return h;
    }
};
struct TxRange { uint64_t off, size, flags; };
struct TxEntry { int last; bool jb; jmp_buf env; };
struct Tx
{
    int stage = TX_STAGE_NONE, last_err = 0;
    std::vector<TxEntry> nest;
    std::vector<TxRange> ranges;
    std::vector<std::pair<uint64_t, PmPersist::Blk>> allocs;
    std::vector<uint64_t> frees;
    std::vector<void *> lks;
    void *user = nullptr;
    pmemobj_tx_callback cb = nullptr;
    void *cbarg = nullptr;
};
struct PmVolatile
{
    bool open = false;
    void *user = nullptr;
    Tx tx[MAXF];
    uint64_t bump[MAXF] = {};
    std::map<uint64_t, PmPersist::Blk> reserved; // not yet published
    int failures_left = 0;
};
static PmPersist P, P1;
static PmVolatile V, V1;
static uintptr_t pool_base; // 0: closed
static uintptr_t pool_base1;
static uint64_t p_hash, v_hash;
static bool p_dirty = true, v_dirty = true;

void pmem_restart()
{
    V = PmVolatile();
    pool_base = 0;
    v_dirty = true;
}
void pmem_cold()
{
    P = PmPersist();
    pmem_restart();
    p_dirty = true;
}
void pmem_set_snapshot(int) { P1 = P; V1 = V; pool_base1 = pool_base; }
void pmem_get_snapshot(int)
{
    P = P1;
    V = V1;
    pool_base = pool_base1;
    p_dirty = v_dirty = true;
}
uint64_t pmem_persist_hash()
{
    if (p_dirty) p_hash = P.hash(), p_dirty = false;
    return p_hash;
}
uint64_t pmem_hash()
{
    if (v_dirty)
    {
        uint64_t h = V.open + 2 * (uint64_t)V.user;
        for (int i = 0; i < MAXF; ++i)
        {
            Tx &t = V.tx[i];
            h = hcomb(h, V.bump[i]);
            if (t.stage == TX_STAGE_NONE) continue;
            h = hcomb(hcomb(h, t.stage * 100 + t.last_err + i * 1000), t.nest.size() + (uint64_t)t.user);
            for (auto &r : t.ranges) h = hcomb(h, r.off * 7 + r.size * 3 + r.flags);
            for (auto &a : t.allocs) h = hcomb(h, a.first);
            for (auto a : t.frees) h = hcomb(h, a);
        }
        for (auto &r : V.reserved) h = hcomb(h, r.first);
        v_hash = h;
        v_dirty = false;
    }
    return hcomb(v_hash, pmem_persist_hash());
}
std::shared_ptr<void> pmem_persist_copy() { return std::make_shared<PmPersist>(P); }
void pmem_persist_install(const std::shared_ptr<void> &p)
{
    P = *(PmPersist *)p.get();
    p_dirty = true;
}

// Lines of the pool that hold parts of allocated objects; the content of the others does not survive a
// crash (a later access to them is an error whatever they contain).
bool pmem_live_lines(uintptr_t &base, std::vector<bool> &live)
{
    if (!pool_base) return false;
    base = pool_base;
    live.assign(P.size / 64, false);
    for (size_t i = 0; i < HDR / 64; ++i) live[i] = true;
    for (auto &b : P.blocks)
        for (uint64_t l = b.first / 64; l <= (b.first + b.second.size - 1) / 64 && l < live.size(); ++l) live[l] = true;
    return true;
}
static bool in_pool(uintptr_t a) { return pool_base && a - pool_base < P.size; }
static PMEMobjpool *pop() { return (PMEMobjpool *)pool_base; }
static Tx &tx() { return V.tx[cur]; }
static PmPersist::Blk *find_blk(uint64_t off, uint64_t *start)
{
    for (auto *m : {&P.blocks, &V.reserved})
    {
        auto it = m->upper_bound(off);
        if (it == m->begin()) continue;
        --it;
        if (off < it->first + it->second.size)
        {
            if (start) *start = it->first;
            return &it->second;
        }
    }
    return nullptr;
}
// Space is handed out per thread, so that addresses do not depend on the interleaving; freed space is not
// reused, so that stale accesses are seen.
static void bump_init()
{
    size_t n = P.size - HDR, first = n / 2, each = (n - first) / (MAXF - 1) & ~63ull;
    for (int i = 0; i < MAXF; ++i) V.bump[i] = HDR + (i ? first + (i - 1) * each : 0);
    for (auto &b : P.blocks)
    {
        int i = b.first < HDR + first ? 0 : (int)((b.first - HDR - first) / each) + 1;
        uint64_t e = (b.first + b.second.size + 63) & ~63ull;
        if (e > V.bump[i]) V.bump[i] = e;
    }
}
static uint64_t reserve(uint64_t size, uint64_t type, bool zero)
{
    if (sc->param("oom"))
    {
        // an allocation fails at every point in turn (at most one per execution)
        if (V.failures_left > 0 && op_running())
        {
            --in_engine;
            int f = choose(2);
            ++in_engine;
            if (f) { --V.failures_left; return 0; }
        }
    }
    size_t n = P.size - HDR, first = n / 2, each = (n - first) / (MAXF - 1) & ~63ull;
    uint64_t end = HDR + first + cur * each;
    uint64_t off = ((V.bump[cur] + 63) & ~63ull) + 16;
    if (off + size > end) return 0;
    V.bump[cur] = off + size;
    V.reserved[off] = {size, type};
    shadow_set(pool_base + off, size, true);
    pm_garbage(pool_base + off, size, zero ? 0 : 0xa5);
    observe(off);
    v_dirty = true;
    return off;
}
static void drop(uint64_t off, uint64_t size)
{
    shadow_set(pool_base + off, size, false);
    priv_forget(pool_base + off, size);
}
static PMEMoid oid(uint64_t off)
{
    PMEMoid o;
    o.pool_uuid_lo = off ? UUID : 0;
    o.off = off;
    return o;
}
static void set_oid(PMEMoid *p, PMEMoid o)
{
    if (!p) return;
    --in_engine;
    do_write(p, &o, sizeof o);
    ++in_engine;
    if (in_pm((uintptr_t)p)) pm_certain((uintptr_t)p, sizeof o);
}
static void callback()
{
    Tx &t = tx();
    if (!t.cb || t.nest.size() != 1) return;
    auto cb = t.cb;
    auto arg = t.cbarg;
    enum pobj_tx_stage st = (enum pobj_tx_stage)t.stage;
    --in_engine;
    cb(pop(), st, arg);
    ++in_engine;
}
static void abort_tx(int e)
{
    Tx &t = tx();
    if (e == 0) e = ECANCELED;
    t.stage = TX_STAGE_ONABORT;
    v_dirty = true;
    if (t.nest.size() == 1)
    {
        note_change();
        auto &u = P.undo[cur];
        for (size_t i = u.size(); i-- > 0;)
        {
            --in_engine;
            do_write((void *)(pool_base + u[i].off), u[i].d.data(), u[i].d.size());
            ++in_engine;
            pm_certain(pool_base + u[i].off, u[i].d.size());
        }
        crash_event();
        P.undo.erase(cur);
        for (auto &a : t.allocs)
        {
            V.reserved.erase(a.first);
            drop(a.first, a.second.size);
        }
        t.allocs.clear();
        t.frees.clear();
        t.ranges.clear();
        p_dirty = true;
    }
    t.last_err = e;
    errno = e;
    callback();
    if (t.nest.back().jb)
    {
        int ie = --in_engine;
        (void)ie;
        longjmp(tx().nest.back().env, e);
    }
}
static int fail_err(int e, uint64_t flags)
{
    if (!(flags & POBJ_FLAG_TX_NO_ABORT)) abort_tx(e);
    errno = e;
    return e;
}
static void need_work(const char *f)
{
    if (tx().stage != TX_STAGE_WORK) violation(std::string(f) + " outside of a transaction");
}
} // namespace mc
using namespace mc;

EXPORT __thread struct _pobj_pcache _pobj_cached_pool = {nullptr, 0, 0};
EXPORT int _pobj_cache_invalidate = 0;

EXPORT PMEMobjpool *pmemobj_create(const char *path, const char *layout, size_t size, mode_t)
{
    sched_point();
    Guard g;
    if (pool_base) { violation("second pool (not modelled)"); return nullptr; }
    size_t n = sc->param("pool", 384 << 10);
    if (size < PMEMOBJ_MIN_POOL) { errno = EINVAL; return nullptr; }
    crash_event();
    uintptr_t b = fs_pool_create(path, n);
    if (!b) { errno = EEXIST; return nullptr; }
    P = PmPersist();
    P.layout = layout ? layout : "";
    P.size = n;
    pool_base = b;
    V.open = true;
    bump_init();
    p_dirty = v_dirty = true;
    V.failures_left = sc->param("oom");
    note_change();
    return pop();
}
EXPORT PMEMobjpool *pmemobj_open(const char *path, const char *layout)
{
    sched_point();
    Guard g;
    if (pool_base) { errno = EAGAIN; return nullptr; }
    uintptr_t b = fs_pool_open(path);
    if (!b) { errno = ENOENT; return nullptr; }
    if (!P.size || (layout && P.layout != layout)) { errno = EINVAL; return nullptr; }
    pool_base = b;
    V.open = true;
    ++P.runid;
    p_dirty = true;
    for (auto &k : P.blocks) shadow_set(b + k.first, k.second.size, true);
    // roll back the transactions that were in progress
    for (auto &l : P.undo)
        for (size_t i = l.second.size(); i-- > 0;)
        {
            auto &u = l.second[i];
            --in_engine;
            do_write((void *)(b + u.off), u.d.data(), u.d.size());
            ++in_engine;
            crash_event();
            pm_certain(b + u.off, u.d.size());
        }
    crash_event();
    P.undo.clear();
    bump_init();
    p_dirty = v_dirty = true;
    V.failures_left = sc->param("oom");
    note_change();
    return pop();
}
EXPORT void pmemobj_close(PMEMobjpool *)
{
    Guard g;
    for (auto &k : P.blocks) shadow_set(pool_base + k.first, k.second.size, false);
    for (auto &k : V.reserved) shadow_set(pool_base + k.first, k.second.size, false);
    pmem_restart();
}
EXPORT int pmemobj_check(const char *p, const char *layout)
{
    Guard g;
    return fs_pool_open(p) && (!layout || P.layout == layout);
}
EXPORT const char *pmemobj_errormsg() { return "error"; }
EXPORT const char *pmemobj_check_version(unsigned, unsigned) { return nullptr; }
EXPORT void pmemobj_set_user_data(PMEMobjpool *, void *d) { V.user = d; v_dirty = true; }
EXPORT void *pmemobj_get_user_data(PMEMobjpool *) { return V.user; }
EXPORT int pmemobj_ctl_get(PMEMobjpool *, const char *, void *) { errno = EINVAL; return -1; }
EXPORT int pmemobj_ctl_set(PMEMobjpool *, const char *, void *) { errno = EINVAL; return -1; }
EXPORT int pmemobj_ctl_exec(PMEMobjpool *, const char *, void *) { errno = EINVAL; return -1; }
EXPORT PMEMoid pmemobj_root(PMEMobjpool *, size_t size)
{
    if (active()) sched_point();
    Guard g;
    if (!P.root)
    {
        int keep = V.failures_left;
        V.failures_left = 0;
        uint64_t o = reserve(size, 0, true);
        V.failures_left = keep;
        if (!o) { errno = ENOMEM; return OID_NULL; }
        crash_event();
        P.blocks[o] = V.reserved[o];
        V.reserved.erase(o);
        P.root = o;
        P.root_size = size;
        p_dirty = v_dirty = true;
        note_change();
    }
    return oid(P.root);
}
EXPORT size_t pmemobj_root_size(PMEMobjpool *) { return P.root_size; }
EXPORT PMEMobjpool *pmemobj_pool_by_ptr(const void *a) { return in_pool((uintptr_t)a) ? pop() : nullptr; }
EXPORT PMEMobjpool *pmemobj_pool_by_oid(PMEMoid o) { return o.pool_uuid_lo == UUID && pool_base ? pop() : nullptr; }
EXPORT void *pmemobj_direct(PMEMoid o)
{
    if (!o.off || !o.pool_uuid_lo) return nullptr;
    if (o.pool_uuid_lo != UUID || !pool_base) return nullptr;
    return (void *)(pool_base + o.off);
}
EXPORT PMEMoid pmemobj_oid(const void *a) { return in_pool((uintptr_t)a) ? oid((uintptr_t)a - pool_base) : OID_NULL; }
EXPORT size_t pmemobj_alloc_usable_size(PMEMoid o)
{
    Guard g;
    uint64_t s;
    auto *b = find_blk(o.off, &s);
    return b ? b->size : 0;
}
EXPORT uint64_t pmemobj_type_num(PMEMoid o)
{
    Guard g;
    uint64_t s;
    auto *b = find_blk(o.off, &s);
    return b ? b->type : 0;
}
static PMEMoid iter(std::map<uint64_t, PmPersist::Blk>::iterator it)
{
    while (it != P.blocks.end() && it->first == P.root) ++it;
    return it == P.blocks.end() ? OID_NULL : oid(it->first);
}
EXPORT PMEMoid pmemobj_first(PMEMobjpool *) { Guard g; return iter(P.blocks.begin()); }
EXPORT PMEMoid pmemobj_next(PMEMoid o) { Guard g; return iter(P.blocks.upper_bound(o.off)); }
EXPORT long mc_pool_blocks() { return P.blocks.size(); }
EXPORT long mc_pool_reserved() { return V.reserved.size(); }

// ---- persistence ----
EXPORT void mc_flush(const void *);
EXPORT void mc_fence();
EXPORT void pmemobj_flush(PMEMobjpool *, const void *a, size_t n)
{
    for (uintptr_t l = (uintptr_t)a & ~63ull; l < (uintptr_t)a + n; l += 64) mc_flush((void *)l);
}
EXPORT void pmemobj_drain(PMEMobjpool *) { mc_fence(); }
EXPORT void pmemobj_persist(PMEMobjpool *p, const void *a, size_t n)
{
    pmemobj_flush(p, a, n);
    mc_fence();
}
EXPORT int pmemobj_xpersist(PMEMobjpool *p, const void *a, size_t n, unsigned) { pmemobj_persist(p, a, n); return 0; }
EXPORT int pmemobj_xflush(PMEMobjpool *p, const void *a, size_t n, unsigned) { pmemobj_flush(p, a, n); return 0; }
EXPORT void *pmemobj_memcpy_persist(PMEMobjpool *p, void *d, const void *s, size_t n)
{
    do_write(d, s, n);
    pmemobj_persist(p, d, n);
    return d;
}
EXPORT void *pmemobj_memset_persist(PMEMobjpool *p, void *d, int c, size_t n)
{
    do_set(d, c, n);
    pmemobj_persist(p, d, n);
    return d;
}
EXPORT void *pmemobj_memcpy(PMEMobjpool *p, void *d, const void *s, size_t n, unsigned fl)
{
    do_write(d, s, n);
    if (!(fl & PMEMOBJ_F_MEM_NOFLUSH)) pmemobj_flush(p, d, n);
    if (!(fl & (PMEMOBJ_F_MEM_NODRAIN | PMEMOBJ_F_MEM_NOFLUSH))) mc_fence();
    return d;
}
EXPORT void *pmemobj_memmove(PMEMobjpool *p, void *d, const void *s, size_t n, unsigned fl) { return pmemobj_memcpy(p, d, s, n, fl); }
EXPORT void *pmemobj_memset(PMEMobjpool *p, void *d, int c, size_t n, unsigned fl)
{
    do_set(d, c, n);
    if (!(fl & PMEMOBJ_F_MEM_NOFLUSH)) pmemobj_flush(p, d, n);
    if (!(fl & (PMEMOBJ_F_MEM_NODRAIN | PMEMOBJ_F_MEM_NOFLUSH))) mc_fence();
    return d;
}

// ---- atomic allocation ----
EXPORT int pmemobj_xalloc(PMEMobjpool *p, PMEMoid *oidp, size_t size, uint64_t type, uint64_t flags, pmemobj_constr c, void *arg)
{
    if (size == 0) { errno = EINVAL; return -1; }
    uint64_t o;
    {
        Guard g;
        o = reserve(size, type, flags & POBJ_FLAG_ZERO);
    }
    if (!o) { errno = ENOMEM; return -1; }
    if (c && c(p, (void *)(pool_base + o), arg))
    {
        Guard g;
        drop(o, size);
        V.reserved.erase(o);
        v_dirty = true;
        errno = ECANCELED;
        return -1;
    }
    sched_point();
    Guard g;
    pm_fence(); // the redo log is fenced
    crash_event();
    P.blocks[o] = V.reserved[o];
    V.reserved.erase(o);
    set_oid(oidp, oid(o));
    p_dirty = v_dirty = true;
    crash_event();
    note_change();
    return 0;
}
EXPORT int pmemobj_alloc(PMEMobjpool *p, PMEMoid *oidp, size_t size, uint64_t type, pmemobj_constr c, void *arg) { return pmemobj_xalloc(p, oidp, size, type, 0, c, arg); }
EXPORT int pmemobj_zalloc(PMEMobjpool *p, PMEMoid *oidp, size_t size, uint64_t type) { return pmemobj_xalloc(p, oidp, size, type, POBJ_FLAG_ZERO, nullptr, nullptr); }
EXPORT void pmemobj_free(PMEMoid *oidp)
{
    if (!oidp->off) return;
    sched_point();
    Guard g;
    pm_fence();
    uint64_t o = oidp->off;
    auto it = P.blocks.find(o);
    if (it == P.blocks.end() || oidp->pool_uuid_lo != UUID) { violation("memory safety: free of a persistent object that is not allocated"); return; }
    crash_event();
    drop(o, it->second.size);
    P.blocks.erase(it);
    set_oid(oidp, OID_NULL);
    p_dirty = true;
    crash_event();
    note_change();
}

// Every object moves, unless memory runs out; the pointer to it changes and the old place is freed in one step.
EXPORT int pmemobj_defrag(PMEMobjpool *p, PMEMoid **list, size_t n, struct pobj_defrag_result *r)
{
    size_t moved = 0;
    std::vector<PMEMoid *> v(list, list + n);
    for (size_t i = 0; i < n; ++i)
    {
        sched_point();
        uint64_t from = v[i]->off, size, to;
        if (!from) continue;
        {
            Guard g;
            auto it = P.blocks.find(from);
            if (it == P.blocks.end()) { violation("defragmentation of a pointer to no object"); return -1; }
            size = it->second.size;
            to = reserve(size, it->second.type, false);
        }
        if (!to) continue;
        do_write((void *)(pool_base + to), (void *)(pool_base + from), size);
        pmemobj_persist(p, (void *)(pool_base + to), size);
        sched_point();
        Guard g;
        pm_fence();
        crash_event();
        if (!P.blocks.count(from) || v[i]->off != from) { violation("an object was freed while defragmentation moved it"); return -1; }
        P.blocks[to] = V.reserved[to];
        V.reserved.erase(to);
        drop(from, size);
        P.blocks.erase(from);
        // pointers which lie in the object have moved with it
        for (size_t k = 0; k < n; ++k)
            if ((uintptr_t)v[k] - (pool_base + from) < size) v[k] = (PMEMoid *)((uintptr_t)v[k] - from + to);
        set_oid(v[i], oid(to));
        p_dirty = v_dirty = true;
        crash_event();
        note_change();
        ++moved;
    }
    if (r) r->total = n, r->relocated = moved;
    return 0;
}
// ---- transactions ----
EXPORT enum pobj_tx_stage pmemobj_tx_stage() { return cur >= 0 ? (enum pobj_tx_stage)tx().stage : TX_STAGE_NONE; }
EXPORT int pmemobj_tx_errno() { return tx().last_err; }
EXPORT void pmemobj_tx_set_user_data(void *d) { tx().user = d; v_dirty = true; }
EXPORT void *pmemobj_tx_get_user_data() { return tx().user; }
EXPORT void pmemobj_tx_set_failure_behavior(enum pobj_tx_failure_behavior) {}
EXPORT enum pobj_tx_failure_behavior pmemobj_tx_get_failure_behavior() { return POBJ_TX_FAILURE_ABORT; }
static int tx_add_lock(int type, void *l)
{
    if (type != TX_PARAM_MUTEX && type != TX_PARAM_RWLOCK) return EINVAL;
    for (auto x : tx().lks)
        if (x == l) return 0;
    os_lock(l, true);
    Guard g;
    tx().lks.push_back(l);
    return 0;
}
EXPORT int pmemobj_tx_begin(PMEMobjpool *p, jmp_buf env, ...)
{
    {
        Guard g;
        Tx &t = tx();
        if (!p || (uintptr_t)p != pool_base) { violation("transaction on a pool that is not open"); return EINVAL; }
        if (t.stage == TX_STAGE_NONE)
        {
            t = Tx();
            P.undo.erase(cur);
        }
        else if (t.stage != TX_STAGE_WORK) { violation("transaction begun in a wrong stage"); return EINVAL; }
        TxEntry e;
        e.last = 0;
        e.jb = env != nullptr;
        if (env) memcpy(&e.env, env, sizeof(jmp_buf));
        t.nest.push_back(e);
        t.stage = TX_STAGE_WORK;
        v_dirty = true;
    }
    va_list ap;
    va_start(ap, env);
    int k, err = 0;
    while ((k = va_arg(ap, int)) != TX_PARAM_NONE)
    {
        if (k == TX_PARAM_CB)
        {
            pmemobj_tx_callback cb = va_arg(ap, pmemobj_tx_callback);
            void *arg = va_arg(ap, void *);
            tx().cb = cb;
            tx().cbarg = arg;
        }
        else if ((err = tx_add_lock(k, va_arg(ap, void *)))) break;
    }
    va_end(ap);
    if (err)
    {
        Guard g;
        abort_tx(err);
    }
    return err;
}
EXPORT int pmemobj_tx_xlock(enum pobj_tx_param type, void *l, uint64_t)
{
    need_work("pmemobj_tx_lock");
    return tx_add_lock(type, l);
}
EXPORT int pmemobj_tx_lock(enum pobj_tx_param type, void *l) { return pmemobj_tx_xlock(type, l, 0); }
EXPORT int pmemobj_tx_xadd_range_direct(const void *ptr, size_t size, uint64_t flags)
{
    Guard g;
    need_work("pmemobj_tx_add_range");
    Tx &t = tx();
    uintptr_t a = (uintptr_t)ptr;
    if (!in_pool(a) || !in_pool(a + size - 1)) { return fail_err(EINVAL, flags); }
    uint64_t off = a - pool_base, end = off + size;
    check_access(a, size, false);
    observe(off);
    // what is not covered yet
    std::vector<std::pair<uint64_t, uint64_t>> todo{{off, end}};
    auto cut = [&](uint64_t b, uint64_t e) {
        std::vector<std::pair<uint64_t, uint64_t>> r;
        for (auto &x : todo)
        {
            if (x.first < b) r.push_back({x.first, std::min(x.second, b)});
            if (x.second > e) r.push_back({std::max(x.first, e), x.second});
        }
        std::vector<std::pair<uint64_t, uint64_t>> q;
        for (auto &x : r)
            if (x.first < x.second) q.push_back(x);
        todo = q;
    };
    for (auto &r : t.ranges) cut(r.off, r.off + r.size);
    for (auto &x : todo)
    {
        t.ranges.push_back({x.first, x.second - x.first, flags});
        if (flags & POBJ_FLAG_NO_SNAPSHOT) continue;
        PmPersist::Undo u;
        u.off = x.first;
        u.d.assign((unsigned char *)pool_base + x.first, (unsigned char *)pool_base + x.second);
        for (auto c : u.d) observe(c);
        P.undo[cur].push_back(u);
        p_dirty = true;
    }
    v_dirty = true;
    return 0;
}
EXPORT int pmemobj_tx_add_range_direct(const void *ptr, size_t size) { return pmemobj_tx_xadd_range_direct(ptr, size, 0); }
EXPORT int pmemobj_tx_xadd_range(PMEMoid o, uint64_t off, size_t size, uint64_t flags) { return pmemobj_tx_xadd_range_direct((char *)pool_base + o.off + off, size, flags); }
EXPORT int pmemobj_tx_add_range(PMEMoid o, uint64_t off, size_t size) { return pmemobj_tx_xadd_range(o, off, size, 0); }
EXPORT PMEMoid pmemobj_tx_xalloc(size_t size, uint64_t type, uint64_t flags)
{
    Guard g;
    need_work("pmemobj_tx_alloc");
    if (size == 0) { fail_err(EINVAL, flags); return OID_NULL; }
    uint64_t o = size > PMEMOBJ_MAX_ALLOC_SIZE ? 0 : reserve(size, type, flags & POBJ_FLAG_ZERO);
    if (!o) { fail_err(ENOMEM, flags); return OID_NULL; }
    Tx &t = tx();
    t.allocs.push_back({o, {size, type}});
    t.ranges.push_back({o, size, POBJ_FLAG_NO_SNAPSHOT | (flags & POBJ_FLAG_NO_FLUSH)});
    v_dirty = true;
    return oid(o);
}
EXPORT PMEMoid pmemobj_tx_alloc(size_t size, uint64_t type) { return pmemobj_tx_xalloc(size, type, 0); }
EXPORT PMEMoid pmemobj_tx_zalloc(size_t size, uint64_t type) { return pmemobj_tx_xalloc(size, type, POBJ_FLAG_ZERO); }
EXPORT int pmemobj_tx_xfree(PMEMoid o, uint64_t flags)
{
    Guard g;
    need_work("pmemobj_tx_free");
    if (!o.off) return 0;
    Tx &t = tx();
    if (o.pool_uuid_lo != UUID) return fail_err(EINVAL, flags);
    for (auto f : t.frees)
        if (f == o.off) { violation("memory safety: persistent object freed twice in a transaction"); return EINVAL; }
    // an object of this transaction goes away at once
    for (size_t i = 0; i < t.allocs.size(); ++i)
        if (t.allocs[i].first == o.off)
        {
            drop(o.off, t.allocs[i].second.size);
            for (size_t j = 0; j < t.ranges.size(); ++j)
                if (t.ranges[j].off == o.off && t.ranges[j].size == t.allocs[i].second.size)
                {
                    t.ranges.erase(t.ranges.begin() + j);
                    break;
                }
            t.allocs.erase(t.allocs.begin() + i);
            V.reserved.erase(o.off);
            v_dirty = true;
            return 0;
        }
    if (!P.blocks.count(o.off)) { violation("memory safety: free of a persistent object that is not allocated"); return EINVAL; }
    t.frees.push_back(o.off);
    v_dirty = true;
    return 0;
}
EXPORT int pmemobj_tx_free(PMEMoid o) { return pmemobj_tx_xfree(o, 0); }
EXPORT void pmemobj_tx_commit()
{
    {
        Guard g;
        if (tx().stage != TX_STAGE_WORK) { violation("pmemobj_tx_commit outside of a transaction"); return; }
    }
    if (tx().nest.size() == 1)
    {
        sched_point();
        Guard g;
        Tx &t = tx();
        pm_fence();
        crash_event();
        for (auto &r : t.ranges)
            if (!(r.flags & POBJ_FLAG_NO_FLUSH)) pm_certain(pool_base + r.off, r.size);
        crash_event();
        for (auto &a : t.allocs)
        {
            P.blocks[a.first] = a.second;
            V.reserved.erase(a.first);
        }
        for (auto f : t.frees)
        {
            auto it = P.blocks.find(f);
            if (it == P.blocks.end()) { violation("memory safety: free of a persistent object that is not allocated"); return; }
            drop(f, it->second.size);
            P.blocks.erase(it);
        }
        P.undo.erase(cur);
        p_dirty = v_dirty = true;
        t.ranges.clear();
        t.allocs.clear();
        t.frees.clear();
        note_change();
    }
    Guard g;
    tx().stage = TX_STAGE_ONCOMMIT;
    v_dirty = true;
    callback();
}
EXPORT void pmemobj_tx_abort(int e)
{
    Guard g;
    if (tx().stage != TX_STAGE_WORK) { violation("pmemobj_tx_abort outside of a transaction"); return; }
    abort_tx(e);
}
EXPORT int pmemobj_tx_end()
{
    Guard g;
    Tx &t = tx();
    if (t.stage == TX_STAGE_WORK) { violation("pmemobj_tx_end without commit or abort"); return 0; }
    if (t.nest.empty()) { violation("pmemobj_tx_end without a transaction"); return 0; }
    if (t.cb && (t.stage == TX_STAGE_ONCOMMIT || t.stage == TX_STAGE_ONABORT))
    {
        t.stage = TX_STAGE_FINALLY;
        callback();
    }
    t.nest.pop_back();
    int e = t.last_err;
    v_dirty = true;
    if (t.nest.empty())
    {
        auto lks = t.lks;
        auto cb = t.cb;
        auto arg = t.cbarg;
        t = Tx();
        t.last_err = e;
        for (size_t i = lks.size(); i-- > 0;)
        {
            --in_engine;
            os_unlock(lks[i]);
            ++in_engine;
        }
        if (cb)
        {
            --in_engine;
            cb(pop(), TX_STAGE_NONE, arg);
            ++in_engine;
        }
        lks.clear();
        lks.shrink_to_fit();
    }
    else
    {
        t.stage = TX_STAGE_WORK;
        if (t.last_err) abort_tx(t.last_err);
    }
    return e;
}
EXPORT void pmemobj_tx_process()
{
    int st = tx().stage;
    if (st == TX_STAGE_WORK) pmemobj_tx_commit();
    else if (st == TX_STAGE_ONCOMMIT || st == TX_STAGE_ONABORT)
    {
        Guard g;
        tx().stage = TX_STAGE_FINALLY;
        callback();
    }
    v_dirty = true;
}

// ---- locks ----
EXPORT void pmemobj_mutex_zero(PMEMobjpool *, PMEMmutex *m) { Guard g; locks.erase((uint64_t)m); do_set(m, 0, sizeof *m); }
EXPORT int pmemobj_mutex_lock(PMEMobjpool *, PMEMmutex *m) { os_lock(m, true); return 0; }
EXPORT int pmemobj_mutex_timedlock(PMEMobjpool *, PMEMmutex *m, const struct timespec *t) { return os_timedlock(m, true, t) ? 0 : ETIMEDOUT; }
EXPORT int pmemobj_mutex_trylock(PMEMobjpool *, PMEMmutex *m) { return os_trylock(m, true) ? 0 : EBUSY; }
EXPORT int pmemobj_mutex_unlock(PMEMobjpool *, PMEMmutex *m) { os_unlock(m); return 0; }
EXPORT void pmemobj_rwlock_zero(PMEMobjpool *, PMEMrwlock *m) { Guard g; locks.erase((uint64_t)m); do_set(m, 0, sizeof *m); }
EXPORT int pmemobj_rwlock_rdlock(PMEMobjpool *, PMEMrwlock *m) { os_lock(m, false); return 0; }
EXPORT int pmemobj_rwlock_wrlock(PMEMobjpool *, PMEMrwlock *m) { os_lock(m, true); return 0; }
EXPORT int pmemobj_rwlock_timedrdlock(PMEMobjpool *, PMEMrwlock *m, const struct timespec *t) { return os_timedlock(m, false, t) ? 0 : ETIMEDOUT; }
EXPORT int pmemobj_rwlock_timedwrlock(PMEMobjpool *, PMEMrwlock *m, const struct timespec *t) { return os_timedlock(m, true, t) ? 0 : ETIMEDOUT; }
EXPORT int pmemobj_rwlock_tryrdlock(PMEMobjpool *, PMEMrwlock *m) { return os_trylock(m, false) ? 0 : EBUSY; }
EXPORT int pmemobj_rwlock_trywrlock(PMEMobjpool *, PMEMrwlock *m) { return os_trylock(m, true) ? 0 : EBUSY; }
EXPORT int pmemobj_rwlock_unlock(PMEMobjpool *, PMEMrwlock *m) { os_unlock(m); return 0; }
EXPORT void pmemobj_cond_zero(PMEMobjpool *, PMEMcond *c)
{
    uint64_t z = 0;
    do_write(c, &z, 8);
}
EXPORT int pmemobj_cond_wait(PMEMobjpool *, PMEMcond *c, PMEMmutex *m) { os_cond_wait(c, m); return 0; }
EXPORT int pmemobj_cond_timedwait(PMEMobjpool *, PMEMcond *c, PMEMmutex *m, const struct timespec *t) { return os_cond_wait(c, m, t) ? 0 : ETIMEDOUT; }
EXPORT int pmemobj_cond_signal(PMEMobjpool *, PMEMcond *c) { os_cond_wake(c, false); return 0; }
EXPORT int pmemobj_cond_broadcast(PMEMobjpool *, PMEMcond *c) { os_cond_wake(c, true); return 0; }
EXPORT void *pmemobj_volatile(PMEMobjpool *p, struct pmemvlt *v, void *ptr, size_t size, int (*constr)(void *, void *), void *arg)
{
    // initialised once per run of the process
    if (v->runid == P.runid) { hb_acquire((uint64_t)v); return ptr; }
    os_lock(v, true);
    void *r = ptr;
    if (v->runid != P.runid)
    {
        if (constr(ptr, arg) < 0) r = nullptr;
        else
        {
            uint64_t id = P.runid;
            if (!P.volatiles) P.volatiles = p_dirty = true;
            do_write(&v->runid, &id, 8);
            (void)p;
            (void)size;
        }
    }
    os_unlock(v);
    return r;
}

// Locks, condition variables and volatile state of libpmemobj++.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include <libpmemobj++/condition_variable.hpp>
#include <libpmemobj++/container/concurrent_hash_map.hpp>
#include <libpmemobj++/detail/enumerable_thread_specific.hpp>
#include <libpmemobj++/detail/volatile_state.hpp>
#include <libpmemobj++/experimental/v.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/mutex.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/shared_mutex.hpp>
#include <libpmemobj++/timed_mutex.hpp>
#include <libpmemobj++/transaction.hpp>
#include <chrono>
#include <new>
using namespace mc;
using namespace pmem::obj;
using namespace std::chrono_literals;
typedef std::chrono::system_clock Sys;
typedef std::chrono::steady_clock Mono;
// the clocks of the machine differ, and this one runs in other units
struct Milli
{
    typedef std::chrono::milliseconds duration;
    typedef duration::rep rep;
    typedef duration::period period;
    typedef std::chrono::time_point<Milli> time_point;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(std::chrono::duration_cast<duration>(Mono::now().time_since_epoch()) + 777h); }
};
typedef concurrent_hash_map_internal::shared_mutex_scoped_lock<shared_mutex> Scoped;
struct Vol
{
    uint64_t x;
    static long built;
    Vol() : x(1) { ++built; }
    Vol(uint64_t a) : x(a) { ++built; }
    Vol(uint64_t a, uint64_t b) : x(a * 100 + b) { ++built; }
};
long Vol::built;
struct Vola
{
    uint64_t x = 0;
    static long live;
    Vola() { ++live; }
    ~Vola() { --live; }
};
long Vola::live;
typedef pmem::detail::enumerable_thread_specific<p<uint64_t>> Ets;
struct Root
{
    mutex m;
    timed_mutex t;
    shared_mutex s;
    condition_variable c, d;
    experimental::v<Vol> v, w;
    experimental::v<uint64_t> n;
    uint64_t data[3], flag, posts;
    persistent_ptr<Ets> ets;
    p<uint64_t> obj[3];
};
enum { O_M, O_T, O_S };
enum { K_LOCK, K_TRY, K_FOR, K_UNTIL, K_MONO, K_PAST, K_MILLI, K_SCOPED, K_TRYSCOPED, K_GUARD, KINDS };
static const char *KN[] = {"lock", "try_lock", "try_lock_for", "try_lock_until", "try_lock_until(steady)", "try_lock_until(past)", "try_lock_until(ms)", "scoped", "try-scoped", "guard"};
enum { VO_GET = 200, VO_SET, VO_SWAP, VO_ASSIGN, VO_CAST, VO_NUM, S_GET, S_PEEK, S_DESTROY, S_TX, X_DRAM, X_DIRTY };
enum { W_PLAIN, W_UNIQUE, W_PRED, W_UPRED, W_FOR, W_UFOR, W_FORPRED, W_UFORPRED, W_UNTIL, W_UUNTIL, W_UNTILPRED, W_UUNTILPRED, W_MONO, W_MONOPRED, W_PAST, W_PASTPRED, WAITS };
struct SyncHarness : Harness
{
    pool<Root> pop;
    struct Hold { int mode = -1; Scoped *sc = nullptr; };
    Hold held[8][3];
    // what v and w hold since the start of the process; ~0: nothing yet
    uint64_t gv, gw, gn;
    Vola *gs[3];
    uint64_t gx[3];
    p<uint64_t> *mine[8];
    bool inside;
    Root &R() { return *pop.root(); }
    void fresh()
    {
        memset(held, 0, sizeof held);
        for (auto &h : held) for (auto &x : h) x = Hold();
        gv = gw = gn = ~0ull;
        Vol::built = 0;
        for (int i = 0; i < 3; ++i) gs[i] = nullptr;
        Vola::live = 0;
        for (auto &x : mine) x = nullptr;
    }
    void start(const Scenario &s) override
    {
        fresh();
        mc_ghost(this, sizeof *this);
        mc_ghost(&Vol::built, sizeof Vol::built);
        mc_ghost(&Vola::live, sizeof Vola::live);
        inside = s.param("inside");
        mc_mkdirs("/mnt/pmem/pm1/");
        pop = pool<Root>::create("/mnt/pmem/pm1/t", "sync", PMEMOBJ_MIN_POOL);
        transaction::run(pop, [&] { pop.root()->ets = make_persistent<Ets>(); });
    }
    void reopen(const Scenario &) override
    {
        fresh();
        pop = pool<Root>::open("/mnt/pmem/pm1/t", "sync");
        R().flag = R().posts = 0;
    }
    // A timed operation gives up when its time is over, and not later.
    struct Clock
    {
        Sys::time_point at = Sys::now();
        void over(bool gave_up, Sys::duration after)
        {
            auto now = Sys::now();
            if (gave_up) mc_assert(now == at + std::max(after, Sys::duration(0)), "a timed operation gave up at another time than it was told");
            else mc_assert(now == at, "a timed operation lost time");
        }
    };
    template <class L> int timed(L &l, int kind)
    {
        Clock c;
        bool r = false;
        Sys::duration d = 0s;
        switch (kind)
        {
        case K_FOR: d = (1500ms + 1234567ns); r = l.try_lock_for((1500ms + 1234567ns)); break;
        case K_UNTIL: d = (2s + 1234567ns); r = l.try_lock_until(Sys::now() + (2s + 1234567ns)); break;
        case K_MONO: d = (3700ms + 1234567ns); r = l.try_lock_until(Mono::now() + (3700ms + 1234567ns)); break;
        case K_PAST: d = -1s; r = l.try_lock_until(Sys::now() - 1s); break;
        case K_MILLI: d = (1234ms + 1234567ns); r = l.try_lock_until(Milli::now() + (1234ms + 1234567ns)); break;
        default: return -1;
        }
        c.over(!r, d);
        return r;
    }
    uint64_t acquire(int o, int mode, int kind, int tid)
    {
        Root &r = R();
        Hold &h = held[tid][o];
        bool got = false;
        if (o == O_M) { if (kind == K_TRY) got = r.m.try_lock(); else got = true, r.m.lock(); }
        else if (o == O_T)
        {
            if (kind == K_LOCK) got = true, r.t.lock();
            else if (kind == K_TRY) got = r.t.try_lock();
            else got = timed(r.t, kind);
        }
        else if (kind == K_SCOPED) got = true, h.sc = new Scoped(r.s, !mode);
        else if (kind == K_TRYSCOPED) h.sc = new Scoped, got = h.sc->try_acquire(r.s, !mode);
        else if (kind == K_TRY) got = mode ? r.s.try_lock_shared() : r.s.try_lock();
        else got = true, mode ? r.s.lock_shared() : r.s.lock();
        if (!got) { delete h.sc; h.sc = nullptr; return 0; }
        h.mode = mode;
        uint64_t v = r.data[o]; // data races are reported
        mc_point();
        if (mode) mc_assert(r.data[o] == v, "data changed under a shared lock");
        else r.data[o] = v + 1;
        return 1;
    }
    uint64_t release(int o, int tid)
    {
        Root &r = R();
        Hold &h = held[tid][o];
        if (h.mode < 0) return 0;
        if (h.sc)
        {
            if (h.mode) h.sc->release(); // the destructor has nothing left to do
            delete h.sc;
        }
        else if (o == O_M) r.m.unlock();
        else if (o == O_T) r.t.unlock();
        else if (h.mode) r.s.unlock_shared();
        else r.s.unlock();
        h = Hold();
        return 1;
    }
    uint64_t wait(int how)
    {
        Root &r = R();
        Clock c;
        std::unique_lock<mutex> u(r.m);
        auto ready = [&] { return r.flag > 0; };
        uint64_t posts = r.posts;
        bool ok = true, plain = false;
        Sys::duration d = 0s;
        auto st = [&](std::cv_status s) { ok = s == std::cv_status::no_timeout, plain = true; };
        switch (how)
        {
        case W_PLAIN: while (!ready()) r.c.wait(r.m); break;
        case W_UNIQUE: while (!ready()) r.c.wait(u); break;
        case W_PRED: r.c.wait(r.m, ready); break;
        case W_UPRED: r.c.wait(u, ready); break;
        case W_FOR: d = (1500ms + 1234567ns); st(r.c.wait_for(r.m, (1500ms + 1234567ns))); break;
        case W_UFOR: d = (1501ms + 1234567ns); st(r.c.wait_for(u, (1501ms + 1234567ns))); break;
        case W_FORPRED: d = (1502ms + 1234567ns); ok = r.c.wait_for(r.m, (1502ms + 1234567ns), ready); break;
        case W_UFORPRED: d = (1503ms + 1234567ns); ok = r.c.wait_for(u, (1503ms + 1234567ns), ready); break;
        case W_UNTIL: d = (2s + 1234567ns); st(r.c.wait_until(r.m, Sys::now() + (2s + 1234567ns))); break;
        case W_UUNTIL: d = (2001ms + 1234567ns); st(r.c.wait_until(u, Sys::now() + (2001ms + 1234567ns))); break;
        case W_UNTILPRED: d = (2002ms + 1234567ns); ok = r.c.wait_until(r.m, Sys::now() + (2002ms + 1234567ns), ready); break;
        case W_UUNTILPRED: d = (2003ms + 1234567ns); ok = r.c.wait_until(u, Sys::now() + (2003ms + 1234567ns), ready); break;
        case W_MONO: d = (3700ms + 1234567ns); st(r.c.wait_until(r.m, Mono::now() + (3700ms + 1234567ns))); break;
        case W_MONOPRED: d = (3701ms + 1234567ns); ok = r.c.wait_until(u, Milli::now() + (3701ms + 1234567ns), ready); break;
        case W_PAST: d = -1s; st(r.c.wait_until(r.m, Sys::now() - 1s)); break;
        case W_PASTPRED: d = -1s; ok = r.c.wait_until(u, Mono::now() - 1s, ready); break;
        }
        if (plain)
        {
            c.over(!ok, d);
            mc_assert(!inside || !ok || r.posts != posts, "a wait ended without a notification");
            ok = ready();
        }
        else
        {
            mc_assert(ok == ready(), "a wait for a condition returns another value than the condition has");
            if (!ok) c.over(true, d); // it may also have timed out in time to see the condition
            else if (how < W_FOR) c.over(false, d);
        }
        mc_assert(!r.m.try_lock(), "the mutex is free after a wait");
        if (ok) --r.flag;
        return ok;
    }
    void post(bool all, bool inside)
    {
        Root &r = R();
        r.m.lock();
        ++r.flag, ++r.posts;
        if (all) ++r.flag;
        if (inside) all ? r.c.notify_all() : r.c.notify_one();
        r.m.unlock();
        if (!inside) all ? r.c.notify_all() : r.c.notify_one();
    }
    PMEMoid oid(int i) { return pmemobj_oid(&R().obj[i]); }
    typedef pmem::detail::volatile_state VS;
    Vola *seen(int i, Vola *s)
    {
        mc_assert(!gs[i] || gs[i] == s, "the volatile state of an object is another one than before");
        for (int j = 0; j < 3; ++j) mc_assert(j == i || !s || gs[j] != s, "two objects share their volatile state");
        return gs[i] = s;
    }
    uint64_t exec(const Op &o) override
    {
        Root &r = R();
        switch (o.code)
        {
        case LK_ACQ: return acquire(o.a & 15, o.a >> 4 & 15, o.a >> 8, o.b);
        case LK_REL: return release(o.a & 15, o.b);
        case C_WAIT: return wait(o.a);
        case C_POST: return post(o.a, o.b), 0;
        case C_CHECK: return r.flag;
        case VO_GET:
        {
            uint64_t want = o.a == 0 ? 1 : o.a == 1 ? 5 : 809, x;
            Vol &v = o.a == 0 ? r.v.get() : o.a == 1 ? r.v.get(5) : r.v.get(8, 9);
            x = v.x;
            mc_assert(&v == &r.v.unsafe_get(), "the volatile object is elsewhere");
            if (o.b) mc_assert((x == 1 || x == 5 || x == 809) && Vol::built == 1, "a volatile object was not constructed exactly once");
            else
            {
                if (gv == ~0ull) gv = want;
                mc_assert(x == gv, "a volatile object has another value than it was given");
            }
            return x;
        }
        case VO_SET: { Vol z; z.x = 7; --Vol::built; r.v = z; gv = 7; return 0; }
        case VO_CAST: { Vol &z = r.w; if (gw == ~0ull) gw = 1; mc_assert(z.x == gw, "a volatile object has another value than it was given"); z.x = gw = z.x + 10; return gw; }
        case VO_SWAP:
            if (gv == ~0ull) gv = 1;
            if (gw == ~0ull) gw = 1;
            if (o.a) swap(r.v, r.w);
            else r.v.swap(r.w);
            std::swap(gv, gw);
            return 0;
        case VO_ASSIGN: if (gw == ~0ull) gw = 1; r.v = r.w; gv = gw; return 0;
        case VO_NUM: { uint64_t k = gn == ~0ull ? 0 : gn; mc_assert(r.n == k, "a volatile number is not zero at first"); r.n = gn = k + o.a; return gn; }
        case S_GET:
        {
            Vola *s = VS::get<Vola>(oid(o.a));
            seen(o.a, s);
            if (!o.b) mc_assert(s->x == gx[o.a] || s->x == 0, "the volatile state was overwritten"), s->x = gx[o.a] = o.a + 100;
            return 0;
        }
        case S_PEEK: { Vola *s = VS::get_if_exists<Vola>(oid(o.a)); if (!o.b) mc_assert(!!s == !!gs[o.a], "volatile state exists or not"); if (s) seen(o.a, s); return !!s; }
        case S_DESTROY: VS::destroy(oid(o.a)); gs[o.a] = nullptr; mc_assert(Vola::live == !!gs[0] + !!gs[1] + !!gs[2], "volatile states are destroyed once"); return 0;
        case S_TX: // o.b & 1: destroy, else get; o.b & 2: abort
        {
            bool scope = false;
            try
            {
                transaction::run(pop, [&] {
                    if (o.b & 1)
                    {
                        VS::destroy(oid(o.a));
                        mc_assert(VS::get_if_exists<Vola>(oid(o.a)) == gs[o.a], "volatile state is destroyed before the commit");
                    }
                    else seen(o.a, VS::get<Vola>(oid(o.a)));
                    if (o.b & 2) throw 1;
                });
                if (o.b & 1) gs[o.a] = nullptr;
            }
            catch (int) {}
            catch (pmem::transaction_scope_error &) { scope = true; }
            mc_assert(scope == (!(o.b & 1) && !gs[o.a]), "volatile state in a transaction");
            mc_assert(Vola::live == !!gs[0] + !!gs[1] + !!gs[2], "volatile states are destroyed once");
            return scope;
        }
        case E_LOCAL:
        {
            auto &x = r.ets->local();
            if (o.b)
            {
                mc_assert(!mine[o.b] || mine[o.b] == &x, "the element of a thread has moved");
                mine[o.b] = &x;
                for (unsigned i = 1; i < 8; ++i) mc_assert(i == o.b || mine[i] != &x, "two threads share an element");
            }
            uint64_t v = x.get_ro();
            mc_point();
            x.get_rw() = v + 1; // data races are reported
            pop.persist(x);
            if (o.a) mine[o.b] = nullptr; // the thread's last one; another may have its number from now on
            return 0;
        }
        case E_SUM:
        {
            uint64_t n = 0, k = 0, q = 0;
            const Ets &c = *r.ets;
            for (auto &x : *r.ets) n += x.get_ro(), ++k;
            for (auto &x : c) q += x.get_ro();
            mc_assert(n == q && k == c.size() && c.empty() == !k, "size and iteration of thread specific values disagree");
            return n;
        }
        case E_INIT:
        {
            uint64_t n = 0;
            r.ets->initialize([&](p<uint64_t> &x) { n += x.get_ro(); });
            mc_assert(r.ets->size() == 0 && r.ets->empty(), "thread specific values remain after their initialisation");
            for (auto &x : mine) x = nullptr;
            return n;
        }
        case E_CLEAR:
            try
            {
                transaction::run(pop, [&] { r.ets->clear(); if (o.a) throw 1; });
                for (auto &x : mine) x = nullptr;
            }
            catch (int) {}
            return 0;
        case X_DRAM:
        {
            int n = 0;
            auto no = [&](auto *t)
            {
                typedef std::remove_pointer_t<decltype(t)> T;
                alignas(T) char b[sizeof(T)];
                try { new (b) T; } catch (pmem::lock_error &) { ++n; }
            };
            no((mutex *)0), no((timed_mutex *)0), no((shared_mutex *)0), no((condition_variable *)0);
            return n;
        }
        case X_DIRTY:
            memset((void *)&r.d, 0xff, sizeof r.d);
            new (&r.d) condition_variable;
            mc_assert(*(uint64_t *)&r.d == 0, "a condition variable is constructed without being initialised");
            mc_assert((void *)r.d.native_handle() == (void *)&r.d && (void *)r.m.native_handle() == (void *)&r.m && (void *)r.s.native_handle() == (void *)&r.s && (void *)r.t.native_handle() == (void *)&r.t, "native handles");
            return r.m.lock_type() * 10 + r.s.lock_type();
        }
        return 0;
    }
    std::string show(const Op &o) override
    {
        static const char *W[] = {"wait", "wait(u)", "wait(pred)", "wait(u,pred)", "wait_for", "wait_for(u)", "wait_for(pred)", "wait_for(u,pred)", "wait_until", "wait_until(u)", "wait_until(pred)", "wait_until(u,pred)", "wait_until(steady)", "wait_until(steady,pred)", "wait_until(past)", "wait_until(past,pred)"};
        static const char *N[] = {"v.get", "v=", "swap", "v=w", "w", "n", "state", "state?", "destroy", "tx", "dram", "dirty"}, *E[] = {"flag", "local", "sum", "initialize", "clear"};
        if (o.code == LK_ACQ) return std::string(o.a >> 4 & 15 ? "shared " : "") + KN[o.a >> 8] + "(" + "mts"[o.a & 15] + ")";
        if (o.code == LK_REL) return std::string("unlock(") + "mts"[o.a & 15] + ")";
        if (o.code == C_WAIT) return W[o.a];
        if (o.code == C_POST) return std::string(o.a ? "notify_all" : "notify_one") + (o.b ? "" : "(after unlock)");
        if (o.code == REOPEN) return "clean restart";
        if (o.code < 200) return std::string(E[o.code - C_CHECK]) + "(" + num(o.a) + ")";
        return std::string(N[o.code - 200]) + "(" + num(o.a) + "," + num(o.b) + ")";
    }
};
extern "C" Harness *mc_harness() { return new SyncHarness; }
extern "C" void mc_scenarios(const char *, int thorough, std::vector<Scenario> *out)
{
    SyncHarness h;
    Out o{out, [&](const Op &x) { return h.show(x); }, {{"pool", 1 << 20}}};
    auto go = [&](Scenario &s, bool race = true) -> Scenario & { s.spec = "lock"; s.race = race; return s; };
    int B = thorough ? 4 : 3;
    std::vector<std::vector<std::pair<int, int>>> how(3);
    how[O_M] = {{0, K_LOCK}, {0, K_TRY}};
    for (int k : {K_LOCK, K_TRY, K_FOR, K_UNTIL, K_MONO, K_PAST, K_MILLI}) how[O_T].push_back({0, k});
    for (int m : {0, 1})
        for (int k : {K_LOCK, K_TRY, K_SCOPED, K_TRYSCOPED}) how[O_S].push_back({m, k});
    auto pair = [](int ob, std::pair<int, int> x, uint64_t tid) { return std::vector<Op>{{LK_ACQ, (uint64_t)ob | x.first << 4 | x.second << 8, tid}, {LK_REL, (uint64_t)ob, tid}}; };
    for (int ob = 0; ob < 3; ++ob)
        for (size_t i = 0; i < how[ob].size(); ++i)
            for (size_t j = i; j < how[ob].size(); ++j)
            {
                auto &H = how[ob];
                go(o.add("two", {}, {pair(ob, H[i], 1), pair(ob, H[j], 2)}, {}, B));
                go(o.add("again", {}, {cat(pair(ob, H[i], 1), pair(ob, H[j], 1)), cat(pair(ob, H[j], 2), pair(ob, H[i], 2))}, {}, B));
                for (size_t k = j; k < H.size(); ++k)
                    if (ob == O_S || thorough || (i < 3 && j < 3)) go(o.add("three", {}, {pair(ob, H[i], 1), pair(ob, H[j], 2), pair(ob, H[k], 3)}, {}, B - 1));
            }
    go(o.add("independent", {}, {cat(pair(O_M, {0, K_TRY}, 1), pair(O_T, {0, K_TRY}, 1)), cat(pair(O_T, {0, K_TRY}, 2), pair(O_S, {0, K_TRY}, 2)), pair(O_S, {1, K_TRY}, 3)}, {}, B - 1));
    // conditions
    for (uint64_t w = 0; w < WAITS; ++w)
        for (uint64_t all : {0, 1})
            for (uint64_t in : {0, 1})
            {
                go(o.add("cond", {}, {{{C_WAIT, w}}, {{C_POST, all, in}}}, {{C_CHECK}}, B + 1)).p["inside"] = in;
                for (uint64_t v = w; v < WAITS; ++v)
                    if (thorough || v == w || v == W_PRED || w == W_PLAIN)
                    {
                        if (all) go(o.add("cond", {}, {{{C_WAIT, w}}, {{C_WAIT, v}}, {{C_POST, 1, in}}}, {{C_CHECK}}, B - 1)).p["inside"] = in;
                        else go(o.add("cond", {}, {{{C_WAIT, w}}, {{C_WAIT, v}}, {{C_POST, 0, in}, {C_POST, 0, in}}}, {{C_CHECK}}, B - 1)).p["inside"] = in;
                    }
            }
    // volatile objects
    for (uint64_t a : {0, 1, 2})
        for (uint64_t b : {0, 1, 2}) go(o.add("v", {}, {{{VO_GET, a, 1}}, {{VO_GET, b, 1}}, {{VO_GET, b, 1}, {VO_GET, a, 1}}}, {}, B));
    int d = thorough ? 6 : 4;
    go(o.seq("v", {}, {{VO_GET, 0}, {VO_GET, 1}, {VO_GET, 2}, {VO_SET}, {VO_SWAP, 0}, {VO_SWAP, 1}, {VO_ASSIGN}, {VO_CAST}, {VO_NUM, 3}, {REOPEN}}, d, {}));
    go(o.seq("state", {}, {{S_GET, 0}, {S_GET, 1}, {S_PEEK, 0}, {S_PEEK, 1}, {S_DESTROY, 0}, {S_TX, 0, 0}, {S_TX, 0, 1}, {S_TX, 0, 2}, {S_TX, 0, 3}, {S_TX, 1, 1}, {REOPEN}}, d, {{S_PEEK, 0}, {S_PEEK, 1}}));
    for (uint64_t a : {0, 1}) go(o.add("state", {}, {{{S_GET, 0, 1}, {S_GET, a, 1}}, {{S_GET, 0, 1}, {S_PEEK, a, 1}}, {{S_PEEK, 0, 1}, {S_GET, 1, 1}}}, {{S_PEEK, 0}, {S_DESTROY, 0}, {S_PEEK, 0}}, B - 1));
    // values of threads
    std::vector<Op> fin = {{E_SUM}, {REOPEN}, {E_SUM}, {E_LOCAL}, {E_INIT}, {E_LOCAL}, {E_SUM}};
    for (int n : {1, 2, 3})
        for (bool warm : {false, true})
        {
            std::vector<std::vector<Op>> th;
            for (uint64_t i = 1; i <= (uint64_t)n; ++i) th.push_back({{E_LOCAL, 0, i}, {E_LOCAL, 1, i}});
            std::vector<Op> f = fin;
            go(o.add("ets", warm ? std::vector<Op>{{E_LOCAL}, {E_LOCAL}} : std::vector<Op>{}, th, f, n == 3 ? 1 : B - 1)).p["ets"] = 1;
        }
    go(o.seq("ets", {}, {{E_LOCAL}, {E_SUM}, {E_INIT}, {E_CLEAR, 0}, {E_CLEAR, 1}, {REOPEN}}, d, {{E_SUM}, {E_LOCAL}, {E_SUM}})).p["ets"] = 1;
    {
        auto &c = go(o.seq("ets-crash", {}, {{E_LOCAL}, {E_INIT}, {E_CLEAR, 0}, {E_CLEAR, 1}}, thorough ? 3 : 2, {{E_SUM}}));
        c.race = false, c.crash = true, c.p["ets"] = 1;
        c.post = {{E_LOCAL}, {E_LOCAL}, {E_SUM}, {E_INIT}, {E_LOCAL}, {E_SUM}};
    }
    go(o.seq("new", {}, {{X_DRAM}, {X_DIRTY}}, 2, {}));
}

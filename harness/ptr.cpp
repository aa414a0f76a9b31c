// Persistent pointers, scalars, typed allocation, pools and defragmentation of libpmemobj++.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include <libpmemobj++/allocator.hpp>
#include <libpmemobj++/container/segment_vector.hpp>
#include <libpmemobj++/container/string.hpp>
#include <libpmemobj++/container/vector.hpp>
#include <libpmemobj++/defrag.hpp>
#include <libpmemobj++/detail/compound_pool_ptr.hpp>
#include <libpmemobj++/detail/persistent_pool_ptr.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/make_persistent_array_atomic.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pext.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
#include <sstream>
using namespace mc;
using namespace pmem::obj;
static const uint64_t ALIVE = 0x5a5a, DEAD = 0xdead;
static long made, gone, bomb; // constructions, destructions, the one that throws
static uint64_t gtag, order, last_gone;
struct Made
{
    void make(uint64_t t) { if (bomb && !--bomb) throw 77; ++made; (void)t; }
};
struct Obj : Made // an object which notes its end through p<>, as it should
{
    uint64_t tag, seq, pad[6];
    p<uint64_t> state;
    void init(uint64_t t) { make(t); tag = t, seq = order++, state = ALIVE; memset(pad, t, sizeof pad); }
    Obj() { init(gtag); }
    Obj(uint64_t t) { init(t); }
    Obj(const uint64_t &a, uint64_t &&b) { init(a + b); }
    ~Obj() { mc_assert(state == ALIVE, "an object is destroyed twice or before it is constructed"); ++gone; last_gone = seq; state = DEAD; asm volatile("" ::"r"(this) : "memory"); }
};
struct Raw : Made // one which notes it directly: its allocator keeps it safe
{
    uint64_t tag, seq, pad[6], state;
    void init(uint64_t t) { make(t); tag = t, seq = order++, state = ALIVE; memset(pad, t, sizeof pad); }
    Raw() { init(gtag); }
    Raw(uint64_t t) { init(t); }
    Raw(const Raw &o) { init(o.tag); }
    ~Raw() { mc_assert(state == ALIVE, "an object is destroyed twice or before it is constructed"); ++gone; last_gone = seq; state = DEAD; asm volatile("" ::"r"(this) : "memory"); }
};
struct Pod { uint64_t a, b, c, d, e; };
struct B1 { uint64_t x; };
struct B2 { uint64_t y; };
struct Der : B1, B2 { uint64_t z; };
struct alignas(64) Wide { uint64_t rest[8], last; }; // two lines
typedef allocator<Raw> Alloc;
typedef pmem::detail::persistent_pool_ptr<uint64_t> PP;
typedef pmem::detail::persistent_pool_ptr<const uint64_t> CPP;
typedef pmem::detail::compound_pool_ptr<uint64_t> CP;
struct Root
{
    persistent_ptr<Obj> one;
    persistent_ptr<Obj[]> arr;
    persistent_ptr<Obj[4]> fix;
    persistent_ptr<Obj[][2]> mat;
    persistent_ptr<Raw> al;
    persistent_ptr<Pod> pod;
    uint64_t w[8];
    persistent_ptr<uint64_t> q, r;
    PP pq, pr;
    persistent_ptr<const uint64_t> qc;
    CPP pqc;
    p<int64_t> i, j;
    p<uint8_t> b;
    p<double> d;
    Der der[3];
    persistent_ptr<vector<p<uint64_t>>> vec;
    persistent_ptr<string> str;
    persistent_ptr<segment_vector<p<uint64_t>>> seg;
    uint64_t note;
    Wide wide[10];
    p<uint64_t> word[5];
    persistent_ptr<uint64_t> at[4];
};
enum { SLOTS = 6, STORED = 10, STORES = 16 }; // keys from STORED on: words stored in some way
enum { J_ABORT_ALLOC = 200, J_ABORT_FREE, J_THROW, J_SCOPE, J_PTR, J_POOLPTR, J_P, J_RELATIONS, J_POOL, J_DEFRAG, J_CHECK, J_COMPOUND, J_BIG, J_FLAGS };
enum { A_TX, A_ATOMIC, A_FLAG, A_ATOMICFLAG, A_TWO, A_NESTED };
static const int LEN[SLOTS] = {1, 3, 4, 4, 3, 0};
struct PtrHarness : Harness
{
    pool<Root> pop;
    long base_blocks;
    int64_t gi, gj;   // what i, j, b, d should be
    uint8_t gb;
    double gd;
    int pos[2][3];    // where q, r, qc / pq, pr, pqc should point; -1: null
    bool is_open, exists;
    int layout;
    uint64_t note;
    long kept;        // constructed before this run
    bool dfr;
    Root &R() { return *pop.root(); }
    static const char *path() { return "/mnt/pmem/pm1/t"; }
    void start(const Scenario &s) override
    {
        mc_mkdirs("/mnt/pmem/pm1/");
        pop = pool<Root>::create(path(), "ptr", PMEMOBJ_MIN_POOL);
        Root &r = R();
        made = gone = bomb = 0;
        order = 0, last_gone = ~0ull, kept = 0;
        gi = gj = 0, gb = 0, gd = 0;
        for (auto &x : pos) x[0] = x[1] = x[2] = -1;
        for (int k = 0; k < 8; ++k) r.w[k] = 100 + k;
        is_open = exists = true, layout = 0, note = 0;
        dfr = s.param("defrag");
        if (dfr)
            transaction::run(pop, [&] {
                r.vec = make_persistent<vector<p<uint64_t>>>(5, p<uint64_t>(7));
                r.str = make_persistent<string>("a text that is too long to be a short string, surely");
                r.seg = make_persistent<segment_vector<p<uint64_t>>>(20, p<uint64_t>(9));
            });
        pop.persist(&r, sizeof r);
        base_blocks = mc_pool_blocks();
    }
    void reopen(const Scenario &) override
    {
        pop = pool<Root>::open(path(), "ptr");
        made = gone = bomb = 0;
        order = 0, kept = 0;
        for (int s = 0; s < SLOTS; ++s)
            if (!null(s)) kept += LEN[s];
        base_blocks = mc_pool_blocks();
        for (int s = 0; s < SLOTS; ++s) base_blocks -= !null(s);
        Root &r = R();
        gi = r.i, gj = r.j, gb = r.b, gd = r.d;
        pos[0][2] = index((uint64_t *)r.qc.get()), pos[1][2] = index((uint64_t *)r.pqc.get(uuid()));
        // scalars changed outside a transaction were persisted
        for (int k = 0; k < 2; ++k)
        {
            pos[0][k] = index(k ? r.r.get() : r.q.get());
            pos[1][k] = index((k ? r.pr : r.pq).get(uuid()));
        }
    }
    uint64_t uuid() { return pop.root().raw().pool_uuid_lo; }
    int index(uint64_t *x) { return x ? x - R().w : -1; }
    bool null(int s)
    {
        Root &r = R();
        switch (s)
        {
        case 0: return r.one == nullptr;
        case 1: return nullptr == r.arr;
        case 2: return !r.fix;
        case 3: return !(r.mat != nullptr);
        case 4: return r.al.get() == nullptr;
        default: return !(nullptr != r.pod);
        }
    }
    template <class T> uint64_t whole(T *o, int n)
    {
        for (int k = 0; k < n; ++k)
        {
            mc_assert(o[k].state == ALIVE && o[k].tag == o->tag && o[k].seq == o->seq + k, "an allocated object is not as it was constructed");
            for (auto x : o[k].pad) mc_assert((x & 255) == (o->tag & 255), "an allocated object is not as it was constructed");
        }
        return o->tag;
    }
    uint64_t read(int s)
    {
        Root &r = R();
        if (null(s)) return ABSENT;
        switch (s)
        {
        case 0: return whole(&*r.one, 1);
        case 1: return whole(&r.arr[0], 3);
        case 2: return whole(&r.fix[0], 4);
        case 3: return whole(&r.mat[0][0], 4);
        case 4: return whole(r.al.get(), 3);
        default: mc_assert(r.pod->b == r.pod->a + 1 && !r.pod->c && !r.pod->d && !r.pod->e, "an allocated object is not as it was constructed"); return r.pod->a;
        }
    }
    void tally()
    {
        long n = 0, live = 0;
        for (int s = 0; s < SLOTS; ++s)
            if (!null(s)) ++n, live += LEN[s];
        mc_assert(mc_pool_blocks() == base_blocks + n, "the pool holds other objects than those pointed to");
        mc_assert(!mc_pool_reserved(), "a reservation was neither used nor given up");
        mc_assert(kept + made - gone == live, "objects are not constructed and destroyed once each");
    }
    void create(int s, uint64_t t, int how) // in a transaction
    {
        Root &r = R();
        auto z = allocation_flag::none();
        bool f = how == A_FLAG;
        switch (s)
        {
        case 0: r.one = f ? make_persistent<Obj>(z, t) : how == A_TWO ? make_persistent<Obj>(3, t - 3) : make_persistent<Obj>(t); break;
        case 1: r.arr = f ? make_persistent<Obj[]>(3, z) : make_persistent<Obj[]>(3); break;
        case 2: r.fix = f ? make_persistent<Obj[4]>(z) : make_persistent<Obj[4]>(); break;
        case 3: r.mat = make_persistent<Obj[][2]>(2); break;
        case 4:
        {
            Alloc a;
            r.al = a.allocate(3);
            mc_assert(pmemobj_tx_stage() == TX_STAGE_WORK && r.al != nullptr, "an allocator returns no memory and does not say so");
            for (int k = 0; k < 3; ++k)
            {
                if (k == 1) { alignas(Raw) char b[sizeof(Raw)]; auto *src = (Raw *)b; src->tag = t; a.construct(r.al + k, (const Raw &)*src); }
                else a.construct(r.al + k, t);
            }
            break;
        }
        default: r.pod = f ? make_persistent<Pod>(z, t, t + 1) : make_persistent<Pod>(t, t + 1); break;
        }
    }
    void destroy(int s)
    {
        Root &r = R();
        last_gone = ~0ull;
        switch (s)
        {
        case 0: delete_persistent<Obj>(r.one); r.one = nullptr; break;
        case 1: delete_persistent<Obj[]>(r.arr, 3); r.arr = nullptr; break;
        case 2: delete_persistent<Obj[4]>(r.fix); r.fix = nullptr; break;
        case 3: delete_persistent<Obj[][2]>(r.mat, 2); r.mat = nullptr; break;
        case 4:
        {
            Alloc a;
            for (int k = 3; k-- > 0;) a.destroy(r.al + k);
            a.deallocate(r.al, 3);
            r.al = nullptr;
            break;
        }
        default: delete_persistent<Pod>(r.pod); r.pod = nullptr; break;
        }
    }
    void atomic(int s, uint64_t t, bool f)
    {
        Root &r = R();
        auto z = allocation_flag_atomic::none();
        switch (s)
        {
        case 0: f ? make_persistent_atomic<Obj>(pop, r.one, z, t) : make_persistent_atomic<Obj>(pop, r.one, t); break;
        case 1: f ? make_persistent_atomic<Obj[]>(pop, r.arr, 3, z) : make_persistent_atomic<Obj[]>(pop, r.arr, 3); break;
        case 2: f ? make_persistent_atomic<Obj[4]>(pop, r.fix, z) : make_persistent_atomic<Obj[4]>(pop, r.fix); break;
        case 3: make_persistent_atomic<Obj[][2]>(pop, r.mat, 2); break;
        default: f ? make_persistent_atomic<Pod>(pop, r.pod, z, t, t + 1) : make_persistent_atomic<Pod>(pop, r.pod, t, t + 1); break;
        }
    }
    // changes made in some mode: directly, in a transaction, in an aborted one
    template <class F> bool run(int mode, F f)
    {
        if (mode == 0) { f(); return true; }
        try
        {
            if (mode == 3) transaction::run(pop, [&] { transaction::run(pop, f); throw 5; });
            else transaction::run(pop, [&] { f(); if (mode == 2) throw 5; });
        }
        catch (int e) { mc_assert(e == 5, "another exception"); return false; }
        return true;
    }
    uint64_t alloc(int s, uint64_t t, int how)
    {
        if (!null(s)) return read(s);
        gtag = t, order = 0;
        long m = made, g = gone;
        for (int tries = 0; ; ++tries)
        {
            bool failed = false;
            try
            {
                if (how == A_ATOMIC || how == A_ATOMICFLAG) atomic(s, t, how == A_ATOMICFLAG);
                else transaction::run(pop, [&] { if (how == A_NESTED) transaction::run(pop, [&] { create(s, t, how); }); else create(s, t, how); });
            }
            catch (pmem::transaction_out_of_memory &) { failed = true; mc_assert(how != A_ATOMIC && how != A_ATOMICFLAG, "another exception"); }
            catch (std::bad_alloc &) { failed = true; mc_assert(how == A_ATOMIC || how == A_ATOMICFLAG, "an allocation that failed throws something else"); }
            if (!failed) break;
            mc_assert(tries < 1, "an allocation fails although there is memory");
            made = m, gone = g, order = 0;
            mc_assert(null(s), "an allocation that failed changed its pointer");
            tally();
        }
        mc_assert(read(s) == t, "an allocated object is not as it was constructed");
        if (LEN[s]) mc_assert(first(s) == 0, "objects were constructed in another order");
        tally();
        return ABSENT;
    }
    uint64_t first(int s)
    {
        Root &r = R();
        switch (s)
        {
        case 0: return r.one->seq;
        case 1: return r.arr[0].seq;
        case 2: return r.fix[0].seq;
        case 3: return r.mat[0][0].seq;
        default: return r.al->seq;
        }
    }
    uint64_t release(int s, int how)
    {
        bool n = null(s);
        if (n && s == 4) return 0; // deallocate needs memory
        if (how == A_ATOMIC)
        {
            Root &r = R();
            if (!n) gone += LEN[s]; // does not destroy
            switch (s)
            {
            case 0: delete_persistent_atomic<Obj>(r.one); break;
            case 1: delete_persistent_atomic<Obj[]>(r.arr, 3); break;
            case 2: delete_persistent_atomic<Obj[4]>(r.fix); break;
            case 3: delete_persistent_atomic<Obj[][2]>(r.mat, 2); break;
            default: delete_persistent_atomic<Pod>(r.pod); break;
            }
        }
        else
        {
            uint64_t f = n || !LEN[s] ? 0 : first(s);
            transaction::run(pop, [&] { destroy(s); });
            if (!n && LEN[s]) mc_assert(last_gone == f, "objects are not destroyed in the reverse order");
        }
        mc_assert(null(s), "a pointer to a deleted object remains");
        tally();
        return !n;
    }
    // one change of a pointer; P: persistent_ptr or persistent_pool_ptr
    int at(int i, int d) { return i < 0 || i + d < 0 || i + d > 7 ? -2 : i + d; }
    void check_ptrs()
    {
        Root &r = R();
        for (int k = 0; k < 2; ++k)
        {
            auto &x = k ? r.r : r.q;
            auto &y = k ? r.pr : r.pq;
            uint64_t *e = pos[0][k] < 0 ? nullptr : r.w + pos[0][k], *f = pos[1][k] < 0 ? nullptr : r.w + pos[1][k];
            mc_assert(x.get() == e && !!x == !!e && (x == nullptr) == !e && (nullptr != x) == !!e, "a persistent pointer points elsewhere");
            mc_assert(y.get(uuid()) == f && y(uuid()) == f && !!y == !!f && (y == nullptr) == !f && (nullptr != y) == !!f && y.get_persistent_ptr(uuid()).get() == f, "a pool pointer points elsewhere");
            if (e) mc_assert(*x == *e && x[0] == *e && x.operator->() == e && persistent_ptr<void>(x).get() == e && persistent_ptr<const uint64_t>(x).get() == e, "a persistent pointer points elsewhere");
        }
        mc_assert(index((uint64_t *)r.qc.get()) == pos[0][2] && index((uint64_t *)r.pqc.get(uuid())) == pos[1][2], "a pointer to constants points elsewhere");
        mc_assert((nullptr == r.q) == (pos[0][0] < 0) && (nullptr == r.pq) == (pos[1][0] < 0) && (r.q != nullptr) == (pos[0][0] >= 0) && (r.pq != nullptr) == (pos[1][0] >= 0), "comparison with null");
        mc_assert((r.q == r.r) == (pos[0][0] == pos[0][1]) && (r.pq == r.pr) == (pos[1][0] == pos[1][1]) && (r.q != r.r) != (r.q == r.r) && (r.pq != r.pr) != (r.pq == r.pr), "equality of pointers");
    }
    void ptr(int kind, int k, int mode, bool pp)
    {
        Root &r = R();
        auto &g = pos[pp];
        int n = g[0], m = g[1], c = g[2], ret = -3;
        switch (kind)
        {
        case 0: case 1: n = at(n, 1); break;
        case 2: case 3: n = at(n, -1); break;
        case 4: case 11: n = at(n, k); break;
        case 5: case 12: n = at(n, -k); break;
        case 6: n = -1; break;
        case 7: n = k; break;
        case 8: n = m; break;
        case 9: n = m; break; // move
        case 10: std::swap(n, m); break;
        case 13: if (m < 0) return; n = m; break; // through other pointer types
        case 14: std::swap(n, m); break;
        case 15: n = m; break;
        case 16: n = g[0]; break; // itself
        case 17: c = n; break;
        case 18: c = m; break;
        }
        if (n == -2) return;
        bool kept = run(mode, [&] {
            if (!pp)
            {
                auto &a = r.q, &b = r.r;
                switch (kind)
                {
                case 0: mc_assert(&++a == &a, "++"); break;
                case 1: ret = index((a++).get()); break;
                case 2: mc_assert(&--a == &a, "--"); break;
                case 3: ret = index((a--).get()); break;
                case 4: a += k; break;
                case 5: a -= k; break;
                case 6: a = nullptr; break;
                case 7: a = &r.w[k]; break;
                case 8: a = b; break;
                case 9: a = std::move(b); break;
                case 10: a.swap(b); break;
                case 11: a = a + k; break;
                case 12: a = a - k; break;
                case 13: { persistent_ptr<void> v = b; persistent_ptr<const void> cv = (const void *)b.get(); persistent_ptr<uint64_t> t(v), u(v); mc_assert(u == t && cv.get() == v.get(), "void pointers"); a = t; break; }
                case 14: swap(a, b); break;
                case 15: { persistent_ptr_base x(b); a = b.raw(); mc_assert(x.raw().off == b.raw_ptr()->off, "the pointer of the base class"); break; }
                case 16: { auto &c = a; a = c; break; }
                case 17: r.qc = a; break;
                case 18: r.qc = persistent_ptr<const uint64_t>(b); break;
                }
            }
            else
            {
                auto &a = r.pq, &b = r.pr;
                persistent_ptr<uint64_t> w(&r.w[k]);
                switch (kind)
                {
                case 0: mc_assert(&++a == &a, "++"); break;
                case 1: ret = index((a++).get(uuid())); break;
                case 2: mc_assert(&--a == &a, "--"); break;
                case 3: ret = index((a--).get(uuid())); break;
                case 4: a += k; break;
                case 5: a -= k; break;
                case 6: a = nullptr; break;
                case 7: a = w; break;
                case 8: a = b; break;
                case 9: a = std::move(b); break;
                case 10: a.swap(b); break;
                case 11: a = a + k; break;
                case 12: a = a - k; break;
                case 13: a = b.raw_oid(uuid()); break;
                case 14: a.swap(b); break;
                case 15: a.raw() = ((const PP &)b).raw(); break;
                case 16: { auto &c = a; a = c; break; }
                case 17: r.pqc = a; break;
                case 18: r.pqc = b.get_persistent_ptr(uuid()); break;
                }
            }
        });
        if (ret != -3) mc_assert(ret == g[0], "a postfix operator returns another pointer");
        if (kept)
        {
            g[0] = n, g[1] = m, g[2] = c;
            if (mode == 0) pop.persist(&r.q, 3 * sizeof r.q + 3 * sizeof r.pq);
        }
        check_ptrs();
    }
    void scalar(int kind, int k, int mode)
    {
        Root &r = R();
        int64_t a = gi, b = gj, ret = 0, want = 0;
        uint8_t c = gb;
        double e = gd;
        bool val = false;
        std::stringstream ss;
        auto f = [&](auto &x, auto &y, auto &z, auto &w, bool model) {
            int64_t &o = model ? want : ret;
            switch (kind)
            {
            case 0: ++x; break;
            case 1: --x; break;
            case 2: o = x++; val = true; break;
            case 3: o = x--; val = true; break;
            case 4: x += k; z += k; w += k; break;
            case 5: x -= k; z -= k; w -= k; break;
            case 6: x *= k; z *= k; w *= k; break;
            case 7: if (k) x /= k, z /= k, w /= k; break;
            case 8: if (k) x %= k, z %= k; break;
            case 9: x &= k; z &= k; break;
            case 10: x |= k; z |= k; break;
            case 11: x ^= k; z ^= k; break;
            case 12: x <<= k; z <<= k; break;
            case 13: x >>= k; z >>= k; break;
            case 14: x += y; break;
            case 15: x -= y; break;
            case 16: x *= y; break;
            case 17: if (y != 0) x /= y; break;
            case 18: if (y != 0) x %= y; break;
            case 19: x &= y; break;
            case 20: x |= y; break;
            case 21: x ^= y; break;
            case 22: if (y >= 0 && y < 30) x <<= y; break;
            case 23: if (y >= 0 && y < 30) x >>= y; break;
            case 24: x = y; break;
            case 25: x = k; w = k; z = k; break;
            case 26: y = k; break;
            case 27: { using std::swap; swap(x, y); break; }
            case 28: x = z; break;
            case 29: { std::stringstream in(std::to_string(k + 40)); in >> x; break; }
            case 30: { std::stringstream os; os << x << ' ' << w; o = std::hash<std::string>()(os.str()); val = true; break; }
            case 31: o = x + y * 2 - (x < y) + (x == y) + (w > 3); val = true; break;
            }
        };
        f(a, b, c, e, true);
        if (a > 1000000 || a < -1000000) return;
        bool kept = run(mode, [&] { f(r.i, r.j, r.b, r.d, false); });
        if (val) mc_assert(ret == want, "an expression of p<> has another value than that of the plain type");
        if (kept)
        {
            gi = a, gj = b, gb = c, gd = e;
            if (mode == 0) pop.persist(r.i), pop.persist(r.j), pop.persist(r.b), pop.flush(r.d), pop.drain();
        }
        mc_assert(r.i == gi && r.j == gj && r.b == gb && r.d == gd && r.i.get_ro() == gi, "a p<> has another value than the plain type");
    }
    void relations()
    {
        Root &r = R();
        auto P = [&](int k) { return k < 0 ? persistent_ptr<uint64_t>() : persistent_ptr<uint64_t>(&r.w[k]); };
        auto C = [&](int k) { return k < 0 ? persistent_ptr<const uint64_t>(nullptr) : persistent_ptr<const uint64_t>(P(k)); };
        for (int a = -1; a < 8; ++a)
        {
            auto x = P(a);
            mc_assert((x < nullptr) == false && (x <= nullptr) == (a < 0) && (x > nullptr) == (a >= 0) && (x >= nullptr) && (nullptr < x) == (a >= 0) && (nullptr <= x) && !(nullptr > x) && (nullptr >= x) == (a < 0), "comparison with null");
            if (a >= 0)
            {
                mc_assert(x.get() == &r.w[a] && persistent_ptr<uint64_t>::pointer_to(r.w[a]) == x, "the pointer to an object");
                for (int i = -a; i < 8 - a; ++i) mc_assert((x + i).get() == &r.w[a + i] && (x - -i).get() == &r.w[a + i] && (a + i < 0 || i < 0 || x[i] == r.w[a + i]), "pointer arithmetic");
                std::stringstream s, t;
                s << x;
                t << std::hex << "0x" << x.raw().pool_uuid_lo << ", 0x" << x.raw().off;
                mc_assert(s.str() == t.str(), "output of a pointer");
            }
            for (int b = -1; b < 8; ++b)
            {
                auto y = P(b);
                auto z = C(b);
                mc_assert((x == y) == (a == b) && (x != y) == (a != b) && (x == z) == (a == b) && (x != z) == (a != b), "equality of pointers");
                mc_assert((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b) && (x >= y) == (a >= b) && (x < z) == (a < b) && (z >= x) == (b >= a), "order of pointers");
                if (a >= 0 && b >= 0) mc_assert(x - y == a - b && x - z == a - b, "difference of pointers");
            }
        }
        uint64_t dram = 3;
        auto v = persistent_ptr<uint64_t>::pointer_to(dram);
        mc_assert(v.get() == &dram && *v == 3 && v, "the pointer to an object outside the pool");
        mc_assert(!persistent_ptr<uint64_t>(&dram), "a persistent pointer to an object outside the pool");
        for (int k = -1; k < 3; ++k)
        {
            Der *d = k < 0 ? nullptr : &r.der[k];
            B1 *b1 = d;
            B2 *b2 = d;
            persistent_ptr<Der> pd(d);
            persistent_ptr<B1> p1(pd);
            persistent_ptr<B2> p2(pd), e2, n2;
            e2 = pd;
            mc_assert(pd.get() == d && p1.get() == b1 && p2.get() == b2 && e2.get() == b2, "conversion to a base");
            mc_assert((p2 == n2) == !d && (p2 == nullptr) == !d && (e2 == n2) == !d && (p2 < n2) == false, "conversion of a null pointer to a base");
            persistent_ptr<const Der> cd = pd;
            persistent_ptr<const B2> c2 = cd;
            mc_assert(c2.get() == b2 && c2 == p2, "conversion to a base");
            persistent_ptr<void> pv = pd;
            mc_assert(pv.get() == d && !!pv == !!d && persistent_ptr<Der>(pv) == pd, "conversion to void");
            pmem::detail::persistent_pool_ptr<Der> qd(pd);
            mc_assert(qd.get(uuid()) == d, "conversion to a pool pointer");
        }
        PP n, m(nullptr), o(P(3)), q(P(3).raw()), s(o), t(std::move(s));
        mc_assert(n == m && n == nullptr && !(n != m) && o == q && t == o && o != n && o.raw() == P(3).raw().off, "pool pointers");
        mc_assert(pmem::detail::static_persistent_pool_pointer_cast<uint64_t>(o) == o, "pool pointers");
    }
    void compound()
    {
        Root &r = R();
        persistent_ptr<uint64_t> x(&r.w[0]);
        uint64_t off = x.raw().off & ~3ull;
        for (uint64_t partial : {0ull, 0xabcdull})
            for (unsigned mark = 0; mark < 3; ++mark)
            {
                CP c(off | mark | partial << 48);
                mc_assert(c.get_marker() == mark && c.get_offset() == off && c.raw_ptr(uuid()).off == off && (char *)c.get_address(uuid()) == (char *)pmemobj_direct({uuid(), off}) && c(uuid()) == c.get_address(uuid()), "a marked pointer");
                CP d(c.next_state());
                mc_assert(d.get_marker() == mark + 1 && d.get_offset() == off && d.raw() >> 48 == partial && d.is_next_state_of(c) && !c.is_next_state_of(d) && !c.is_next_state_of(c), "the next state of a marked pointer");
                mc_assert(c != d && !(c == d) && c != nullptr && c, "a marked pointer");
                CP e, f(c);
                mc_assert(e == nullptr && !e && f == c, "a marked pointer");
                e = c;
                f = nullptr;
                mc_assert(e == c && f == nullptr && nullptr == f, "a marked pointer");
                e.swap(f);
                mc_assert(f == c && e == nullptr && nullptr != f && f != nullptr && nullptr == e && !(nullptr != e) && !(e != nullptr) && !(f == nullptr) && !(nullptr == f), "a marked pointer");
            }
    }
    void store(int how, uint64_t v)
    {
        Root &r = R();
        Wide &w = r.wide[how % 10];
        persistent_ptr<Wide> pw(&w);
        auto touch = [&] { w.rest[3] = v, w.last = v; };
        switch (how)
        {
        case 0: touch(), pop.persist(&w, sizeof w); break;
        case 1: touch(), pop.flush(&w, sizeof w), pop.drain(); break;
        case 2: touch(), pw.persist(pop); break;
        case 3: touch(), pw.persist(); break;
        case 4: touch(), pw.flush(pop), pop.drain(); break;
        case 5: touch(), pw.flush(), pop.drain(); break;
        case 6: { Wide o; for (auto &x : o.rest) x = v; o.last = v; mc_assert(pop.memcpy_persist(&w, &o, sizeof w) == &w, "memcpy_persist"); break; }
        case 7: mc_assert(pop.memset_persist(&w, v, sizeof w) == &w, "memset_persist"); break;
        case 8: transaction::run(pop, [&] { transaction::snapshot(&w); touch(); }); break;
        case 9: transaction::run(pop, [&] { transaction::snapshot(w.rest, 8); for (auto &x : w.rest) x = v; pop.memcpy_persist(&w.last, &v, 8); }); break;
        case 10: r.word[0] = v, pop.persist(r.word[0]); break;
        case 11: r.word[1] = v, pop.flush(r.word[1]), pop.drain(); break;
        case 12: transaction::run(pop, [&] { r.word[2] = v; }); break;
        case 13: transaction::run(pop, [&] { r.word[3].get_rw() = v; }); break;
        case 14: r.at[0] = &r.w[v], pop.persist(r.at[0]); break;
        case 15: r.at[1] = &r.w[v], pop.flush(r.at[1]), pop.drain(); break;
        }
    }
    uint64_t stored(int how)
    {
        Root &r = R();
        uint64_t v = how < 10 ? r.wide[how].last : how < 14 ? r.word[how - 10].get_ro() : r.at[how - 14] ? index(r.at[how - 14].get()) : 0;
        return how == 7 ? v & 255 : v;
    }
    void flags()
    {
        auto f = allocation_flag::no_flush(), n = allocation_flag::none(), c = allocation_flag::class_id(3);
        auto g = allocation_flag_atomic::class_id(3), m = allocation_flag_atomic::none();
        mc_assert((f | c).is_set(f) && (f | c).is_set(c) && !c.is_set(f) && !n.is_set(f) && (n | f).is_set(f) && (f | c).value == (POBJ_XALLOC_NO_FLUSH | POBJ_CLASS_ID(3)) && !n.value, "allocation flags");
        mc_assert((g | m).is_set(g) && !m.is_set(g) && g.value == POBJ_CLASS_ID(3) && !m.value, "allocation flags");
        transaction::run(pop, [&] {
            auto a = make_persistent<Pod>(f, 1, 2);
            auto b = make_persistent<Pod[]>(3, f);
            auto d = make_persistent<Pod[4]>(f | n);
            mc_assert(a->a == 1 && a->b == 2 && !b[2].e && !d[3].e, "an allocated object is not as it was constructed");
            delete_persistent<Pod>(a), delete_persistent<Pod[]>(b, 3), delete_persistent<Pod[4]>(d);
        });
    }
    uint64_t poolop(int op, int lay)
    {
        static const char *L[] = {"ptr", "other"};
        auto fails = [&](auto f) {
            try { f(); }
            catch (pmem::pool_error &) { return true; }
            return false;
        };
        switch (op)
        {
        case 0: // create
            if (is_open) return 0;
            mc_assert(fails([&] { auto x = pool<Root>::create(path(), L[lay], PMEMOBJ_MIN_POOL); x.close(); }), "a pool is created over another");
            mc_assert(fails([&] { pool<Root>::create("/mnt/pmem/pm1/u", L[lay], PMEMOBJ_MIN_POOL - 1); }), "a pool that is too small is created");
            return 0;
        case 1: // open
            if (is_open) return 0;
            if (fails([&] { auto q = pool<Root>::open(path(), L[lay]); pop = q; })) { mc_assert(lay != layout, "a pool can not be opened"); return 0; }
            mc_assert(lay == layout, "a pool is opened by another name of its layout");
            is_open = true;
            mc_assert(R().note == note, "a value which was persisted has gone");
            return 1;
        case 2: // close
        {
            bool thrown = false;
            try { pop.close(); }
            catch (std::logic_error &) { thrown = true; }
            mc_assert(thrown == !is_open, "closing a pool");
            is_open = false;
            mc_assert(!pop.handle(), "a closed pool has a handle");
            mc_assert(fails([&] { pop.root(); }), "a closed pool has a root");
            return 0;
        }
        case 3: // missing file
            if (is_open) return 0;
            mc_assert(fails([&] { pool<Root>::open("/mnt/pmem/pm1/missing", "ptr"); }), "a pool that is not there can be opened");
            return 0;
        case 4: case 5: case 6: case 7:
        {
            if (!is_open) return 0;
            Root &r = R();
            ++note;
            if (op == 4) r.note = note, pop.persist(&r.note, 8);
            if (op == 5) r.note = note, pop.flush(&r.note, 8), pop.drain();
            if (op == 6) mc_assert(pop.memcpy_persist(&r.note, &note, 8) == &r.note, "memcpy_persist");
            if (op == 7) note = 0x0101010101010101ull * (note & 127), pop.memset_persist(&r.note, note & 127, 8);
            mc_assert(r.note == note && pop.root() == pop.get_root(), "a stored value");
            return 0;
        }
        case 8: // a value persisted through a persistent_ptr
        {
            if (!is_open) return 0;
            persistent_ptr<uint64_t> x(&R().note);
            *x = ++note;
            if (lay) x.persist();
            else x.persist(pop);
            persistent_ptr<uint64_t> none;
            mc_assert(fails([&] { none.persist(); }) && fails([&] { none.flush(); }), "a null pointer is persisted");
            return 0;
        }
        }
        return 0;
    }
    void defragment(int what)
    {
        Root &r = R();
        defrag d(pop);
        size_t n = 0;
        void *before[6] = {r.one.get(), r.pod.get(), r.vec.get(), r.str.get(), r.seg.get(), r.vec->data()};
        uint64_t t0 = read(0), t5 = read(5);
        bool null_refused = false;
        if (what == 0)
        {
            if (r.one) d.add(r.one), ++n;
            else { try { d.add(r.one); } catch (std::runtime_error &) { null_refused = true; } mc_assert(null_refused, "a null pointer is defragmented"); }
            if (r.pod) d.add(r.pod), ++n;
            d.add(r.vec), d.add(r.str), d.add(r.seg);
        }
        else d.add(*r.vec), d.add(*r.seg), d.add(*r.str);
        std::vector<uint64_t> foreign;
        bool refused = false;
        try { d.add(foreign); }
        catch (std::runtime_error &) { refused = true; }
        mc_assert(refused, "an object outside the pool is defragmented");
        auto res = d.run();
        mc_assert(read(0) == t0 && read(5) == t5, "defragmentation changed an object");
        mc_assert(r.vec->size() == 5 && r.seg->size() == 20 && *r.str == "a text that is too long to be a short string, surely", "defragmentation changed a container");
        for (auto &x : *r.vec) mc_assert(x == 7, "defragmentation changed a container");
        for (auto &x : *r.seg) mc_assert(x == 9, "defragmentation changed a container");
        mc_assert(res.relocated <= res.total && r.vec->data() != before[5], "defragmentation left out an object");
        if (what == 0) mc_assert((!before[0] || r.one.get() != before[0]) && (!before[1] || r.pod.get() != before[1]) && r.vec.get() != before[2] && r.str.get() != before[3] && r.seg.get() != before[4] && res.relocated >= n + 5, "defragmentation left out an object");
        tally();
    }
    uint64_t exec(const Op &o) override
    {
        int s = o.a;
        switch (o.code)
        {
        case PUT_ABSENT: return alloc(s, o.b, o.c);
        case REMOVE: return release(s, o.c);
        case GET: if (s < STORED) return read(s); else { uint64_t v = stored(s - STORED); return v ? v : ABSENT; }
        case UPSERT: return store(s - STORED, o.b), 0;
        case J_FLAGS: return flags(), tally(), 0;
        case J_ABORT_ALLOC:
        {
            uint64_t old = read(s);
            if (old != ABSENT) return 0;
            gtag = o.b;
            long m = made, g = gone;
            run(o.c, [&] { create(s, o.b, A_TX); });
            made = m, gone = g;
            mc_assert(null(s), "an allocation remains after its transaction was aborted");
            return tally(), 0;
        }
        case J_ABORT_FREE:
        {
            if (null(s)) return 0;
            uint64_t old = read(s), f = LEN[s] ? first(s) : 0;
            long m = made, g = gone;
            run(o.c, [&] { destroy(s); });
            made = m, gone = g;
            mc_assert(read(s) == old && (!LEN[s] || first(s) == f), "an object is not back after its deletion was aborted");
            return tally(), 0;
        }
        case J_THROW:
        {
            if (!null(s) || !LEN[s]) return 0;
            gtag = 9;
            long m = made, g = gone;
            int got = 0;
            bomb = o.b + 1;
            try
            {
                if (o.c) atomic(s, 9, false);
                else transaction::run(pop, [&] { create(s, 9, A_TX); });
            }
            catch (int e) { got = e == 77; }
            catch (std::bad_alloc &) { got = 2; }
            mc_assert(bomb || got == (o.c ? 2 : 1), "a constructor that throws: another exception");
            bomb = 0;
            made = m, gone = g;
            mc_assert(null(s), "a constructor that throws leaves its object");
            return tally(), 0;
        }
        case J_SCOPE:
        {
            int n = 0;
            auto no = [&](auto f) { try { f(); } catch (pmem::transaction_scope_error &) { ++n; } };
            bool was = null(s);
            long m = made, g = gone;
            uint64_t old = read(s);
            if (s == 4) { Alloc a; no([&] { a.allocate(3); }); no([&] { a.deallocate(R().al); }); }
            else { no([&] { create(s, 9, A_TX); }); no([&] { destroy(s); }); }
            mc_assert(n == 2 && null(s) == was && read(s) == old && made == m && gone == g, "memory is allocated or freed outside a transaction");
            return tally(), 0;
        }
        case J_PTR: return ptr(o.a, o.b, o.c, false), 0;
        case J_POOLPTR: return ptr(o.a, o.b, o.c, true), 0;
        case J_P: return scalar(o.a, o.b, o.c), 0;
        case J_RELATIONS: return relations(), 0;
        case J_COMPOUND: return compound(), 0;
        case J_POOL: return poolop(o.a, o.b);
        case J_DEFRAG: return defragment(o.a), 0;
        case J_CHECK: for (int k = 0; k < SLOTS; ++k) read(k); return tally(), 0;
        case J_BIG: // more than the pool
        {
            long m = made, g = gone;
            int e = 0;
            try { transaction::run(pop, [&] { if (o.a) { Alloc a; auto x = a.allocate(1u << 30); mc_assert(x != nullptr, "an allocator returns no memory and does not say so"); } else make_persistent<Obj[]>(1u << 30); }); }
            catch (pmem::transaction_out_of_memory &) { e = 1; }
            catch (pmem::transaction_alloc_error &) { e = 1; }
            mc_assert(e == 1 && made == m && gone == g, "an allocation that is too large");
            return tally(), 0;
        }
        }
        return 0;
    }
    std::string show(const Op &o) override
    {
        static const char *S[] = {"one", "array", "array[4]", "array[][2]", "allocator", "pod"}, *H[] = {"", "atomic ", "flag ", "atomic flag ", "two ", "nested "};
        static const char *N[] = {"aborted new", "aborted delete", "throwing new", "outside", "ptr", "poolptr", "p", "relations", "pool", "defrag", "check", "marked", "big", "flags"};
        if (o.code == REOPEN) return "clean restart";
        if (o.code == PUT_ABSENT) return std::string(H[o.c]) + "new " + S[o.a] + "(" + num(o.b) + ")";
        if (o.code == REMOVE) return std::string(H[o.c]) + "delete " + S[o.a];
        if (o.code == UPSERT) return "store[" + num(o.a - STORED) + "](" + num(o.b) + ")";
        if (o.code == GET && o.a >= STORED) return "stored[" + num(o.a - STORED) + "]";
        if (o.code == GET) return std::string("read ") + S[o.a];
        return std::string(N[o.code - 200]) + "(" + num(o.a) + "," + num(o.b) + "," + num(o.c) + ")";
    }
};
extern "C" Harness *mc_harness() { return new PtrHarness; }
extern "C" void mc_scenarios(const char *, int thorough, std::vector<Scenario> *out)
{
    PtrHarness h;
    Out o{out, [&](const Op &x) { return h.show(x); }, {{"pool", 1 << 20}}};
    auto A = [](uint64_t s, uint64_t t, uint64_t how = 0) { return Op{PUT_ABSENT, s, t, how}; };
    auto D = [](uint64_t s, uint64_t how = 0) { return Op{REMOVE, s, 0, how}; };
    std::vector<Op> all, chk = {{J_CHECK}};
    for (uint64_t s = 0; s < SLOTS; ++s) chk.push_back({GET, s});
    std::vector<std::vector<Op>> per(SLOTS), judged(SLOTS);
    for (uint64_t s = 0; s < SLOTS; ++s)
    {
        for (uint64_t how : {A_TX, A_ATOMIC, A_FLAG, A_ATOMICFLAG, A_TWO, A_NESTED})
        {
            if (s == 4 && how != A_TX && how != A_NESTED) continue;
            if (how == A_TWO && s) continue;
            per[s].push_back(A(s, 11 + how, how));
        }
        per[s].push_back(D(s));
        if (s != 4) per[s].push_back(D(s, A_ATOMIC));
        for (uint64_t mode : {2, 3}) judged[s].push_back({J_ABORT_ALLOC, s, 8, mode}), judged[s].push_back({J_ABORT_FREE, s, 0, mode});
        for (uint64_t k = 0; k < (uint64_t)LEN[s]; ++k)
            for (uint64_t at : {0, 1})
                if (s != 4 || !at) judged[s].push_back({J_THROW, s, k, at});
        judged[s].push_back({J_SCOPE, s});
    }
    for (uint64_t s = 0; s < SLOTS; ++s)
    {
        auto al = cat(cat(per[s], judged[s]), {{REOPEN}});
        o.seq("slot", {}, al, thorough ? 4 : 3, chk);
        o.out->back().name = std::string("slot:") + h.show(A(s, 1));
        // every allocation fails once
        auto &f = o.seq("", {}, per[s], thorough ? 3 : 2, chk);
        f.name = std::string("no memory:") + h.show(A(s, 1)), f.p["oom"] = 1;
        // crashes
        for (auto &x : per[s])
            for (auto &y : per[s])
            {
                if (x.code == REMOVE && (y.code == REMOVE || !thorough)) continue;
                if (y.code == PUT_ABSENT && (!thorough || y.code == x.code)) continue;
                auto &c = o.crash("crash", {}, {{x, y}}, chk, cat(chk, {D(s), A(s, 5), {GET, s}, {J_CHECK}}), 0);
                c.crash_nested = thorough;
            }
    }
    // two kinds at once
    for (uint64_t s = 0; s < SLOTS; ++s)
        for (uint64_t t = s + 1; t < SLOTS; ++t)
        {
            auto &c = o.seq("", {}, {A(s, 3), D(s), A(t, 4), D(t), {J_ABORT_FREE, s, 0, 2}, {J_ABORT_ALLOC, t, 4, 2}, {REOPEN}}, thorough ? 5 : 3, chk);
            c.name = "pair:" + h.show(A(s, 3)) + "|" + h.show(A(t, 4));
        }
    o.seq("big", {}, {{J_BIG, 0}, {J_BIG, 1}, A(0, 3)}, 2, chk);
    o.seq("flags", {}, {{J_FLAGS}, A(0, 3)}, 2, chk);
    // what was persisted stays
    for (uint64_t k = 0; k < STORES; ++k)
    {
        std::vector<Op> see = {{GET, STORED + k}};
        auto &c = o.crash("crash", {}, {{{UPSERT, STORED + k, 3}, {UPSERT, STORED + k, 5}, {GET, STORED + k}}}, see, cat(see, {{UPSERT, STORED + k, 6}, {GET, STORED + k}}), 0);
        c.crash_nested = thorough;
    }
    // pointers and scalars
    for (int code : {J_PTR, J_POOLPTR})
    {
        std::vector<Op> al;
        for (uint64_t k = 0; k < 19; ++k)
            for (uint64_t mode : {0, 1, 2, 3})
            {
                if (mode == 3 && k != 4 && k != 10) continue;
                if (k == 4 || k == 5 || k == 7 || k == 11 || k == 12)
                    for (uint64_t n : {0, 1, 3, 7}) al.push_back({code, k, n, mode});
                else al.push_back({code, k, 0, mode});
            }
        al.push_back({REOPEN});
        o.seq(code == J_PTR ? "pointers" : "pool pointers", {}, al, thorough ? 4 : 3, {});
    }
    {
        std::vector<Op> al;
        for (uint64_t k = 0; k < 32; ++k)
            for (uint64_t mode : {0, 1, 2})
            {
                bool arg = (k >= 4 && k <= 13) || k == 25 || k == 26 || k == 29;
                for (uint64_t n : {3, 7, 1})
                    if (arg || n == 3)
                        if (mode != 1 || n == 3) al.push_back({J_P, k, n, mode});
            }
        al.push_back({REOPEN});
        o.seq("p", {}, al, thorough ? 4 : 3, {});
    }
    o.add("relations", {}, {{{J_RELATIONS}, {J_COMPOUND}}}, {}, 0);
    {
        std::vector<Op> al;
        for (uint64_t k = 0; k < 9; ++k)
            for (uint64_t l : {0, 1})
                if (l == 0 || k < 2 || k == 8) al.push_back({J_POOL, k, l});
        o.seq("pool", {}, al, thorough ? 6 : 5, {});
        auto &d = o.seq("defragment", {}, {A(0, 3), D(0), A(5, 4), {J_DEFRAG, 0}, {J_DEFRAG, 1}, A(1, 5), {REOPEN}}, thorough ? 5 : 4, chk);
        d.p["defrag"] = 1;
    }
}

// concurrent_hash_map of libpmemobj++ as a container: two maps, every constructor, assignment, swap, every overload.
// param kind: element types and lock.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include <libpmemobj++/container/concurrent_hash_map.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
using namespace mc;
using namespace pmem::obj;
typedef HashSpec::M M;
struct UserError {};
struct Abort {};
static bool conc;
static uint64_t ok(uint64_t x)
{
    if (x == VR_THROW) throw UserError();
    return x;
}
// Key and value that count themselves and know their place; copying the value VR_THROW fails. Values own persistent memory.
struct K
{
    p<uint64_t> v;
    uint64_t self;
    static long live;
    uint64_t here() const { return pmemobj_oid(this).off; }
    K() : v(0), self(here()) { live += self != 0; }
    K(uint64_t x) : v(x), self(here()) { live += self != 0; }
    K(const K &o) : v(o.get()), self(here()) { live += self != 0; }
    ~K() { live -= here() != 0; }
    K &operator=(const K &) = delete;
    uint64_t get() const
    {
        mc_assert(self == here(), "a key was moved without its constructor");
        return v.get_ro();
    }
};
long K::live;
struct V
{
    p<uint64_t> v;
    persistent_ptr<p<uint64_t>> mem;
    uint64_t self;
    static long live;
    uint64_t here() const { return pmemobj_oid(this).off; }
    void born()
    {
        self = here();
        if (self) ++live, mem = make_persistent<p<uint64_t>>(v);
    }
    V() : v(0) { born(); }
    V(uint64_t x) : v(ok(x)) { born(); }
    V(const V &o) : v(ok(o.get())) { born(); }
    V(V &&o) : v(o.get()) { born(); o.set(0); }
    ~V()
    {
        if (here()) --live, delete_persistent<p<uint64_t>>(mem);
    }
    void set(uint64_t x)
    {
        v = x;
        if (here()) *mem = x;
    }
    V &operator=(const V &o) { set(ok(o.get())); return *this; }
    V &operator=(V &&o) { if (&o != this) set(o.get()), o.set(0); return *this; }
    V &operator=(uint64_t x) { set(ok(x)); return *this; }
    uint64_t get() const
    {
        mc_assert(self == here(), "a value was moved without its constructor");
        if (here()) mc_assert(*mem == v, "a value has lost its memory");
        return v.get_ro();
    }
    bool operator==(const V &o) const { return get() == o.get(); }
    template <class F> void for_each_ptr(F f) { f(mem); }
};
long V::live;
static uint64_t val(const p<uint64_t> &x) { return x.get_ro(); }
static uint64_t val(const K &x) { return x.get(); }
static uint64_t val(const V &x) { return x.get(); }
static uint64_t val(uint64_t x) { return x; }
struct Hash0
{
    size_t operator()(const p<uint64_t> &k) const { return k.get_ro(); }
};
struct Eq
{
    template <class A, class B> bool operator()(const A &a, const B &b) const { return val(a) == val(b); }
};
struct Hash1
{
    typedef Eq transparent_key_equal;
    template <class A> size_t operator()(const A &k) const { return val(k); }
};
// A lock that can be upgraded and tells whether it is a writer's.
struct RW
{
    pmem::obj::shared_mutex m;
};
struct RWLock
{
    RW *mutex = nullptr;
    bool is_writer = false;
    RWLock() {}
    RWLock(RW &m, bool w = true) { acquire(m, w); }
    ~RWLock() { release(); }
    void acquire(RW &m, bool w = true)
    {
        mutex = &m, is_writer = w;
        w ? m.m.lock() : m.m.lock_shared();
    }
    bool try_acquire(RW &m, bool w = true)
    {
        if (!(w ? m.m.try_lock() : m.m.try_lock_shared())) return false;
        mutex = &m, is_writer = w;
        return true;
    }
    void release()
    {
        if (!mutex) return;
        is_writer ? mutex->m.unlock() : mutex->m.unlock_shared();
        mutex = nullptr, is_writer = false;
    }
    bool upgrade_to_writer()
    {
        mutex->m.unlock_shared(); // not atomic: another writer may come first
        mutex->m.lock();
        is_writer = true;
        return false;
    }
    bool downgrade_to_reader()
    {
        mutex->m.unlock();
        mutex->m.lock_shared();
        is_writer = false;
        return false;
    }
};

struct Iface
{
    virtual void open(bool create) = 0;
    virtual uint64_t exec(const Op &) = 0;
};
template <class T> struct Impl : Iface
{
    struct Root { persistent_ptr<T> a, b; };
    typedef typename T::value_type P;
    typedef typename T::key_type KT;
    typedef typename T::mapped_type VT;
    typedef typename T::accessor Acc;
    typedef typename T::const_accessor CAcc;
    static constexpr bool counted = std::is_same_v<VT, V>;
    pool<Root> pop;
    T &A() { return *pop.root()->a; }
    T &B() { return *pop.root()->b; }
    template <class F> void tx(F f) { transaction::run(pop, f); }
    void open(bool create) override
    {
        if (!create)
        {
            pop = pool<Root>::open("/mnt/pmem/pm1/t", "chm");
            if (pop.root()->a != nullptr) A().runtime_initialize(), B().runtime_initialize();
            return;
        }
        mc_mkdirs("/mnt/pmem/pm1/");
        pop = pool<Root>::create("/mnt/pmem/pm1/t", "chm", PMEMOBJ_MIN_POOL);
        tx([&] {
            auto r = pop.root();
            r->a = make_persistent<T>();
            r->b = make_persistent<T>();
        });
    }
    // The contents by every way to read them.
    M read(T &m)
    {
        M r;
        const T &c = m;
        size_t n = 0;
        for (auto it = m.begin(); it != m.end(); ++it, ++n)
        {
            mc_assert(r.insert({val(it->first), val((*it).second)}).second, "iteration yields a key twice");
            typename T::const_iterator ci = it, z;
            z = ci;
            mc_assert(ci == it && z == ci && !(z != it) && z != c.end(), "an iterator and its copy differ");
        }
        size_t k = 0;
        for (auto it = c.begin(); it != c.end(); ++k)
        {
            auto old = it++;
            mc_assert(old != it && r.count(val(old->first)) && r[val((*old).first)] == val(old->second), "constant iterators disagree");
        }
        mc_assert(k == n && m.size() == n && m.empty() == (n == 0), "size, emptiness and iteration disagree");
        mc_assert(n <= m.max_size() && m.bucket_count() >= 2 && !(m.bucket_count() & (m.bucket_count() - 1)), "max_size or bucket_count is wrong");
        // an accessor used again gives back what it held
        auto chain = [&](auto *p, auto &t, auto key) { std::remove_pointer_t<decltype(p)> a; for (auto &x : r) mc_assert(t.find(a, decltype(key)(x.first)) && val(a->second) == x.second, "an element that iteration yields is not found"); };
        chain((CAcc *)0, c, KT(0)), chain((Acc *)0, m, KT(0));
        if constexpr (transparent) chain((CAcc *)0, c, uint64_t(0)), chain((Acc *)0, m, uint64_t(0)), chain((CAcc *)0, c, KT(0));
        for (auto &x : r) mc_assert(find(m, x.first) == x.second, "an element that iteration yields is not found");
        return r;
    }
    uint64_t digest() { return HashSpec::digest(read(A()), read(B())); }
    static constexpr bool transparent = requires { typename T::hasher::transparent_key_equal; };
    uint64_t find(T &m, uint64_t key)
    {
        KT k(key);
        const T &c = m;
        bool f = m.count(k);
        uint64_t r = ABSENT;
        {
            CAcc a;
            mc_assert(c.find(a, k) == f && a.empty() == !f, "find and count disagree");
            if (f) r = val(a->second), mc_assert(val((*a).first) == key, "find yields another element");
            if (f && transparent) { a.release(); mc_assert(a.empty(), "a released accessor is not empty"); }
        }
        {
            Acc a;
            mc_assert(m.find(a, k) == f && a.empty() == !f, "find and count disagree");
            if (f) mc_assert(val((*a).first) == key && val(a->second) == r, "two lookups disagree");
        }
        if constexpr (transparent)
        {
            mc_assert(c.count(key) == (size_t)f, "a heterogeneous lookup disagrees");
            CAcc a;
            mc_assert(c.find(a, key) == f, "a heterogeneous lookup disagrees");
            if (f) mc_assert(val(a->second) == r, "a heterogeneous lookup disagrees");
            a.release();
            Acc w;
            mc_assert(m.find(w, key) == f, "a heterogeneous lookup disagrees");
            if (f) mc_assert(val(w->second) == r, "a heterogeneous lookup disagrees");
        }
        return r;
    }
    // One lookup, so that a concurrent erasure has nothing to come between.
    uint64_t find_once(T &m, uint64_t key, uint64_t how)
    {
        const T &c = m;
        auto got = [&](auto &x) { 
            mc_assert(val((*x).first) == key, "find yields another element");
            if constexpr (counted)
            {
                auto *at = x->second.mem.get(); // stays valid as long as the accessor lives
                static std::atomic<int> pause;
                pause.load();
                mc_assert(*at == x->second.v, "an element changed while an accessor held it");
            }
            return val(x->second);
        };
        if constexpr (transparent)
        {
            if (how == 1) { Acc x; return m.find(x, key) ? got(x) : ABSENT; }
            CAcc x;
            return c.find(x, key) ? got(x) : ABSENT;
        }
        CAcc x;
        return c.find(x, KT(key)) ? got(x) : ABSENT;
    }
    // A value that may refuse to be copied.
    struct Value
    {
        alignas(P) char m[sizeof(P)];
        Value(uint64_t k, uint64_t v)
        {
            new (m) P(KT(k), VT((uint64_t)0));
            if constexpr (counted) x().second.v.get_rw() = v;
            else x().second = v;
        }
        P &x() { return *(P *)m; }
        ~Value() { x().~P(); }
    };
    static std::vector<P> pairs(const std::vector<std::pair<uint64_t, uint64_t>> &l)
    {
        std::vector<P> r;
        for (auto &x : l) r.push_back(P(KT(x.first), VT(x.second)));
        return r;
    }
    uint64_t run(const Op &o)
    {
        T &a = A(), &b = B();
        uint64_t v = o.b % 100, k = o.b / 100;
        auto list = [] { return std::initializer_list<P>{P(KT(2), VT(31)), P(KT(258), VT(32)), P(KT(3), VT(33)), P(KT(2), VT(34))}; };
        switch (o.code)
        {
        case H_INSERT:
        {
            Value w(o.a, v);
            const P &c = w.x();
            bool f = false;
            auto pre = [&](auto &x) { if (pmemobj_tx_stage() == TX_STAGE_NONE) a.find(x, KT(2)); }; // an accessor in use
            auto got = [&](CAcc &x, uint64_t e)
            {
                mc_assert(!x.empty() && val(x->first) == o.a, "insert hands out an accessor to another element");
                if (k % 2 && !conc)
                {
                    CAcc y; // readers do not exclude each other
                    mc_assert(((const T &)a).find(y, KT(o.a)), "find and insert disagree");
                    mc_assert(a.count(KT(o.a)) == 1, "count and insert disagree");
                }
                if (f) mc_assert(val(x->second) == e, "insert hands out an accessor to another value");
            };
            switch (k)
            {
            case 0: return a.insert(c);
            case 1: return a.insert(std::move(w.x()));
            case 2: { Acc x; pre(x); f = a.insert(x, c); got(x, v); return f; }
            case 3: { CAcc x; pre(x); f = a.insert(x, c); got(x, v); return f; }
            case 4: { Acc x; pre(x); f = a.insert(x, std::move(w.x())); got(x, v); return f; }
            case 5: { CAcc x; pre(x); f = a.insert(x, std::move(w.x())); got(x, v); return f; }
            case 6: { Acc x; pre(x); f = a.insert(x, w.x().first); got(x, 0); return f; }
            case 7: { CAcc x; pre(x); f = a.insert(x, w.x().first); got(x, 0); return f; }
            case 8: a.insert(&w.x(), &w.x() + 1); return 7;
            case 9: a.insert({w.x()}); return 7;
            }
            break;
        }
        case H_IOA:
        {
            Value w(o.a, v);
            const KT &ck = w.x().first;
            const VT &cv = w.x().second;
            switch (k)
            {
            case 0: return a.insert_or_assign(ck, cv);
            case 1: return a.insert_or_assign(KT(o.a), cv);
            case 10: return a.insert_or_assign(ck, std::move(w.x().second));
            case 11: return a.insert_or_assign(KT(o.a), std::move(w.x().second));
            case 2: if constexpr (transparent) return a.insert_or_assign(o.a, cv);
            case 12: if constexpr (transparent) return a.insert_or_assign(o.a, std::move(w.x().second));
            }
            break;
        }
        case H_FIND: return conc ? find_once(a, o.a, o.b) : find(a, o.a);
        case H_ERASE: if constexpr (transparent) if (o.b) return a.erase(o.a); return a.erase(KT(o.a));
        case H_WRITE:
        {
            Value w(o.a, v);
            if (k == 2)
            {
                for (auto it = a.begin(); it != a.end(); ++it)
                    if (val(it->first) == o.a) { tx([&] { it->second = (const VT &)w.x().second; }); return 1; }
                return 0;
            }
            Acc x;
            if (!a.find(x, KT(o.a))) return 0;
            tx([&] { if (k) (*x).second = (const VT &)w.x().second; else x->second = (const VT &)w.x().second; });
            return 1;
        }
        case H_ASSIGN: mc_assert(&(a = b) == &a, "the result of an assignment is not the map"); return 0;
        case H_SELF: { T &c = a; a = c; return 0; }
        case H_ASSIGNIL: a = {P(KT(2), VT(31)), P(KT(258), VT(32)), P(KT(3), VT(33)), P(KT(2), VT(34))}; return 0;
        case H_SWAP: if (o.a == 0) a.swap(b); else if (o.a == 1) swap(a, b); else b.swap(a); return 0;
        case H_INSR:
            if (o.b) a.insert({P(KT(2), VT(31)), P(KT(258), VT(32)), P(KT(3), VT(33)), P(KT(2), VT(34))});
            else { auto l = pairs(HashSpec::range(o.a, 2)); a.insert(l.begin(), l.end()); }
            return 0;
        case H_RECON:
            tx([&] {
                auto r = pop.root();
                persistent_ptr<T> n;
                switch (o.a)
                {
                case 0: n = make_persistent<T>(); break;
                case 1: n = make_persistent<T>((size_t)o.b); mc_assert(n->bucket_count() >= o.b, "fewer buckets than asked for"); break;
                case 2: n = make_persistent<T>((const T &)b); break;
                case 3: n = make_persistent<T>(std::move(b)); break;
                case 4: { auto l = pairs(HashSpec::range(o.b, 2)); n = make_persistent<T>(l.begin(), l.end()); break; }
                case 5: n = make_persistent<T>(std::initializer_list<P>{P(KT(2), VT(31)), P(KT(258), VT(32)), P(KT(3), VT(33)), P(KT(2), VT(34))}); break;
                }
                delete_persistent<T>(r->a);
                r->a = n;
            });
            return 0;
        case H_CLEAR: a.clear(); return 0;
        case H_FREE:
            tx([&] {
                auto r = pop.root();
                a.free_data();
                delete_persistent<T>(r->a);
                r->a = make_persistent<T>();
            });
            return 0;
        case H_REHASH: a.rehash(o.a); if (o.a) mc_assert(a.bucket_count() >= o.a, "fewer buckets than asked for"); return 0;
        case H_DEFRAG:
        {
            auto r = a.defragment(o.a, o.b);
            size_t n = counted ? a.size() : 0;
            mc_assert(conc || r.relocated <= r.total && (o.b == 100 ? r.total == n : r.total <= n), "defragmentation visits other elements than those of the range");
            return 0;
        }
        case H_EQ: mc_assert((a != b) == !(a == b) && (b == a) == (a == b), "comparisons disagree"); return a == b;
        }
        return 0;
    }
    uint64_t exec(const Op &o) override
    {
        if (o.code == H_LEAK)
        {
            auto r = pop.root();
            tx([&] { delete_persistent<T>(r->a); delete_persistent<T>(r->b); r->a = nullptr; r->b = nullptr; });
            uint64_t left = mc_pool_blocks() - 1;
            tx([&] { r->a = make_persistent<T>(); r->b = make_persistent<T>(); });
            digest();
            return left;
        }
        uint64_t r = 0;
        if (conc && o.code != H_DUMP) return run(o);
        K::live = V::live = A().size() + B().size();
        try
        {
            if (o.c)
                tx([&] {
                    r = run(o);
                    if (SeqSpec::second(o).code) r = hcomb(r, run(SeqSpec::second(o)));
                    if (o.c & VF_ABORT) throw Abort();
                });
            else r = run(o);
            if constexpr (counted) mc_assert(K::live == (long)(A().size() + B().size()) && V::live == K::live, "an element was constructed or destroyed once too often");
        }
        catch (Abort &) {}
        catch (UserError &) { r = VR_USER; }
        catch (std::range_error &) { r = VR_RANGE; }
        catch (pmem::transaction_scope_error &) { r = VR_SCOPE; }
        catch (pmem::transaction_out_of_memory &) { r = VR_OOM; }
        catch (std::bad_alloc &) { r = VR_OOM; }
        mc_assert(pmemobj_tx_stage() == TX_STAGE_NONE, "a transaction is still open");
        mc_assert(mc_pool_reserved() == 0, "an aborted operation keeps allocated memory");
        if (getenv("SEQ_DEBUG")) { fprintf(stderr, "r %lu a:", r); for (auto x : read(A())) fprintf(stderr, " %lu=%lu", x.first, x.second); fprintf(stderr, " b:"); for (auto x : read(B())) fprintf(stderr, " %lu=%lu", x.first, x.second); fprintf(stderr, "\n"); }
        return hcomb(r, digest());
    }
};
static Iface *impl;
enum { RAW, OWN, LOCK, KINDS };
static const char *KN[] = {"raw", "own", "lock"};
struct ChmHarness : Harness
{
    void make(const Scenario &s)
    {
        conc = s.param("conc");
        switch (s.param("kind"))
        {
        case RAW: impl = new Impl<concurrent_hash_map<p<uint64_t>, p<uint64_t>, Hash0>>; break;
        case OWN: impl = new Impl<concurrent_hash_map<K, V, Hash1>>; break;
        case LOCK: impl = new Impl<concurrent_hash_map<p<uint64_t>, p<uint64_t>, Hash1, Eq, RW, RWLock>>; break;
        }
    }
    void start(const Scenario &s) override { make(s), impl->open(true); }
    void reopen(const Scenario &s) override { make(s), impl->open(false); }
    uint64_t exec(const Op &o) override { return impl->exec(o); }
    std::string show(const Op &o) override
    {
        static const std::map<int, const char *> N = {{H_INSERT, "insert"}, {H_IOA, "insert_or_assign"}, {H_FIND, "find"}, {H_ERASE, "erase"}, {H_WRITE, "write"}, {H_ASSIGN, "assign"}, {H_SELF, "self-assign"}, {H_ASSIGNIL, "assign-list"}, {H_SWAP, "swap"}, {H_RECON, "construct"}, {H_CLEAR, "clear"}, {H_FREE, "free_data"}, {H_REHASH, "rehash"}, {H_DEFRAG, "defragment"}, {H_EQ, "equal"}, {H_INSR, "insert-range"}, {H_DUMP, "contents"}, {H_LEAK, "leak"}, {REOPEN, "clean restart"}};
        auto it = N.find(o.code);
        std::string s = it == N.end() ? "?" : it->second;
        if (o.code != REOPEN) s += "(" + num(o.a) + "," + num(o.b) + ")";
        if (SeqSpec::second(o).code) s += "+" + show(SeqSpec::second(o));
        if (o.c & VF_ABORT) s += "+abort";
        return s;
    }
};
extern "C" Harness *mc_harness() { return new ChmHarness; }
extern "C" void mc_scenarios(const char *, int thorough, std::vector<Scenario> *out)
{
    ChmHarness h;
    for (int k = 0; k < KINDS; ++k)
    {
        Out o{out, [&](const Op &x) { return h.show(x); }, {{"pool", 1 << 20}, {"kind", k}}};
        std::string n = std::string(KN[k]) + "-";
        std::vector<Op> ops, multi = {{H_INSR, 4}, {H_INSR, 0, 1}, {H_DEFRAG, 0, 100}, {H_DEFRAG, 50, 50}, {H_DEFRAG, 0, 1}, {H_DEFRAG, 100, 0}, {H_DEFRAG, 60, 41}, {H_DEFRAG, 100, 1}};
        auto add = [&](std::initializer_list<Op> l) { ops.insert(ops.end(), l); };
        for (uint64_t key : {2, 4, 258})
        {
            for (uint64_t v = 0; v < 10; ++v) add({{H_INSERT, key, v * 100 + 21}});
            for (uint64_t v : {0, 1, 10, 11}) add({{H_IOA, key, v * 100 + 22}});
            if (k) add({{H_IOA, key, 222}, {H_IOA, key, 1222}, {H_ERASE, key, 1}});
            add({{H_FIND, key}, {H_ERASE, key}, {H_WRITE, key, 23}, {H_WRITE, key, 123}, {H_WRITE, key, 223}});
            if (k == OWN)
                for (uint64_t v : {0, 1, 2, 8, 9}) add({{H_INSERT, key, v * 100 + VR_THROW}, {H_IOA, key, v % 2 * 100 + VR_THROW}, {H_WRITE, key, VR_THROW}});
        }
        std::vector<Op> whole = {{H_ASSIGN}, {H_SELF}, {H_ASSIGNIL}, {H_SWAP, 0}, {H_SWAP, 1}, {H_SWAP, 2}, {H_RECON, 0}, {H_RECON, 1, 1}, {H_RECON, 1, 2}, {H_RECON, 1, 3}, {H_RECON, 1, 300}, {H_RECON, 2}, {H_RECON, 3}, {H_RECON, 4, 0}, {H_RECON, 4, 2}, {H_RECON, 4, 5}, {H_RECON, 5}, {H_CLEAR}, {H_FREE}};
        add({{H_EQ}});
        ops.insert(ops.end(), whole.begin(), whole.end());
        for (uint64_t x : {0, 1, 3, 300}) add({{H_REHASH, x}});
        std::vector<std::vector<Op>> setups = {{}, {{H_INSERT, 2, 11}}, {{H_RECON, 4, 3}, {H_SWAP}, {H_INSERT, 258, 12}}, {{H_INSERT, 4, 18}, {H_SWAP}, {H_RECON, 4, 5}, {H_INSERT, 770, 14}}, {{H_RECON, 1, 300}, {H_INSERT, 258, 15}, {H_SWAP}, {H_INSERT, 2, 16}, {H_ERASE, 2}}};
        std::vector<Op> few = {{H_INSERT, 2, 41}, {H_INSERT, 258, 642}, {H_IOA, 2, 43}, {H_IOA, 4, 144}, {H_ERASE, 2}, {H_ERASE, 258}, {H_FIND, 258}, {H_WRITE, 2, 45}, {H_ASSIGN}, {H_ASSIGNIL}, {H_SWAP}, {H_RECON, 2}, {H_RECON, 3}, {H_RECON, 4, 4}, {H_RECON, 1, 300}, {H_CLEAR}, {H_FREE}, {H_REHASH, 300}, {H_INSR, 4}, {H_EQ}, {REOPEN}};
        std::vector<Op> fin = {{H_DUMP}, {REOPEN}, {H_DUMP}, {H_LEAK}}, post = {{H_DUMP}, {H_INSERT, 6, 51}, {H_ERASE, 2}, {H_REHASH, 300}, {H_INSERT, 2, 52}, {H_SWAP}, {H_DUMP}, {H_LEAK}};
        auto in_tx = [](Op x, Op y, int flags) { x.c = flags | (uint64_t)y.code << 2 | y.a << 12 | y.b << 20; return x; };
        auto go = [&](const std::string &name, const std::vector<Op> &st, const std::vector<Op> &al, int depth, bool crash, bool oom = false)
        {
            auto &c = o.seq(n + name, st, al, depth, fin);
            c.spec = "hash";
            c.crash = crash;
            if (crash) c.post = post;
            if (oom) c.p["oom"] = 1;
        };
        // threads: the lock with optional upgrades; defragmentation next to the other operations
        std::vector<Op> cs = {{H_INSERT, 2, 41}, {H_INSERT, 258, 642}, {H_IOA, 2, 43}, {H_ERASE, 2}, {H_WRITE, 2, 45}, {H_FIND, 2}, {H_ERASE, 258}, {H_FIND, 258}, {H_DEFRAG, 0, 100}};
        if (k != RAW)
            for (std::vector<Op> st : {std::vector<Op>{}, {{H_INSERT, 2, 11}}, {{H_INSERT, 2, 11}, {H_INSERT, 258, 12}}})
                for (size_t i = 0; i < cs.size(); ++i)
                    for (size_t j = i; j < cs.size(); ++j)
                    {
                        if (k == OWN && cs[j].code != H_DEFRAG) continue;
                        if (cs[i].code == cs[j].code && (cs[i].code == H_FIND || cs[i].code == H_DEFRAG)) continue;
                        auto &c = o.add(n + num(st.size()), st, {{cs[i]}, {cs[j]}}, {{H_DUMP}, {REOPEN}, {H_DUMP}}, (cs[j].code == H_DEFRAG ? 1 : 2) + thorough);
                        c.spec = "hash";
                        c.p["conc"] = 1;
                    }
        int si = 0;
        for (auto &st : setups)
        {
            std::string I = num(si++);
            std::vector<Op> pairs, txs, any = ops;
            any.insert(any.end(), multi.begin(), multi.end());
            for (auto &x : ops) if (x.code != H_EQ && x.b % 100 != VR_THROW) txs.push_back(in_tx(x, {}, VF_ABORT)), txs.push_back(in_tx(x, {}, VF_TX));
            for (auto &x : whole)
                for (auto &y : whole) pairs.push_back(in_tx(x, y, VF_TX)), pairs.push_back(in_tx(x, y, VF_TX | VF_ABORT));
            go("each" + I, st, any, 1, false);
            std::vector<Op> cr = whole;
            for (auto &x : {Op{H_INSERT, 258, 621}, Op{H_INSERT, 2, 821}, Op{H_IOA, 2, 122}, Op{H_ERASE, 258}, Op{H_WRITE, 2, 223}, Op{H_DEFRAG, 0, 100}}) cr.push_back(x);
            if (k == OWN || thorough) go("crash" + I, st, thorough ? ops : cr, 1, true);
            go("tx" + I, st, txs, 1, thorough);
            // an allocation fails; the maps go on working
            std::vector<Op> dry = any;
            dry.insert(dry.end(), txs.begin(), txs.end());
            go("oom" + I, st, dry, 1, false, true);
            go("oom-pair" + I, st, pairs, 1, false, true);
            go("oom-seq" + I, st, few, 2, false, true);
            go("pair" + I, st, pairs, 1, thorough);
            go("seq" + I, st, few, thorough ? 3 : 2, false);
            if (thorough) go("seq-crash" + I, st, few, 2, true);
        }
    }
}

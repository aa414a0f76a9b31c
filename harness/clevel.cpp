// The clevel hash table of libpmemobj++ (experimental/clevel_hash.hpp) with tables small enough to grow, and the
// container built on it. param filln: keys inserted beforehand.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/make_persistent_array_atomic.hpp>
#include "containers/levelMap.hpp"
TestOptions::TestOptions() {}
using namespace mc;
using namespace pmem::obj;
// The low six bits choose the buckets, the others the tag that is stored in the slots.
struct H
{
    size_t operator()(const p<size_t> &k) const { return (k & 63) | (k.get_ro() >> 6) << 48; }
};
typedef experimental::clevel_hash<p<size_t>, p<size_t>, H, std::equal_to<p<size_t>>, 2> Table;
struct Root { persistent_ptr<Table> t; };
typedef pool<Root> Pool;
static Pool pop;
static Table *t;
static Container *c; // param cont: through the container's interface
static bool expander; // only the process that created the table has the thread that empties old levels
static thread_local int me;
enum { SETTLE = 200, PAUSE };

struct LevelHarness : Harness
{
    void container(const Scenario &s, bool re)
    {
        TestOptions t;
        t.numthreads = 2;
        t.numops = 8;
        t.numruns = 1;
        t.filename = "/mnt/pmem/pm1/t";
        t.capacity = 3;
        c = new clevel::container_type(t, re);
        mc_assert(c->isConsistent(), "the container says that it is not consistent");
        expander = !re;
    }
    void start(const Scenario &s) override
    {
        std::cout.rdbuf(nullptr);
        mc_mkdirs("/mnt/pmem/pm1/");
        if (s.param("cont")) return container(s, false);
        pop = Pool::create("/mnt/pmem/pm1/t", "clevel", PMEMOBJ_MIN_POOL);
        transaction::run(pop, [&] {
            pop.root()->t = make_persistent<Table>();
            pop.root()->t->set_thread_num(4);
        });
        t = pop.root()->t.get();
        expander = true;
    }
    void reopen(const Scenario &s) override
    {
        std::cout.rdbuf(nullptr);
        if (s.param("cont")) return container(s, true);
        pop = Pool::open("/mnt/pmem/pm1/t", "clevel");
        t = pop.root()->t.get();
        expander = false;
    }
    void thread_begin(int tid) override { me = tid; localThreadNum = tid; }
    int levels(Table::level_meta *&m)
    {
        m = static_cast<Table::level_meta *>(t->meta(t->my_pool_uuid));
        int n = 1;
        for (auto li = m->last_level; li != m->first_level; li = li.get_address(t->my_pool_uuid)->up) ++n;
        return n;
    }
    uint64_t exec(const Op &o) override
    {
        if (c) switch (o.code)
        {
        case INSERT: return c->insert(o.a);
        case ERASE: return c->erase(o.a);
        case CONTAINS: return c->contains(o.a);
        case GET:
        {
            uint64_t v = c->get(o.a);
            return v ? v : ABSENT;
        }
        default: return 0;
        }
        p<size_t> k(o.a);
        switch (o.code)
        {
        case INSERT_KV: return !t->insert(Table::value_type(k, p<size_t>(o.b)), me + 1, me).found;
        case UPDATE: return t->update(Table::value_type(k, p<size_t>(o.b)), me + 1).found;
        case ERASE: return t->erase(k, me + 1).found;
        case CONTAINS: return t->search(k).found;
        case GET:
        {
            Table::level_meta *m = static_cast<Table::level_meta *>(t->meta(t->my_pool_uuid));
            auto r = t->search(k);
            if (!r.found) return ABSENT;
            auto li = m->last_level;
            for (int i = 0; i < r.level_idx; ++i) li = li.get_address(t->my_pool_uuid)->up;
            return t->get_entry(li, r.bucket_idx, r.slot_idx).get_address(t->my_pool_uuid)->second;
        }
        case PAUSE: std::this_thread::yield(); return 0; // lets the expander begin
        case SETTLE: // the expander finishes what it has to do
        {
            Table::level_meta *m;
            for (int i = 0; expander && levels(m) != 2; ++i)
            {
                mc_assert(i < 2000, "a growth of the table does not finish");
                std::this_thread::yield();
            }
            mc_assert(!expander || !m->is_resizing, "the table still says that it grows");
            return 0;
        }
        }
        return 0;
    }
    std::string show(const Op &o) override
    {
        switch (o.code)
        {
        case INSERT_KV: return "insert(" + num(o.a) + "," + num(o.b) + ")";
        case UPDATE: return "update(" + num(o.a) + "," + num(o.b) + ")";
        case ERASE: return "erase(" + num(o.a) + ")";
        case INSERT: return "insert(" + num(o.a) + ")";
        case CONTAINS: return "search(" + num(o.a) + ")";
        case GET: return "get(" + num(o.a) + ")";
        case SETTLE: return "settle";
        case PAUSE: return "pause";
        case REOPEN: return "clean restart";
        }
        return "?";
    }
};
extern "C" Harness *mc_harness() { return new LevelHarness; }
extern "C" void mc_scenarios(const char *prop_, int thorough, std::vector<Scenario> *out)
{
    std::string prop = prop_;
    LevelHarness h;
    Out o{out, [&](const Op &x) { return h.show(x); }, {{"pool", 1 << 20}}};
    auto ins = [&](uint64_t k, uint64_t v = 0) { return Op{INSERT_KV, k, v ? v : k + 1000}; };
    auto upd = [&](uint64_t k, uint64_t v) { return Op{UPDATE, k, v}; };
    auto era = [&](uint64_t k) { return Op{ERASE, k}; };
    auto has = [&](uint64_t k) { return Op{CONTAINS, k}; };
    auto get = [&](uint64_t k) { return Op{GET, k}; };
    Op settle{SETTLE};
    auto fill = [&](int n, int step = 2) {
        std::vector<Op> v;
        for (int i = 0; i < n; ++i) v.push_back(ins(2 + i * step));
        return v;
    };
    for (int n : {0, 15, 16, 30, 31, 32, 33})
    {
        auto f = fill(n);
        uint64_t last = n * 2, mid = n;
        std::vector<Op> al = {ins(2), ins(1), ins(64 + 2, 7), ins(64 + 4), era(2), era(66), upd(2, 9), get(2), has(66), settle, {REOPEN}};
        if (n) al.push_back(era(last)), al.push_back(ins(100)), al.push_back(ins(102));
        std::vector<Op> fin = {get(2), get(66), get(100), get(last), get(mid & ~1ull), get(1), has(50)};
        o.seq("seq" + num(n), f, al, thorough ? 5 : 3, fin).bound = 0;
    }
    // several levels are added before the lowest is emptied; a slot of the lowest is vacant
    for (int n : {40, 48, 64, 72, 96, 112})
    {
        auto f = fill(n);
        f.insert(f.begin() + 33, era(34));
        uint64_t last = n * 2;
        std::vector<Op> al = {ins(300), ins(304), ins(34, 5), ins(68), era(4), era(last), upd(40, 9), get(62), settle, {REOPEN}};
        std::vector<Op> fin = {settle};
        for (auto k : {2, 4, 8, 32, 34, 36, 38, 40, 48, 62, 64, 66, 68, 70, 80, 300, 304, 1}) fin.push_back(get(k));
        fin.push_back(get(last)), fin.push_back(ins(306)), fin.push_back(ins(308)), fin.push_back(settle), fin.push_back(get(306));
        o.seq("deep" + num(n), f, al, thorough ? 4 : 3, fin).bound = 0;
    }

    auto tune = [&](Scenario &s) { s.plain_points = true; s.spin = 20000; s.horizon = 400000; };
    for (int n : {2, 16, 30, 31, 32})
    {
        auto f = fill(n);
        f.push_back(settle);
        std::vector<Op> fin = {has(2), has(66), has(100), has(102), has(n * 2), has(n & ~1), has(34), settle, get(34), get(2), get(66), get(100), get(102), get(n * 2), get(n & ~1), era(2), get(2), era(100), get(100)};
        // one client and the thread of the table
        for (auto &x : {ins(100), ins(1), ins(2)})
            for (auto &y : {ins(102), era(2), era(100), upd(2, 9), has(n & ~1), upd(100, 8), era(34), upd(34, 9), has(34)})
                tune(o.add("one" + num(n), f, {{x, y}}, fin, thorough && n >= 30 && (x.a == 100 || y.a == 102) ? 2 : 1));
        // several clients
        for (auto &x : {ins(100), has(n & ~1), has(102)})
            for (auto &y : {ins(102), ins(103), has(2), has(100)})
            {
                if (x.code != INSERT_KV && y.code != INSERT_KV) continue;
                tune(o.add("two" + num(n), f, {{x}, {y}}, fin, thorough && n == 31 ? 2 : 1));
            }
        // crashes
        for (auto &x : std::vector<std::vector<Op>>{{ins(100)}, {era(2)}, {upd(2, 9)}, {ins(100), ins(102)}, {ins(100), settle, era(n * 2)}, {ins(100), settle}})
        {
            auto &c = o.crash("crash" + num(n), f, {x}, {get(2), get(100), get(102), get(n * 2), get(n & ~1), get(34)}, {ins(104), era(2), upd(100, 7), get(104), get(100), get(2)}, thorough ? 2 : 1);
            tune(c);
            c.plain_points = false;
        }
        if (n >= 30) tune(o.add("two" + num(n), f, {{ins(100)}, {ins(102), ins(104)}}, cat({has(104)}, fin), 1));
    }
    // keys that share both buckets in every level, so that levels become full while the lowest one is emptied
    auto same = [&](int i) { return 64 * (uint64_t)((i & 1) + (i >> 1) * 8); };
    for (int n : {32, 33, 47, 48, 49})
    {
        std::vector<Op> f, fin;
        for (int i = 0; i < n; ++i) f.push_back(ins(same(i)));
        for (int i = 0; i < n + 2; i += 1 + (i > 2 && i < n - 3)) fin.push_back(has(same(i)));
        fin.push_back({SETTLE});
        for (int i = 0; i < n + 2; i += 1 + (i > 2 && i < n - 3)) fin.push_back(get(same(i)));
        for (auto &x : {ins(same(n)), has(same(0)), has(same(31))})
            for (auto &y : {ins(same(n + 1)), has(same(n)), has(same(16))})
                if ((thorough && n != 47) || (n != 47 && n != 32 && (x.code != CONTAINS || x.a) && y.code == INSERT_KV))
                    tune(o.add("full" + num(n), f, {{{PAUSE}, x, y}}, fin, 1));
        if (thorough || n == 32) tune(o.add("full" + num(n), f, {{{PAUSE}, ins(same(n))}, {{PAUSE}, ins(same(n + 1))}}, fin, 1));
    }

    // the container
    Out oc{out, [&](const Op &x) { return h.show(x); }, {{"pool", 16 << 20}, {"cont", 1}}};
    auto cins = [&](uint64_t k) { return Op{INSERT, k}; };
    std::vector<Op> cfin = {has(5), has(6), get(5), get(6), get(7)};
    oc.seq("container", {}, {cins(5), cins(6), era(5), era(6), has(5), get(5), get(6), {REOPEN}}, thorough ? 4 : 3, cfin);
    for (auto &x : {cins(5), has(5)})
        for (auto &y : {cins(5), cins(6)})
            tune(oc.add("container2", {cins(7)}, {{x}, {y, has(5)}}, cfin, 1));
}

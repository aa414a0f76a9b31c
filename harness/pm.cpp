// The persistent concurrent_hash_map of libpmemobj++, through the pm container and directly.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include "containers/pmemMap.hpp"
TestOptions::TestOptions() {}
using namespace mc;
typedef pm::root::map_type Map;
enum { REHASH = 200, BLOCKS, DESTROY };
#define GET2 GET_LOCKED

static pm::container_type *c;

struct PmHarness : Harness
{
    void open(const Scenario &)
    {
        TestOptions t;
        t.filename = "/mnt/pmem/pm1/persist.bin";
        t.capacity = 4;
        c = new pm::container_type(t, false);
    }
    void start(const Scenario &s) override
    {
        mc_mkdirs("/mnt/pmem/pm1/");
        open(s);
    }
    void reopen(const Scenario &s) override { open(s); }
    Map &map() { return *c->pop.root()->pptr; }
    uint64_t exec(const Op &o) override
    {
        switch (o.code)
        {
        case INSERT: return c->insert(o.a);
        case ERASE: return c->erase(o.a);
        case CONTAINS: return c->contains(o.a);
        case GET0: return c->get(o.a);
        case SIZE: return c->count();
        case GET:
        {
            Map::const_accessor a;
            return map().find(a, o.a) ? (uint64_t)a->second : ABSENT;
        }
        case INSERT_KV: return map().insert(Map::value_type(o.a, o.b));
        case INSERT_ASSIGN: return map().insert_or_assign(pmem::obj::p<KeyT>(o.a), pmem::obj::p<ValT>(o.b));
        case UPDATE:
        {
            Map::accessor a;
            if (!map().find(a, o.a)) return 0;
            pmem::obj::transaction::run(c->pop, [&] { a->second = o.b; });
            return 1;
        }
        case INC_IF:
        {
            // read and write under one accessor
            Map::accessor a;
            if (!map().find(a, o.a)) return ABSENT;
            uint64_t v = a->second;
            mc_point();
            pmem::obj::transaction::run(c->pop, [&] { a->second = v + 1; });
            return v;
        }
        case INC:
        {
            // insert an empty element and fill it in under the accessor
            Map::accessor a;
            bool fresh = map().insert(a, o.a);
            uint64_t v = a->second;
            mc_assert(!fresh || v == 0, "a new element is not value-initialised");
            mc_point();
            pmem::obj::transaction::run(c->pop, [&] { a->second = v + 1; });
            return fresh ? ABSENT : v;
        }
        case GET2:
        {
            // a const_accessor keeps writers out
            Map::const_accessor a;
            if (!map().find(a, o.a)) return ABSENT;
            uint64_t v = a->second;
            mc_point();
            mc_assert(a->second == v, "an element changed under a const_accessor");
            return v;
        }
        case ERASE_ACC:
        {
            // the element stays intact while it is accessed, and goes with the last accessor
            Map::const_accessor a;
            if (!map().find(a, o.a)) return 0;
            uint64_t v = a->second;
            bool r = map().erase(o.b);
            mc_assert(a->first == o.a && a->second == v, "an element changed under a const_accessor");
            return r;
        }
        case INSERT_ACC:
        {
            Map::const_accessor a;
            bool r = map().insert(a, Map::value_type(o.a, o.b));
            mc_assert(a->first == o.a, "insert hands out an accessor to another key");
            if (r) mc_assert(a->second == o.b, "insert hands out an accessor to another value");
            return r;
        }
        case REMOVE: return map().erase(o.a);
        case CLEAR: map().clear(); return ANYRES;
        case REHASH: map().rehash(o.a); return ANYRES;
        case EMPTY: return map().empty();
        case DESTROY:
        {
            // everything that the map allocated is reachable from it and released with it
            pmem::obj::transaction::run(c->pop, [&] { pmem::obj::delete_persistent<Map>(c->pop.root()->pptr); });
            mc_assert(mc_pool_blocks() == 1 && mc_pool_reserved() == 0, "persistent memory leaked: objects remain after the map is destroyed");
            return ANYRES;
        }
        case BLOCKS: return mc_pool_blocks();
        case SNAPSHOT_OK:
        {
            // iteration sees exactly the keys that find() sees
            std::vector<std::pair<uint64_t, uint64_t>> seen;
            for (auto it = map().begin(); it != map().end(); ++it) seen.push_back({it->first, it->second});
            size_t n = seen.size();
            std::sort(seen.begin(), seen.end());
            for (size_t i = 0; i < n; ++i)
            {
                mc_assert(!i || seen[i].first != seen[i - 1].first, "iteration yields a key twice");
                Map::const_accessor a;
                mc_assert(map().find(a, seen[i].first) && a->second == seen[i].second, "iteration yields an element that find does not");
            }
            return n == map().size() && (n == 0) == map().empty();
        }
        }
        return 0;
    }
    std::string show(const Op &o) override
    {
        switch (o.code)
        {
        case INSERT: return "insert(" + num(o.a) + ")";
        case INSERT_KV: return "insert(" + num(o.a) + "," + num(o.b) + ")";
        case INSERT_ASSIGN: return "insert_or_assign(" + num(o.a) + "," + num(o.b) + ")";
        case UPDATE: return "write(" + num(o.a) + "," + num(o.b) + ")";
        case ERASE: case REMOVE: return "erase(" + num(o.a) + ")";
        case CONTAINS: return "contains(" + num(o.a) + ")";
        case GET0: return "get(" + num(o.a) + ")";
        case GET: return "find(" + num(o.a) + ")";
        case SIZE: return "count()";
        case EMPTY: return "empty()";
        case CLEAR: return "clear()";
        case REHASH: return "rehash(" + num(o.a) + ")";
        case SNAPSHOT_OK: return "iterate";
        case INC_IF: return "accessor++(" + num(o.a) + ")";
        case INC: return "insert(accessor," + num(o.a) + ")++";
        case GET2: return "const_accessor(" + num(o.a) + ")";
        case ERASE_ACC: return "find(" + num(o.a) + ")+erase(" + num(o.b) + ")";
        case INSERT_ACC: return "insert(accessor," + num(o.a) + "," + num(o.b) + ")";
        case DESTROY: return "destroy";
        case BLOCKS: return "allocated objects";
        case REOPEN: return "clean restart";
        }
        return "?";
    }
};
extern "C" Harness *mc_harness() { return new PmHarness; }

extern "C" void mc_scenarios(const char *prop_, int thorough, std::vector<Scenario> *out)
{
    std::string prop = prop_;
    PmHarness h;
    Out o{out, [&](const Op &x) { return h.show(x); }, {{"pool", 1 << 20}}};
    auto ins = [](uint64_t k) { return Op{INSERT, k}; };
    auto era = [](uint64_t k) { return Op{ERASE, k}; };
    auto ioa = [](uint64_t k, uint64_t v) { return Op{INSERT_ASSIGN, k, v}; };
    auto ikv = [](uint64_t k, uint64_t v) { return Op{INSERT_KV, k, v}; };
    auto upd = [](uint64_t k, uint64_t v) { return Op{UPDATE, k, v}; };
    auto get = [](uint64_t k) { return Op{GET, k}; };
    auto has = [](uint64_t k) { return Op{CONTAINS, k}; };
    auto gets = [&](std::initializer_list<int> ks)
    {
        std::vector<Op> r;
        for (int k : ks) r.push_back(get(k));
        r.push_back({SIZE});
        r.push_back({SNAPSHOT_OK});
        return r;
    };
    auto inc = [](uint64_t k) { return Op{INC, k}; };
    auto inci = [](uint64_t k) { return Op{INC_IF, k}; };
    std::vector<Op> ops = {ins(2), ikv(2, 21), ioa(2, 22), era(2), upd(2, 23), inci(2), inc(2), {INSERT_ACC, 2, 24}, get(2), {GET2, 2}, has(2)};
    auto reads = [](const Op &x) { return x.code == GET || x.code == GET2 || x.code == CONTAINS; };
    std::vector<Op> two = {ikv(2, 11), ikv(4, 12)};
    auto many = [&](int n)
    {
        std::vector<Op> r;
        for (int k = 0; k < n; ++k) r.push_back(ikv(k * 2 + 2, k + 100));
        return r;
    };
    if (prop == "C13")
    {
        int st = 0;
        for (std::vector<Op> setup : {std::vector<Op>{}, {ikv(2, 11)}, {ikv(4, 11)}, {ikv(2, 11), era(2)}})
        {
            ++st;
            for (size_t i = 0; i < ops.size(); ++i)
                for (size_t j = i; j < ops.size(); ++j)
                    if (!reads(ops[i])) o.add("pair" + num(st), setup, {{ops[i]}, {ops[j]}}, gets({2, 4}), thorough ? 3 : 2);
        }
        // the first growth moves both keys to other buckets; keys 2, 258 and 514 share a bucket afterwards
        for (std::vector<Op> setup : {std::vector<Op>{}, {ikv(2, 11)}, two})
            for (auto &x : {ikv(4, 31), ikv(3, 32), era(2), ikv(258, 33), ioa(4, 34)})
                for (auto &y : {ikv(258, 41), ikv(4, 44), era(4), get(4), era(2), get(2), inci(2), ikv(514, 42)})
                    o.add("grow" + num(setup.size()), setup, {{x}, {y}}, gets({2, 3, 4, 258, 514}), thorough ? 3 : 2);
        for (auto &x : {era(258), ikv(514, 31), get(2)})
            for (auto &y : {era(258), era(2), ikv(514, 32), get(514), get(258), ioa(258, 33), inci(2)})
                o.add("chain", {ikv(2, 11), ikv(258, 12), ikv(770, 13)}, {{x}, {y}}, gets({2, 258, 514, 770}), thorough ? 3 : 2);
        // more operations and threads
        for (auto &x : {era(2), ioa(2, 22), inc(2)})
            for (auto &y : {ins(2), inci(2), upd(2, 23)})
            {
                o.add("three", {ikv(2, 11)}, {{x}, {y}, {get(2)}}, gets({2}), thorough ? 2 : 1);
                o.add("seq2", {ikv(2, 11)}, {{x, y}, {y, x}}, gets({2}), thorough ? 2 : 1);
            }
        // an accessor to one element held across another operation
        for (auto &x : {Op{ERASE_ACC, 2, 4}, Op{ERASE_ACC, 2, 258}})
            for (auto &y : {era(2), upd(2, 23), ikv(258, 42), era(258), era(4), get(2)})
                o.add("held", {ikv(2, 11), ikv(258, 12), ikv(4, 13)}, {{x}, {y}}, gets({2, 258, 4}), thorough ? 3 : 2);
        // the second growth (255 elements): lazy moves of a bucket of the upper half
        auto full = many(254);
        for (auto &x : {ikv(510, 31), ikv(512 + 2, 32), era(2)})
            for (auto &y : {ikv(514, 41), ikv(512, 42), get(2), era(258), inci(258)})
                o.add("grow255", full, {{x, get(2)}, {y}}, {get(2), get(258), get(510), get(514), get(512), {SIZE}}, thorough ? 2 : 1);
        // sequences
        int D = thorough ? 6 : 4;
        o.seq("seq", {}, {ikv(2, 21), ikv(3, 22), ioa(2, 23), ioa(258, 24), era(2), era(3), era(258), inc(3), inci(2), get(2), has(258), {GET0, 3}, {SIZE}, {SNAPSHOT_OK}, {CLEAR}, {REHASH, 300}, {REOPEN}}, D, gets({2, 3, 4, 258}));
        o.seq("seq-ins", {ikv(2, 11)}, {ins(2), ins(4), era(2), era(4), {INSERT_ACC, 2, 24}, {INSERT_ACC, 4, 25}, {GET0, 2}, {CLEAR}, {REHASH, 3}, {EMPTY}, {REOPEN}}, D, gets({2, 3, 4, 258}));
        o.seq("seq-255", full, {ikv(510, 31), ikv(512, 31), ikv(514, 32), era(2), get(2), ioa(258, 33), {REOPEN}, {SNAPSHOT_OK}}, thorough ? 4 : 3, {get(2), get(4), get(258), get(510), get(512), get(514), {SIZE}});
    }
    if (prop == "C14")
    {
        std::vector<Op> post = {ikv(2, 51), ioa(4, 52), era(2), get(4), ikv(3, 53), get(3), {SIZE}, {SNAPSHOT_OK}, {DESTROY}};
        int st = 0;
        // every operation, from an empty table (the insertion makes it grow), a present key, and a chain of colliding keys
        std::vector<Op> chain = {ikv(2, 11), ikv(258, 12), ikv(770, 13)};
        for (std::vector<Op> setup : {std::vector<Op>{}, {ikv(2, 11)}, {ikv(4, 11)}, chain})
        {
            ++st;
            for (auto &x : {ins(2), ioa(2, 22), era(2), upd(2, 23), inci(2), era(258), ikv(258, 24), ikv(770, 25), get(258), Op{CLEAR}})
                o.crash("one" + num(st), setup, {{x}}, gets({2, 4, 258, 770}), post, 0).crash_nested = true;
            for (auto &x : {era(2), ioa(2, 22), ikv(258, 33)})
                for (auto &y : {era(2), ins(2), upd(2, 23), ikv(4, 41), era(258), get(2)})
                    o.crash("pair" + num(st), setup, {{x}, {y}}, gets({2, 4, 258, 770}), post, thorough ? 2 : 1);
        }
        for (auto &setup : {std::vector<Op>{}, {ikv(2, 11)}}) o.crash("rehash", setup, {{{REHASH, 300}}}, gets({2, 4, 258, 770}), post, 0).crash_nested = thorough;
        o.crash("new", {}, {{ins(2)}}, gets({2, 4}), post, 0).crash_nested = true;
        out->back().crash_setup = true;
        o.crash("mix", {}, {{ins(2), ins(3), era(3), ins(4), era(2), ioa(4, 44), {CLEAR}, ins(5)}}, gets({2, 3, 4, 5}), post, 0);
        auto full = many(254);
        for (auto &x : {ikv(510, 31), era(2)})
            o.crash("grow255", full, {{x, ikv(514, 41), get(2)}}, {get(2), get(258), get(510), get(514), {SIZE}, {SNAPSHOT_OK}}, {get(256), ikv(512, 51), era(258), {SIZE}, {DESTROY}}, 0).spin = 20000;
    }
}

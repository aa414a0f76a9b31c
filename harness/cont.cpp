// The containers through their common interface (containers/container.hpp). param kind: 0 stl, 1 ucf, 2 pm.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include "containers/stlMap.hpp"
#include "containers/ucfMap.hpp"
#include "containers/pmemMap.hpp"
TestOptions::TestOptions() {}
using namespace mc;
static Container *c;
static int kind;
static uint64_t none; // what get reports for an absent key

// An insertion of a present key overwrites the value in ucf and keeps it in the others; pm and clevel cannot count.
enum { INS = 200 };

struct ContHarness : Harness
{
    void open(const Scenario &s, bool re)
    {
        kind = s.param("kind");
        TestOptions t;
        t.numthreads = 4;
        t.numops = 8;
        t.numruns = 1;
        t.filename = "/mnt/pmem/pm1/persist.bin";
        t.capacity = s.param("cap", 3);
        if (kind == 0) c = new stl::container_type(t, re);
        if (kind == 1) c = new ucf::container_type(t, re);
        if (kind == 2) c = new pm::container_type(t, re);
        mc_assert(c->isConsistent(), "the container says that it is not consistent");
        none = c->get(1ull << 40);
    }
    void start(const Scenario &s) override
    {
        mc_mkdirs("/mnt/pmem/pm1/tables/");
        open(s, false);
    }
    void reopen(const Scenario &s) override { open(s, true); }
    uint64_t exec(const Op &o) override
    {
        switch (o.code)
        {
        case INSERT: case PUT_NEW: return c->insert(o.a);
        case ERASE: return c->erase(o.a);
        case CONTAINS: return c->contains(o.a);
        case GET:
        {
            uint64_t v = c->get(o.a);
            return v == none ? ABSENT : v;
        }
        case SIZE: return c->count();
        case INC_NR: c->increment(o.a); return ANYRES;
        case INC_NEW: return c->increment(o.a);
        }
        return 0;
    }
    std::string show(const Op &o) override
    {
        switch (o.code)
        {
        case INSERT: case PUT_NEW: return "insert(" + num(o.a) + ")";
        case ERASE: return "erase(" + num(o.a) + ")";
        case CONTAINS: return "contains(" + num(o.a) + ")";
        case GET: return "get(" + num(o.a) + ")";
        case SIZE: return "count()";
        case INC_NR: case INC_NEW: return "increment(" + num(o.a) + ")";
        case REOPEN: return "clean restart";
        }
        return "?";
    }
};
extern "C" Harness *mc_harness() { return new ContHarness; }

extern "C" void mc_scenarios(const char *, int thorough, std::vector<Scenario> *out)
{
    ContHarness h;
    const char *nm[] = {"stl-", "ucf-", "pm-"};
    for (int k = 0; k < 3; ++k)
    {
        std::string n = nm[k];
        Out o{out, [&](const Op &x) { return h.show(x); }, {{"kind", k}, {"pool", 1 << 20}}};
        auto ins = [&](uint64_t x) { return Op{k == 1 ? PUT_NEW : INSERT, x}; };
        auto era = [](uint64_t x) { return Op{ERASE, x}; };
        auto has = [](uint64_t x) { return Op{CONTAINS, x}; };
        auto get = [](uint64_t x) { return Op{GET, x}; };
        auto inc = [&](uint64_t x) { return Op{k == 1 ? INC_NR : INC_NEW, x}; };
        Op size{SIZE};
        std::vector<Op> ops = {ins(5), era(5), has(5), get(5), ins(6), era(6)};
        if (k < 2) ops.push_back(inc(5));
        if (k == 0) ops.push_back(size);
        std::vector<Op> fin = {get(5), get(6), get(7), has(5), has(6), size};
        int bound = k == 0 ? -1 : thorough ? 3 : 2;
        auto tune = [&](Scenario &s)
        {
            if (k == 0) s.race = true;
        };
        for (auto &setup : {std::vector<Op>{}, {ins(5)}, {ins(5), ins(6), ins(7)}})
            for (size_t i = 0; i < ops.size(); ++i)
                for (size_t j = i; j < ops.size(); ++j)
                    tune(o.add(n + "pair" + num(setup.size()), setup, {{ops[i]}, {ops[j]}}, fin, bound));
        for (auto &x : {ins(5), era(5)})
            for (auto &y : {ins(6), era(6), get(5)})
                for (auto &z : {ins(5), get(6)})
                {
                    tune(o.add(n + "three", {ins(6)}, {{x}, {y}, {z}}, fin, k == 0 ? -1 : 1));
                    tune(o.add(n + "two", {ins(6)}, {{x, y}, {z, x}}, fin, k == 0 ? -1 : 1));
                }
        std::vector<Op> al = {ins(5), ins(6), era(5), era(6), has(5), get(5), get(6), size, ins(1), era(1), ins(0)};
        if (k < 2) al.push_back(inc(5)), al.push_back(inc(1));
        if (k) al.push_back({REOPEN});
        auto f2 = fin;
        f2.push_back(get(1));
        f2.push_back(has(0));
        if (k == 0) f2.push_back({REOPEN_NEW});
        o.seq(n + "seq", {}, al, thorough ? 5 : 4, f2);
    }
}

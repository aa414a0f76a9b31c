// The persistent lock-free hash map, driven directly.
#include "pre.hpp"
#include "containers/cliffMap/hashMap.hpp"
TestOptions::TestOptions() {}
using namespace mc;
enum { TABLES = 200 };

struct H3
{
    size_t operator()(size_t k) const noexcept { return k >> 3; }
};
typedef ConcurrentHashMap<size_t, size_t, H3> Map;
static const char *DIR_ = "/mnt/pmem.2/v1.0/tables"; // (a name with dots)
static const char *OTHER = "/mnt/pmem.2/v0.9/tables/";
static const int SH = 3;
static Map *m;
static size_t absent;
static int keybits; // keys that share low bits collide

static uint64_t dec(size_t r)
{
    if (r == absent) return ABSENT;
    if (r & 7) return (1ull << 62) | r; // a reserved bit escaped
    return r >> SH;
}
struct PMapHarness : Harness
{
    void learn() { absent = ~(size_t)0 << 3; absent = m->get(0x7fffffull << SH); }
    void start(const Scenario &s) override
    {
        mc_mkdirs(DIR_);
        // other maps of the process, so that the numbers of the tables of this one start higher
        if (s.param("maps", 0)) mc_mkdirs(OTHER);
        for (int i = 0; i < (int)s.param("maps", 0); ++i) new Map(OTHER, 8, false);
        m = new Map(DIR_, s.param("cap", 8), false);
        learn();
    }
    void reopen(const Scenario &s) override
    {
        m = new Map(DIR_, s.param("cap", 8), true);
        learn();
    }
    uint64_t exec(const Op &o) override
    {
        size_t k = o.a << SH, v = o.b << SH, w = o.c << SH;
        switch (o.code)
        {
        case PUT: return dec(m->put(k, v));
        case GET: return dec(m->get(k));
        case REMOVE: return m->remove(k);
        case REMOVE_IF: return m->remove(k, v);
        case REPLACE: return m->replace(k, v, w);
        case PUT_ABSENT: return dec(m->putIfAbsent(k, v));
        case INC: return dec(m->update(k, (((size_t)1 << 61) - 3) << SH, Map::Table::increment));
        case CONTAINS: return m->containsKey(k);
        case SIZE: return m->size();
        case EMPTY: return m->isEmpty();
        case TABLES:
            // one table per capacity: a resizer that lost the race has released what it created
            mc_assert(mc_distinct_mappings(), "two tables are mapped from the same file");
            mc_assert(mc_mapping_count() == mc_distinct_sizes(), "two mapped tables have the same capacity: the table of a losing resizer was not released");
            mc_assert(mc_mapping_count() == mc_file_count(DIR_), "a table file is not mapped or a mapped table has no file");
            mc_assert(mc_open_fds() == 0, "a file descriptor leaked");
            return ANYRES;
        }
        return 0;
    }
    std::string show(const Op &o) override
    {
        auto n = [](uint64_t x) { return std::to_string(x); };
        switch (o.code)
        {
        case PUT: return "put(" + n(o.a) + "," + n(o.b) + ")";
        case GET: return "get(" + n(o.a) + ")";
        case REMOVE: return "remove(" + n(o.a) + ")";
        case REMOVE_IF: return "remove(" + n(o.a) + ",if " + n(o.b) + ")";
        case REPLACE: return "replace(" + n(o.a) + "," + n(o.b) + "->" + n(o.c) + ")";
        case PUT_ABSENT: return "putIfAbsent(" + n(o.a) + "," + n(o.b) + ")";
        case INC: return "increment(" + n(o.a) + ")";
        case CONTAINS: return "contains(" + n(o.a) + ")";
        case SIZE: return "size()";
        case EMPTY: return "isEmpty()";
        case TABLES: return "table files";
        case REOPEN: return "clean restart";
        case REOPEN_NEW: return "restart with a new map";
        }
        return "?";
    }
};
extern "C" Harness *mc_harness() { return new PMapHarness; }

static Op put(uint64_t k, uint64_t v) { return {PUT, k, v}; }
static Op get(uint64_t k) { return {GET, k}; }
static Op rem(uint64_t k) { return {REMOVE, k}; }
static Op remif(uint64_t k, uint64_t v) { return {REMOVE_IF, k, v}; }
static Op repl(uint64_t k, uint64_t v, uint64_t w) { return {REPLACE, k, v, w}; }
static Op pia(uint64_t k, uint64_t v) { return {PUT_ABSENT, k, v}; }
static Op inc(uint64_t k) { return {INC, k}; }
static Op size() { return {SIZE}; }

static std::vector<Op> gets(std::initializer_list<int> ks)
{
    std::vector<Op> r;
    for (int k : ks) r.push_back(get(k));
    r.push_back(size());
    return r;
}
static std::vector<Op> gets_(std::initializer_list<uint64_t> ks)
{
    std::vector<Op> r;
    for (uint64_t k : ks) r.push_back(get(k));
    r.push_back(size());
    return r;
}
static std::string nm(const Op &o)
{
    PMapHarness h;
    return h.show(o);
}

extern "C" void mc_scenarios(const char *prop_, int thorough, std::vector<Scenario> *out)
{
    std::string prop = prop_;
    std::vector<Op> ops1 = {put(1, 21), put(1, 22), rem(1), pia(1, 23), repl(1, 11, 24), remif(1, 11), inc(1), get(1)};
    if (prop == "C01")
    {
        // every pair of single operations on one key, from three starting states; a colliding key alongside
        int st = 0;
        for (std::vector<Op> setup : {std::vector<Op>{}, {put(1, 11)}, {put(1, 11), rem(1)}})
        {
            ++st;
            for (size_t i = 0; i < ops1.size(); ++i)
                for (size_t j = i; j < ops1.size(); ++j)
                {
                    if (ops1[i].code == GET && ops1[j].code == GET) continue;
                    Scenario s;
                    s.name = "pair" + std::to_string(st) + ":" + nm(ops1[i]) + "|" + nm(ops1[j]);
                    s.setup = setup;
                    s.threads = {{ops1[i]}, {ops1[j]}};
                    s.fin = gets({1});
                    s.bound = -1;
                    out->push_back(s);
                }
        }
    }
    auto add = [&](const std::string &name, std::vector<Op> setup, std::vector<std::vector<Op>> th, std::vector<Op> fin,
                   int bound) -> Scenario &
    {
        Scenario s;
        s.name = name;
        for (size_t i = 0; i < th.size(); ++i)
        {
            s.name += i ? "|" : ":";
            for (size_t j = 0; j < th[i].size(); ++j) s.name += (j ? ";" : "") + nm(th[i][j]);
        }
        s.setup = setup;
        s.threads = th;
        s.fin = fin;
        s.bound = bound;
        out->push_back(s);
        return out->back();
    };
    auto full = [&](int n = 8, int mul = 1)
    {
        std::vector<Op> r;
        for (int k = 1; k <= n; ++k) r.push_back(put(k * mul, k + 10));
        return r;
    };
    auto cat = [](std::vector<Op> a, std::vector<Op> b)
    {
        a.insert(a.end(), b.begin(), b.end());
        return a;
    };
    if (prop == "C02")
    {
        // the table is full: the first new key starts a growth of the table
        std::vector<Op> grow = {put(9, 30), pia(9, 30), inc(9)};
        std::vector<Op> others = {put(1, 31), rem(1), pia(1, 32), repl(1, 11, 33), remif(1, 11), inc(1), get(1),
                                  put(9, 34), get(9), rem(9), rem(8), put(8, 35), put(10, 36), get(8)};
        for (size_t g = 0; g < grow.size(); ++g)
            for (auto &o : others)
            {
                if (g && !thorough && o.code != PUT && o.code != INC && o.code != PUT_ABSENT) continue;
                add("grow", full(), {{grow[g]}, {o}}, gets({1, 2, 8, 9, 10}), 2).fin.pop_back();
            }
        for (Op o : {put(1, 31), pia(1, 32), inc(1), get(1), rem(1), repl(1, 11, 33)})
            add("grow-tomb", cat(full(), {rem(1)}), {{put(9, 30)}, {o}}, gets({1, 2, 8, 9}), 2).fin.pop_back();
    }
    if (prop == "C03")
    {
        for (std::vector<Op> setup : {std::vector<Op>{}, {put(1, 11)}, {put(1, 11), rem(1)}})
        {
            for (Op o : {inc(1), put(1, 20), rem(1), pia(1, 21), get(1)})
                add("inc", setup, {{inc(1)}, {inc(1)}, {o}}, {get(1)}, thorough ? -1 : 3);
            add("inc2", setup, {{inc(1), inc(1)}, {inc(1), inc(1)}}, {get(1)}, thorough ? -1 : 4);
        }
        for (Op g : {put(9, 30), inc(9)})
        {
            for (Op o : {inc(9), inc(1)}) add("grow", full(), {{g}, {o}}, {get(1), get(9)}, 2);
            add("grow2", full(), {{g}, {inc(1), inc(1)}}, {get(1), get(9)}, 2);
            add("grow3", full(), {{g}, {inc(1)}, {inc(1)}}, {get(1), get(9)}, thorough ? 2 : 1);
            add("grow-tomb", cat(full(), {rem(1)}), {{g}, {inc(1)}}, {get(1), get(9)}, 2);
        }
    }
    // stalled copier: every key collides, so the doubled table grows again at once
    auto coll = full(8, 16);
    std::vector<std::vector<Op>> nested = {{put(144, 30)}, {rem(16), put(160, 31), put(176, 32), put(192, 33)}};
    std::vector<std::vector<Op>> nested2 = {{get(16)}, {put(144, 30), rem(16), put(160, 31), put(176, 32)}};
    std::vector<std::vector<Op>> nested3 = {{put(144, 30)}, {put(16, 40), put(160, 31), put(176, 32), put(192, 33)}};
    if (prop == "C02")
    {
        add("regrow", coll, nested, gets({16, 32, 128, 144, 176}), thorough ? 2 : 1).fin.pop_back();
        add("regrow", coll, nested3, gets({16, 32, 128, 144, 176}), thorough ? 2 : 1).fin.pop_back();
        add("regrow", coll, nested2, gets({16, 32, 128, 144, 176}), 2).fin.pop_back();
    }
    // the probe limit is reached although the table has free slots: those are closed by the copy
    auto sparse = full(10, 16); // 16 slots, 10 colliding keys, six slots stay free
    auto cap16 = [](Scenario &s) -> Scenario & { s.p["cap"] = 16; return s; };
    std::vector<Op> sparseOthers = {put(14, 31), put(15, 32), put(30, 33), rem(16), put(16, 34), get(15), get(176), inc(14), pia(176, 35), rem(160), put(160, 36), put(192, 37)};
    auto sg = [&](int i) { return gets({16, 14, 15, 30, 160, 176, 192}); };
    if (prop == "C02")
        for (auto &o : sparseOthers) cap16(add("sparse", sparse, {{put(176, 30)}, {o}}, sg(0), thorough ? 2 : 1)).fin.pop_back();
    // tables of more than one chunk of copy work
    if (prop == "C02" || prop == "C08")
    {
        std::vector<Op> big = {put(1500, 41), put(700, 42), put(2047, 43), put(1023, 44), put(1024, 45)};
        for (int k = 1; k <= 10; ++k) big.push_back(put(2048 * k, k + 10));
        for (Op o : {put(1500, 31), inc(2047), rem(1024), put(4096, 32)})
        {
            auto &s = add("chunks", big, {{put(2048 * 11, 30)}, {o}}, gets({1500, 700, 2047, 1023, 1024, 2048, 4096, 20480, 22528}), thorough ? 3 : 2);
            s.fin.pop_back();
            s.coarse = true;
            s.p["cap"] = 2048;
            s.horizon = 2000000;
            s.spin = 200000;
            s.spin_branch = 100000;
            if (prop == "C08") s.progress = true, s.fin.clear();
        }
    }
    if (prop == "C03")
        for (auto &o : {inc(14), inc(176), inc(16), put(176, 30)}) cap16(add("sparse", sparse, {{inc(176)}, {o}}, {get(14), get(16), get(176)}, thorough ? 2 : 1));
    if (prop == "C05")
        for (auto &o : sparseOthers) if (o.code != GET) cap16(add("sparse", sparse, {{put(176, 30)}, {o}}, {size()}, thorough ? 2 : 1));
    if (prop == "C08")
        for (auto &o : sparseOthers) cap16(add("sparse", sparse, {{put(176, 30)}, {o}}, {}, 1)).progress = true;
    if (prop == "C09")
        for (auto &o : sparseOthers) cap16(add("sparse", sparse, {{put(176, 30)}, {o}}, {{TABLES}}, thorough && o.a != 192 ? 2 : 1)).race = true;
    if (prop == "C05")
    {
        int st = 0;
        for (std::vector<Op> setup : {std::vector<Op>{}, {put(1, 11)}, {put(1, 11), rem(1)}})
        {
            ++st;
            for (size_t i = 0; i < ops1.size(); ++i)
                for (size_t j = i; j < ops1.size(); ++j)
                {
                    if (ops1[i].code == GET || ops1[j].code == GET) continue;
                    add("pair" + std::to_string(st), setup, {{ops1[i]}, {ops1[j]}}, {size(), {EMPTY}}, -1);
                }
        }
        for (auto &o : {put(1, 31), rem(1), pia(1, 32), inc(1), put(9, 34), rem(9), rem(8), put(10, 36), pia(9, 37)})
        {
            add("grow", full(), {{put(9, 30)}, {o}}, {size()}, thorough ? 2 : 1);
            add("grow-tomb", cat(full(), {rem(1), rem(2)}), {{put(9, 30)}, {o}}, {size()}, thorough ? 2 : 1);
        }
        for (auto &n : {nested, nested2, nested3}) add("regrow", coll, n, {size()}, 1);
    }
    if (prop == "C08")
    {
        for (std::vector<Op> setup : {std::vector<Op>{}, {put(1, 11)}})
            for (size_t i = 0; i < ops1.size(); ++i)
                for (size_t j = i; j < ops1.size(); ++j)
                    add("pair", setup, {{ops1[i]}, {ops1[j]}}, {}, thorough ? -1 : 3).progress = true;
        for (auto &o : {put(1, 31), rem(1), pia(1, 32), repl(1, 11, 33), remif(1, 11), inc(1), get(1), put(9, 34), get(9), put(10, 36)})
            add("grow", full(), {{put(9, 30)}, {o}}, {}, thorough ? 2 : 1).progress = true;
        for (auto &n : {nested, nested2}) add("regrow", coll, n, {}, 1).progress = true;
        add("grow3", full(), {{put(9, 30)}, {put(1, 31)}, {put(10, 32)}}, {}, 1).progress = true;
    }
    if (prop == "C09")
    {
        for (auto &o : {put(1, 31), rem(1), get(1), inc(9), put(9, 34), get(9), put(10, 36)})
        {
            auto &s = add("grow", full(), {{put(9, 30)}, {o}}, {{TABLES}}, 2);
            s.race = true;
        }
        for (auto &n : {nested, nested2}) add("regrow", coll, n, {{TABLES}}, thorough ? 2 : 1);
        add("grow3", full(), {{put(9, 30)}, {put(9, 31)}, {put(10, 32)}}, {{TABLES}}, thorough ? 2 : 1);
        // tables of more than one page
        for (Op o : {put(256 * 12, 31), inc(256 * 11), get(256)})
        {
            auto &s = add("pages", full(10, 256), {{put(256 * 11, 30)}, {o}}, {{TABLES}}, thorough ? 3 : 2);
            s.coarse = true;
            s.p["cap"] = 256;
            s.horizon = 2000000;
            s.spin = 200000;
            s.spin_branch = 100000;
        }
        // the tables after clean restarts
        for (int cap : {8, 16, 256})
        {
            Scenario s;
            s.name = "restart-tables" + std::to_string(cap);
            s.setup = full(cap == 8 ? 8 : 10, cap);
            s.alphabet = {put(cap * 11, 22), put(cap * 12, 23), rem(cap * 2), put(cap * 2, 24), get(cap * 3), {REOPEN}};
            s.seq_depth = thorough ? 5 : 4;
            s.fin = {{TABLES}};
            s.p["cap"] = cap;
            s.horizon = 2000000;
            s.spin = 200000;
            s.spin_branch = 100000;
            out->push_back(s);
        }
    }
    if (prop == "C04")
    {
        auto seq = [&](const std::string &n, std::vector<Op> setup, std::vector<Op> al, int depth, std::vector<Op> fin)
        {
            Scenario s;
            s.name = n;
            s.setup = setup;
            s.alphabet = al;
            s.seq_depth = depth;
            s.fin = fin;
            out->push_back(s);
        };
        int D = thorough ? 7 : 5;
        std::vector<Op> a = {put(1, 21), put(1, 22), put(9, 21), rem(1), rem(9), get(1), get(9), pia(1, 23), pia(9, 24),
                             repl(1, 21, 22), repl(1, 22, 23), remif(1, 22), remif(9, 21), inc(1), {CONTAINS, 1}, {CONTAINS, 9}};
        seq("empty", {}, a, D, gets({1, 9, 17}));
        seq("wrap", {put(7, 5)}, {put(15, 21), put(23, 22), rem(7), rem(15), get(7), get(15), get(23), pia(23, 9), pia(7, 8), inc(15), put(7, 6), {CONTAINS, 23}}, D, gets({7, 15, 23}));
        seq("full7", full(7), {put(8, 21), put(9, 22), put(10, 23), rem(1), rem(8), get(1), get(8), pia(9, 24), inc(10), repl(1, 11, 25), put(1, 26)}, D, gets({1, 2, 7, 8, 9, 10}));
        seq("full8", full(8), {put(9, 22), put(17, 23), rem(1), rem(9), get(9), pia(17, 24), inc(9), inc(1), repl(1, 11, 25), put(1, 26), remif(2, 12)}, D, gets({1, 2, 8, 9, 17}));
        // the first and the last keys and values, and keys whose hash needs more than 31 and 32 bits
        const uint64_t B = 1ull << 31, W = (1ull << 32) + B + 1, KL = (1ull << 61) - 3, VL = (1ull << 61) - 5;
        seq("extreme", {}, {put(0, 0), put(B, 0), put(W, VL), put(KL, 7), rem(0), rem(W), pia(0, 1), pia(KL, VL - 8), repl(B, 0, VL), remif(0, 0), inc(0), inc(KL), {CONTAINS, B}, {CONTAINS, 0}},
            D - 1, gets_({0, 1, B, W, KL, VL}));
        seq("extreme-full", {put(B, 1), put(W, 2), put(KL, 3), put(0, 4), put(2 * B, 5), put(B + 7, 6), put(3 * W, 7)},
            {put(4 * B, 21), put(KL - 5, 22), put(VL - 8, 23), rem(W), rem(0), pia(4 * B, 24), inc(KL - 5), repl(B, 1, VL), put(3 * B + 1, 0), get(W)}, D - 1,
            gets_({0, B, 2 * B, 4 * B, B + 7, W, 3 * W, KL, KL - 5, VL - 8, 3 * B + 1}));
        auto out16 = [&]() { out->back().p["cap"] = 16; };
        seq("sparse", full(9, 16), {put(160, 21), put(176, 22), put(14, 23), put(15, 24), rem(16), put(16, 25), get(176), get(14), pia(176, 26), inc(15), rem(160), repl(144, 19, 27)}, D, gets({16, 14, 15, 144, 160, 176}));
        out16();
        seq("sparse-mixed", {put(16, 11), put(1, 12), put(32, 13), put(17, 14), put(48, 15), put(33, 16), put(64, 17), put(2, 18), put(80, 19), put(96, 20), put(49, 21), put(112, 22)},
            {put(128, 23), put(65, 24), put(3, 25), put(15, 26), rem(17), rem(1), put(31, 27), get(65), get(3), inc(47), put(144, 28), rem(128)}, D, gets({1, 2, 3, 15, 16, 17, 31, 47, 65, 112, 128, 144}));
        out16();
        seq("regrow", full(8, 16), {put(144, 22), put(160, 23), put(176, 24), put(192, 25), rem(16), rem(144), get(16), pia(16, 26), inc(32), put(16, 27)}, D, gets({16, 32, 128, 144, 160, 176, 192}));
    }
    if (prop == "C06" || prop == "C07")
    {
        bool rec = prop == "C07";
        auto addc = [&](const std::string &name, std::vector<Op> setup, std::vector<std::vector<Op>> th, std::vector<Op> fin,
                        std::vector<Op> post, int bound) -> Scenario &
        {
            auto &s = add(name, setup, th, fin, bound);
            s.crash = true;
            s.post = post;
            return s;
        };
        std::vector<Op> post = {put(1, 51), get(1), rem(1), get(1), put(9, 52), get(9), size()};
        if (!rec)
        {
            int st = 0;
            for (std::vector<Op> setup : {std::vector<Op>{}, {put(1, 11)}, {put(1, 11), rem(1)}})
            {
                ++st;
                for (size_t i = 0; i < ops1.size(); ++i)
                    for (size_t j = i; j < ops1.size(); ++j)
                    {
                        auto f = gets({1});
                        addc("pair" + std::to_string(st), setup, {{ops1[i]}, {ops1[j]}}, f, {}, thorough ? -1 : 2);
                    }
            }
            for (Op o : {put(9, 30), rem(1), put(1, 31), inc(9), pia(9, 31)}) addc("grow", full(), {{o, get(9), put(10, 32)}}, gets({1, 2, 8, 9, 10}), {}, 0);
            // a thread that is still growing the table while another one completes operations
            for (Op o : {put(1, 31), rem(1), pia(1, 32), get(1), inc(1), put(9, 34), rem(8), put(10, 36)})
            {
                addc("grow2", full(), {{put(9, 30)}, {o}}, gets({1, 2, 8, 9, 10}), {}, thorough ? 2 : 1);
                addc("grow-tomb", cat(full(), {rem(1), rem(2)}), {{put(9, 30)}, {o}}, gets({1, 2, 8, 9, 10}), {}, thorough ? 2 : 1);
            }
            // keys with room left in their probe sequence: the new table must not be bypassed after a crash
            addc("grow-part", full(10, 16), {{put(176, 30), put(192, 31)}, {put(13, 32)}}, gets({16, 13, 176, 192}), {}, 1).p["cap"] = 16;
            addc("grow-part", full(10, 16), {{put(176, 30)}, {rem(16), put(14, 31)}}, gets({16, 14, 176}), {}, thorough ? 1 : 0).p["cap"] = 16;
            for (auto &n : {nested, nested2, nested3}) addc("regrow", coll, n, gets({16, 32, 128, 144, 160, 176}), {}, thorough ? 1 : 0);
        }
        else
        {
            auto seq = [&](const std::string &n, std::vector<Op> setup, std::vector<Op> al, int depth, std::vector<Op> fin)
            {
                Scenario s;
                s.name = n;
                s.setup = setup;
                s.alphabet = al;
                s.seq_depth = depth;
                s.fin = fin;
                out->push_back(s);
            };
            Op R = {REOPEN};
            int D = thorough ? 6 : 4;
            seq("restart", {}, {put(1, 21), put(9, 22), rem(1), rem(9), pia(1, 23), inc(9), size(), R}, D + 1, gets({1, 9, 17}));
            seq("restart-full", full(7), {put(8, 21), put(9, 22), put(10, 23), rem(1), rem(9), put(1, 24), size(), R}, D, gets({1, 2, 7, 8, 9, 10}));
            seq("restart-regrow", full(8, 16), {put(144, 22), put(160, 23), put(176, 24), rem(16), put(16, 25), size(), R}, D, gets({16, 32, 128, 144, 160, 176}));
            Op N = {REOPEN_NEW};
            seq("new-map", full(), {put(9, 22), put(1, 23), rem(2), get(3), R, N}, D, gets({1, 2, 3, 9}));
            // crash anywhere, also while recovering; then go on
            for (std::vector<Op> th : {std::vector<Op>{put(1, 21), rem(1), put(1, 22)}, {inc(1), put(9, 23), rem(9)}, {pia(1, 21), repl(1, 21, 22)}})
            {
                auto &s = addc("crash", {}, {th}, gets({1, 9}), post, 0);
                s.crash_nested = s.crash_setup = true;
            }
            for (Op o : {put(9, 30), inc(9), pia(9, 31)})
            {
                auto th = thorough ? std::vector<Op>{o, put(10, 32), rem(1)} : std::vector<Op>{o, rem(1)};
                auto &s = addc("grow", full(), {th}, gets({1, 2, 8, 9, 10}), post, 0);
                s.crash_nested = true;
                if (!thorough) s.crash_cap = 64;
            }
            {
                auto &s = addc("grow-tomb", cat(full(), {rem(1), rem(2)}), {{put(9, 30), put(1, 31)}}, gets({1, 2, 8, 9, 10}), post, 0);
                s.crash_nested = true;
                if (!thorough) s.crash_cap = 64;
                auto &t = addc("regrow", coll, {{put(144, 30), rem(16), put(160, 31), put(176, 32), put(16, 33)}}, gets({16, 32, 128, 144, 160, 176}), {put(16, 51), rem(32), put(208, 52), get(16), get(32), get(208), size()}, 0);
                t.crash_nested = thorough;
                // numbers of different lengths
                for (int n : {8, 9})
                    addc("numbers", full(), {{put(9, 30), rem(1)}}, gets({1, 2, 8, 9, 10}), post, 0).p["maps"] = n;
            }
            for (Op o : {put(1, 31), rem(1), inc(1), put(10, 36)}) addc("grow2", full(), {{put(9, 30)}, {o}}, gets({1, 2, 8, 9, 10}), post, 1).crash_nested = thorough;
        }
    }
}

// Multi-word compare-and-swap (include/KCAS) on an array in persistent memory.
#include "common.hpp"
#include <cstdarg>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <ctype.h>
#include <errno.h>
// Replaces KCAS/define.hpp: the array is mapped from a file here, so that it can be recovered.
#define DEFINE_hpp
std::atomic<uintptr_t> *array;
thread_local size_t localThreadNum; // the main thread uses the descriptors of the first thread
#include "KCAS/pmwcas.hpp"
using namespace mc;
typedef PMwCASManager<uintptr_t, 4, 4> Kcas;
static Kcas *k;
static const char *ARR = "/mnt/pmem/pm1/array.dat", *DESC = "/mnt/pmem/pm1/descriptors.dat";
static size_t nwords;

enum { NEW = 300 };
struct KcasHarness : Harness
{
    size_t stride = 1; // words on lines of their own
    size_t at(uint64_t i) { return i * stride; }
    void map_array(const Scenario &s, bool create)
    {
        nwords = s.param("words", 4);
        stride = s.param("stride", 8);
        size_t n = 4096;
        int fd = open(ARR, create ? O_RDWR | O_CREAT : O_RDWR, 0600);
        mc_assert(fd >= 0, "the array file cannot be opened");
        if (create) ftruncate(fd, n);
        array = (std::atomic<uintptr_t> *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    void start(const Scenario &s) override
    {
        mc_mkdirs("/mnt/pmem/pm1/");
        map_array(s, true);
        if (s.param("stale"))
        {
            // The descriptor file of an earlier program that used other words.
            int fd = open(DESC, O_RDWR | O_CREAT, 0600);
            size_t n = (sizeof(Kcas::KCASDescriptor) + sizeof(Kcas::WordDescriptor)) * 4;
            ftruncate(fd, n);
            uint64_t *m = (uint64_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            Kcas::KCASDescriptor *d = (Kcas::KCASDescriptor *)m;
            for (int i = 0; i < 4; ++i)
            {
                ((uint64_t *)&d[i])[0] = 2 << 3; // undecided, sequence number 2
                d[i].count = 1;
                d[i].words[0].offset = at(0);
                d[i].words[0].oldVal = 0;
                d[i].words[0].newVal = 7 << 3;
            }
            PERSIST(m, n);
            munmap(m, n);
            close(fd);
        }
        if (s.param("stale") != 1) create();
    }
    // A program that was interrupted before it noted that the manager exists creates it again.
    void create()
    {
        k = new Kcas((uintptr_t)array, false, DESC);
        array[500].store(1);
        PERSIST(&array[500], 8);
    }
    void thread_begin(int t) override { localThreadNum = t; }
    void reopen(const Scenario &s) override
    {
        map_array(s, false);
        if (!array[500].load()) return create();
        k = new Kcas((uintptr_t)array, true, DESC);
        for (size_t i = 0; i < nwords; ++i) mc_assert((array[at(i)].load() & 6) == 0, "a descriptor is left in the array after recovery");
    }
    uint64_t exec(const Op &o) override
    {
        helps = opsDone = 0; // statistics
        switch (o.code)
        {
        case KCAS:
        {
            Kcas::Word w[4];
            int n = 0;
            for (auto x : {o.c, o.a, o.b})
                if (x != ~0ull)
                {
                    w[n].offset = at(x >> 32);
                    w[n].oldVal = ((x >> 16) & 0xffff) << 3;
                    w[n++].newVal = (x & 0xffff) << 3;
                }
            return k->PMwCAS(localThreadNum, n, w);
        }
        case NEW: create(); return 1;
        case WREAD:
        {
            uint64_t v = k->PMwCASRead(&array[at(o.a)]);
            mc_assert((v & 7) == 0, "a read returned a descriptor or a dirty bit");
            return v >> 3;
        }
        case WCAS:
        {
            uintptr_t old = o.b << 3;
            bool r = k->CAS(&array[at(o.a)], old, o.c << 3);
            mc_assert(r == (old == o.b << 3), "the value reported by CAS contradicts its result");
            mc_assert((old & 7) == 0, "CAS reported a descriptor or a dirty bit");
            return r;
        }
        }
        return 0;
    }
    static std::string w(uint64_t x) { return "w" + num(x >> 32) + ":" + num((x >> 16) & 0xffff) + ">" + num(x & 0xffff); }
    std::string show(const Op &o) override
    {
        switch (o.code)
        {
        case KCAS:
        {
            std::string s = "mwcas(";
            for (auto x : {o.a, o.b, o.c})
                if (x != ~0ull) s += (s.back() == '(' ? "" : ",") + w(x);
            return s + ")";
        }
        case WREAD: return "read(w" + num(o.a) + ")";
        case NEW: return "new manager";
        case WCAS: return "cas(w" + num(o.a) + ":" + num(o.b) + ">" + num(o.c) + ")";
        case REOPEN: return "clean restart";
        }
        return "?";
    }
};
extern "C" Harness *mc_harness() { return new KcasHarness; }
static uint64_t W(uint64_t i, uint64_t o, uint64_t n) { return i << 32 | o << 16 | n; }
static Op M(uint64_t a, uint64_t b = ~0ull, uint64_t c = ~0ull) { return {KCAS, a, b, c}; }
static Op R(uint64_t i) { return {WREAD, i}; }
static Op C(uint64_t i, uint64_t o, uint64_t n) { return {WCAS, i, o, n}; }

static void scenarios(const char *prop, int thorough, std::vector<Scenario> *out)
{
    KcasHarness h;
    Out o{out, [&](const Op &x) { return h.show(x); }};
    std::string pr = prop;
    std::vector<Op> fin = {R(0), R(1), R(2)};
    o.p["words"] = 3;
    Op a01 = M(W(0, 0, 1), W(1, 0, 1)), b01 = M(W(0, 0, 2), W(1, 0, 2)), b12 = M(W(1, 0, 2), W(2, 0, 2)), fail1 = M(W(0, 0, 3), W(1, 5, 3)), chain = M(W(0, 1, 4), W(1, 1, 4)), one = M(W(1, 0, 5)),
       all3 = M(W(0, 0, 6), W(1, 0, 6), W(2, 0, 6)), same = M(W(0, 0, 0), W(1, 0, 0)), rev = M(W(2, 0, 7), W(0, 0, 7));
    if (pr == "C10")
    {
        int b = thorough ? 4 : 3, c = thorough ? 3 : 2;
        std::vector<Op> ops = {a01, b01, b12, fail1, chain, one, all3, same, rev};
        for (size_t i = 0; i < ops.size(); ++i)
            for (size_t j = i; j < ops.size(); ++j) o.add("pair", {}, {{ops[i]}, {ops[j]}}, fin, j < 6 ? b : c);
        for (size_t i = 0; i < ops.size(); ++i)
        {
            o.add("read", {}, {{ops[i]}, {R(0), R(1)}}, fin, b);
            o.add("read", {}, {{ops[i]}, {R(1), R(0)}}, fin, b);
            o.add("cas", {}, {{ops[i]}, {C(1, 0, 6), R(0)}}, fin, b);
            o.add("cas", {}, {{ops[i]}, {C(0, 0, 1), R(1)}}, fin, b);
            o.add("cas-back", {}, {{ops[i]}, {C(1, 0, 6), C(1, 6, 0)}}, fin, b);
        }
        // The second word changes to what the first operation expects while it fails.
        for (auto &x : {R(0), a01, M(W(0, 3, 2), W(1, 5, 2))})
        {
            o.add("late", {}, {{fail1, M(W(2, 0, 9))}, {C(1, 0, 5), x}}, fin, b);
            o.add("late", {}, {{fail1, M(W(1, 5, 9))}, {C(1, 0, 5), x}}, fin, b);
        }
        // Descriptors are reused while others still help.
        o.add("reuse", {}, {{a01, chain}, {b01, R(0)}}, fin, c);
        o.add("reuse", {}, {{a01, chain}, {R(0), R(1), R(0)}}, fin, c);
        o.add("reuse", {}, {{a01, M(W(0, 1, 0), W(1, 1, 0)), b01}, {R(0), all3}}, fin, c);
        o.add("reuse", {}, {{a01, chain}, {b12, M(W(1, 1, 3), W(2, 0, 3))}}, fin, c);
        o.add("swap", {}, {{a01, M(W(0, 1, 0), W(1, 1, 0))}, {a01, M(W(0, 1, 0), W(1, 1, 0))}}, fin, c);
        o.add("three", {}, {{a01}, {b01}, {R(0)}}, fin, 2);
        o.add("three", {}, {{a01}, {M(W(1, 0, 2), W(2, 0, 2))}, {M(W(0, 0, 3), W(2, 0, 3))}}, fin, 2);
        o.add("three", {}, {{fail1}, {C(1, 0, 5)}, {R(0), R(1)}}, fin, 2);
        o.add("three", {}, {{a01}, {a01}, {chain}}, fin, 2);
        if (thorough)
        {
            o.add("three", {}, {{a01}, {all3}, {R(2), R(0)}}, fin, 2);
            o.add("three", {}, {{a01, chain}, {R(0)}, {C(0, 0, 9)}}, fin, 2);
            o.add("three", {}, {{fail1, M(W(1, 5, 9))}, {C(1, 0, 5)}, {R(0), R(1)}}, fin, 2);
        }
        return;
    }
    if (pr == "C11")
    {
        int cb = thorough ? 3 : 2;
        std::vector<Op> post = {M(W(0, 1, 8), W(1, 1, 8)), R(0), R(1), R(2)};
        std::vector<std::vector<Op>> single = {{a01}, {fail1}, {a01, chain}, {M(W(0, 0, 1), W(1, 0, 2), W(2, 0, 3))}, {one, a01}, {same, all3}};
        auto crash = [&](const char *n, std::vector<std::vector<Op>> th, int bound) {
            auto &s = o.crash(n, {}, th, fin, post, bound);
            s.crash_nested = thorough || th.size() == 1;
        };
        for (auto &x : single) crash("crash", {x}, 0);
        // A second crash, after the recovery from the first.
        for (auto &x : {a01, all3, fail1})
        {
            auto &s = o.crash("twice", {}, {{x}}, {}, {M(W(0, 0, 8), W(1, 0, 8)), M(W(0, 1, 9), W(2, 0, 9)), R(0), R(1), R(2)}, 0);
            s.crash_post = true;
        }
        o.p["stride"] = 1; // all words on one line
        for (auto &x : single) crash("crash-line", {x}, 0);
        o.p["stride"] = 8;
        o.p["stale"] = 1;
        crash("stale", {{{NEW}, a01}}, 0);
        o.p["stale"] = 0;
        std::vector<std::pair<std::vector<Op>, std::vector<Op>>> two = {{{a01}, {b01}}, {{a01}, {b12}}, {{a01}, {R(0), R(1)}}, {{a01}, {chain}}, {{fail1}, {one}}, {{fail1}, {R(0)}}, {{all3}, {rev}}};
        for (auto &[x, y] : two) crash("crash2", {x, y}, cb);
        crash("reuse", {{a01, chain}, {R(0), R(1)}}, cb - 1);
        crash("reuse", {{a01, chain}, {b12}}, cb - 1);
        // A single-word CAS is durable once it has been observed.
        crash("cas", {{C(0, 0, 1), C(1, 0, 1)}, {R(0), R(1)}}, cb);
        crash("cas", {{C(0, 0, 1)}, {C(0, 0, 2), M(W(0, 1, 4), W(1, 0, 4))}}, cb);
        crash("cas", {{C(0, 0, 1)}, {M(W(0, 1, 4), W(1, 0, 4)), R(0)}}, cb);
        if (thorough) crash("three", {{a01}, {b12}, {R(0)}}, 1);
    }
}
extern "C" void mc_scenarios(const char *prop, int thorough, std::vector<Scenario> *out)
{
    scenarios(prop, thorough, out);
    for (auto &s : *out) s.spec = "words", s.progress = !s.crash;
}

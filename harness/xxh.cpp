// hashing/: every hash function against an independent XXH32/XXH64, against the recorded XXH3 values, and its
// streaming form against its one-shot form for all sequences of updates.
#include "common.hpp"
#include "hashing/hash.hpp"
// the header once more for each instruction set
#undef XXHASH_HPP
#undef XXH_VECTOR
#define XXH_VECTOR 0
#define xxh xxh_scalar
#include "hashing/xxhash.hpp"
#undef xxh
#undef XXHASH_HPP
#undef XXH_VECTOR
#define XXH_VECTOR 1
#define xxh xxh_sse2
#include "hashing/xxhash.hpp"
#undef xxh
#undef XXHASH_HPP
#undef XXH_VECTOR
#define XXH_VECTOR 2
#pragma GCC push_options
#pragma GCC target("avx2")
#define xxh xxh_avx2
#include "hashing/xxhash.hpp"
#undef xxh
#pragma GCC pop_options
using namespace mc;
#define NOI __attribute__((no_sanitize("thread"), noinline))

// ---- independent XXH32 and XXH64, from the specification ----
static const uint64_t Q1 = 0x9E3779B185EBCA87u, Q2 = 0xC2B2AE3D27D4EB4Fu, Q3 = 0x165667B19E3779F9u, Q4 = 0x85EBCA77C2B2AE63u, Q5 = 0x27D4EB2F165667C5u;
static const uint32_t D1 = 0x9E3779B1u, D2 = 0x85EBCA77u, D3 = 0xC2B2AE3Du, D4 = 0x27D4EB2Fu, D5 = 0x165667B1u;
static inline uint64_t rl(uint64_t x, int r) { return x << r | x >> (64 - r); }
static inline uint32_t rl32(uint32_t x, int r) { return x << r | x >> (32 - r); }
template <class T> static inline T rd(const uint8_t *p)
{
    T v = 0;
    for (size_t i = 0; i < sizeof(T); ++i) v |= (T)p[i] << (8 * i);
    return v;
}
NOI static uint64_t ref64(const uint8_t *p, size_t n, uint64_t seed)
{
    size_t left = n;
    uint64_t h;
    auto rnd = [](uint64_t a, uint64_t x) { return rl(a + x * Q2, 31) * Q1; };
    if (n >= 32)
    {
        uint64_t a[4] = {seed + Q1 + Q2, seed + Q2, seed, seed - Q1};
        for (; left >= 32; left -= 32)
            for (int i = 0; i < 4; ++i, p += 8) a[i] = rnd(a[i], rd<uint64_t>(p));
        h = rl(a[0], 1) + rl(a[1], 7) + rl(a[2], 12) + rl(a[3], 18);
        for (int i = 0; i < 4; ++i) h = (h ^ rnd(0, a[i])) * Q1 + Q4;
    }
    else h = seed + Q5;
    h += n;
    for (; left >= 8; left -= 8, p += 8) h = rl(h ^ rnd(0, rd<uint64_t>(p)), 27) * Q1 + Q4;
    if (left >= 4) { h = rl(h ^ rd<uint32_t>(p) * Q1, 23) * Q2 + Q3; left -= 4; p += 4; }
    for (; left; --left, ++p) h = rl(h ^ *p * Q5, 11) * Q1;
    h = (h ^ h >> 33) * Q2;
    h = (h ^ h >> 29) * Q3;
    return h ^ h >> 32;
}
NOI static uint32_t ref32(const uint8_t *p, size_t n, uint32_t seed)
{
    size_t left = n;
    uint32_t h;
    if (n >= 16)
    {
        uint32_t a[4] = {seed + D1 + D2, seed + D2, seed, seed - D1};
        for (; left >= 16; left -= 16)
            for (int i = 0; i < 4; ++i, p += 4) a[i] = rl32(a[i] + rd<uint32_t>(p) * D2, 13) * D1;
        h = rl32(a[0], 1) + rl32(a[1], 7) + rl32(a[2], 12) + rl32(a[3], 18);
    }
    else h = seed + D5;
    h += (uint32_t)n;
    for (; left >= 4; left -= 4, p += 4) h = rl32(h + rd<uint32_t>(p) * D3, 17) * D4;
    for (; left; --left, ++p) h = rl32(h + *p * D5, 11) * D1;
    h = (h ^ h >> 15) * D2;
    h = (h ^ h >> 13) * D3;
    return h ^ h >> 16;
}

static const size_t MAXLEN = 2600;
static uint8_t text[2][MAXLEN + 64]; // two contents
static uint8_t secret[256];
static const uint64_t seeds[] = {0, 1, 0x9E3779B97F4A7C15u, ~0ull};
static bool avx2;
static const size_t ends[] = {4, 9, 17, 129, 241, 513, 1100}; // ranges of lengths with a recorded fingerprint
static const uint64_t golden[] = {
#include "xxh_golden.inc"
    0};

enum { ONE64 = 200, ONE32, ONE3, GOLDEN, MAPHASH, CANON, ADD, COPY, ASSIGN, RESET, FORMS };
enum Alg { X32, X64, X3_64, X3_128, NALG };
typedef std::pair<uint64_t, uint64_t> H2;
template <class T> static H2 pr(const T &x)
{
    if constexpr (std::is_integral_v<T>) return {x, 0};
    else return {x.low64, x.high64};
}
// every chunk of the input is handed over in a buffer of exactly its size, so that reading past it is noticed
struct Exact
{
    uint8_t *p;
    Exact(const uint8_t *s, size_t n, size_t al) : p((uint8_t *)malloc(n + al ? n + al : 1)), off(al) { memcpy(p + al, s, n); }
    ~Exact() { free(p); }
    size_t off;
    const uint8_t *get() { return p + off; }
};

static H2 oneshot(int alg, const uint8_t *p, size_t n, uint64_t seed, size_t sec)
{
    switch (alg)
    {
    case X32: return pr(xxh::xxhash<32>(p, n, (uint32_t)seed));
    case X64: return pr(xxh::xxhash<64>(p, n, seed));
    case X3_64: return pr(sec ? xxh::xxhash3<64>(p, n, secret, sec) : xxh::xxhash3<64>(p, n, seed));
    default: return pr(sec ? xxh::xxhash3<128>(p, n, secret, sec) : xxh::xxhash3<128>(p, n, seed));
    }
}
struct Stream
{
    int alg;
    size_t sec;
    uint64_t seed;
    size_t n = 0;
    xxh::hash_state_t<32> a;
    xxh::hash_state_t<64> b;
    xxh::hash3_state_t<64> c;
    xxh::hash3_state_t<128> d;
    Stream(int al, uint64_t s, size_t se) : alg(al), sec(se), seed(s), a((uint32_t)s), b(s), c(s), d(s)
    {
        if (se)
        {
            c.reset(secret, sec);
            d.reset(secret, sec);
        }
    }
    void reset()
    {
        n = 0;
        if (alg == X32) a.reset((uint32_t)seed);
        if (alg == X64) b.reset(seed);
        if (alg == X3_64) sec ? c.reset(secret, sec) : c.reset(seed);
        if (alg == X3_128) sec ? d.reset(secret, sec) : d.reset(seed);
    }
    void add(const uint8_t *p, size_t len)
    {
        n += len;
        if (alg == X32) a.update(p, len);
        if (alg == X64) b.update(p, len);
        if (alg == X3_64) c.update(p, len);
        if (alg == X3_128) d.update(p, len);
    }
    H2 digest()
    {
        if (alg == X32) return pr(a.digest());
        if (alg == X64) return pr(b.digest());
        if (alg == X3_64) return pr(c.digest());
        return pr(d.digest());
    }
};
static Stream *st;

struct XHarness : Harness
{
    void start(const Scenario &s) override
    {
        avx2 = s.param("avx2");
        for (size_t i = 0; i < sizeof text[0]; ++i)
        {
            text[0][i] = (uint8_t)((i * 2654435761u >> 11) ^ i);
            text[1][i] = (uint8_t)(i % 7 ? 0xff : 0x80);
        }
        for (size_t i = 0; i < sizeof secret; ++i) secret[i] = (uint8_t)(i * 167 + (i >> 3) * 59 + 13);
        if (s.seq_depth) st = new Stream(s.param("alg"), seeds[s.param("seed")], s.param("secret"));
    }
    void reopen(const Scenario &s) override { start(s); }
    void check()
    {
        H2 d = st->digest();
        H2 e = oneshot(st->alg, text[0], st->n, st->seed, st->sec);
        mc_assert(d == e, "the streamed hash differs from the one-shot hash of the same bytes");
        mc_assert(st->digest() == d, "a digest changes the state");
    }
    uint64_t exec(const Op &o) override
    {
        // a: first length, b: last length, c: content
        const uint8_t *t = text[o.c & 1];
        switch (o.code)
        {
        case ONE64:
            for (size_t n = o.a; n <= o.b; ++n)
                for (size_t al = 0; al < (n < 100 ? 8 : 2); ++al)
                {
                    Exact x(t, n, al);
                    for (uint64_t s : seeds) mc_assert(xxh::xxhash<64>(x.get(), n, s) == ref64(t, n, s), "xxhash<64> is not XXH64");
                }
            break;
        case ONE32:
            for (size_t n = o.a; n <= o.b; ++n)
                for (size_t al = 0; al < (n < 100 ? 8 : 2); ++al)
                {
                    Exact x(t, n, al);
                    for (uint64_t s : seeds) mc_assert(xxh::xxhash<32>(x.get(), n, (uint32_t)s) == ref32(t, n, (uint32_t)s), "xxhash<32> is not XXH32");
                }
            break;
        case ONE3:
            for (size_t n = o.a; n <= o.b; ++n)
            {
                Exact x(t, n, 0), y(t, n, 1 + n % 7);
                for (int k = 0; k < 6; ++k)
                {
                    const size_t ss = k == 4 ? 192 : 136;
#define BOTH(NS, P) std::make_pair(k >= 4 ? pr(NS::xxhash3<64>(P, n, secret, ss)) : pr(NS::xxhash3<64>(P, n, seeds[k])), \
                                   k >= 4 ? pr(NS::xxhash3<128>(P, n, secret, ss)) : pr(NS::xxhash3<128>(P, n, seeds[k])))
                    auto v = BOTH(xxh, x.get());
                    mc_assert(v == BOTH(xxh, y.get()), "an xxhash3 value depends on the alignment of its input");
                    mc_assert(v == BOTH(xxh_scalar, x.get()), "an xxhash3 value differs between instruction sets (scalar)");
                    mc_assert(v == BOTH(xxh_sse2, x.get()), "an xxhash3 value differs between instruction sets (SSE2)");
                    if (avx2) mc_assert(v == BOTH(xxh_avx2, x.get()), "an xxhash3 value differs between instruction sets (AVX2)");
                }
            }
            break;
        case GOLDEN:
        {
            // b: which of five keyings; the values recorded in xxh_golden.inc
            size_t n = 0, k = o.b;
            for (size_t r = 0; r < sizeof ends / sizeof *ends; ++r)
            {
                uint64_t h = 0;
                for (; n < ends[r]; ++n)
                    for (int alg = X3_64; alg <= X3_128; ++alg)
                    {
                        H2 v = oneshot(alg, t, n, k == 4 ? 0 : seeds[k], k == 4 ? 192 : 0);
                        h = hcomb(hcomb(h, v.first), v.second);
                    }
                size_t i = r + k * 7 + (o.c & 1) * 35;
                if (getenv("XXH_RECORD")) fprintf(stderr, "GOLD %zu 0x%lxu,\n", i, h);
                else mc_assert(h == golden[i], "xxhash3 values differ from the recorded ones: data hashed earlier is no longer found");
            }
            break;
        }
        case MAPHASH:
            // the functor used by the map
            for (int i = 0; i < 64; ++i)
                for (int j = 0; j <= i; ++j)
                {
                    size_t k = 1ull << i | 1ull << j, k2 = ~k;
                    for (size_t x : {k, k2})
                    {
                        mc_assert(::xxhash<size_t>{}(x) == ref64((uint8_t *)&x, 8, 0), "the hash of a key is not its XXH64");
                        mc_assert(NaiveHash<size_t>{}(x) == x, "NaiveHash is not the key");
                        uint32_t y = (uint32_t)x;
                        mc_assert(::xxhash<uint32_t>{}(y) == ref64((uint8_t *)&y, 4, 0), "the hash of a 32-bit key is not its XXH64");
                    }
                }
            break;
        case FORMS:
            // all ways to hand over the same bytes
            for (size_t n = 0; n <= 40; ++n)
            {
                std::string s((const char *)t, n);
                std::vector<uint8_t> v(t, t + n);
                uint64_t e = ref64(t, n, 5);
                mc_assert(xxh::xxhash<64>(s, 5) == e && xxh::xxhash<64>(v, 5) == e, "xxhash<64> of a string or vector");
                if (n) mc_assert(xxh::xxhash<64>(v.begin(), v.end(), 5) == e, "xxhash<64> of a range");
                mc_assert(xxh::xxhash<32>(s, 5) == ref32(t, n, 5) && xxh::xxhash<32>(v, 5) == ref32(t, n, 5), "xxhash<32> of a string or vector");
                H2 f = oneshot(X3_64, t, n, 5, false), g = oneshot(X3_128, t, n, 5, false), fs = oneshot(X3_64, t, n, 0, 192), gs = oneshot(X3_128, t, n, 0, 192);
                mc_assert(pr(xxh::xxhash3<64>(s, 5)) == f && pr(xxh::xxhash3<64>(v, 5)) == f && pr(xxh::xxhash3<128>(s, 5)) == g && pr(xxh::xxhash3<128>(v, 5)) == g, "xxhash3 of a string or vector");
                mc_assert(pr(xxh::xxhash3<64>(s, secret, 192)) == fs && pr(xxh::xxhash3<128>(v, secret, 192)) == gs, "xxhash3 of a string or vector with a secret");
                std::vector<uint32_t> w((n + 3) / 4);
                memcpy(w.data(), t, w.size() * 4);
                mc_assert(xxh::xxhash<64>(w, 7) == ref64(t, w.size() * 4, 7), "xxhash<64> of a vector of words");
                if (!w.empty()) mc_assert(xxh::xxhash<64>(w.begin(), w.end(), 7) == ref64(t, w.size() * 4, 7), "xxhash<64> of a range of words");
            }
            {
                std::array<uint64_t, 5> a;
                memcpy(a.data(), t, 40);
                mc_assert(xxh::xxhash<64>(a, 3) == ref64(t, 40, 3) && xxh::xxhash<32>(a, 3) == ref32(t, 40, 3), "xxhash of an array");
                mc_assert(pr(xxh::xxhash3<64>(a, 3)) == oneshot(X3_64, t, 40, 3, false), "xxhash3 of an array");
            }
            break;
        case CANON:
            for (int i = 0; i < 64; ++i)
                for (uint64_t x : {1ull << i, ~(1ull << i), 0x0123456789abcdefull >> i})
                {
                    xxh::canonical_t<64> c(x);
                    xxh::canonical_t<32> d((uint32_t)x);
                    mc_assert(c.get_hash() == x && d.get_hash() == (uint32_t)x, "a canonical hash does not convert back");
                    for (int b = 0; b < 8; ++b) mc_assert(c.digest[b] == (uint8_t)(x >> (56 - 8 * b)), "the canonical form is not big endian");
                    for (int b = 0; b < 4; ++b) mc_assert(d.digest[b] == (uint8_t)((uint32_t)x >> (24 - 8 * b)), "the canonical form is not big endian");
                    xxh::hash_t<128> q{x, ~x * 3};
                    xxh::canonical_t<128> e(q);
                    mc_assert(pr(e.get_hash()) == pr(q), "a canonical 128-bit hash does not convert back");
                    for (int b = 0; b < 8; ++b)
                        mc_assert(e.digest[b] == (uint8_t)(q.high64 >> (56 - 8 * b)) && e.digest[8 + b] == (uint8_t)(q.low64 >> (56 - 8 * b)), "the canonical form is not big endian");
                }
            break;
        case ADD:
        {
            if (st->n + o.a > MAXLEN) return ANYRES;
            Exact x(text[0] + st->n, o.a, o.b);
            st->add(x.get(), o.a);
            check();
            break;
        }
        case RESET: st->reset(); check(); break;
        case COPY:
        {
            // a copy goes on independently of the original
            Stream *old = st;
            st = new Stream(*st);
            if (old->n < MAXLEN) old->add(text[1], 1);
            else old->reset();
            delete old;
            check();
            break;
        }
        case ASSIGN:
        {
            // assignment onto a state that was used for something else
            Stream *n = new Stream(st->alg, 77, false);
            n->add(text[1], 300);
            n->sec = st->sec;
            n->seed = st->seed;
            n->n = st->n;
            if (st->alg == X32) n->a = st->a;
            if (st->alg == X64) n->b = st->b;
            if (st->alg == X3_64) n->c = st->c;
            if (st->alg == X3_128) n->d = st->d;
            delete st;
            st = n;
            check();
            break;
        }
        }
        return ANYRES;
    }
    std::string show(const Op &o) override
    {
        const char *n[] = {"XXH64 of lengths ", "XXH32 of lengths ", "XXH3 of lengths ", "recorded XXH3 values, keying ", "the map's hash", "canonical form", "update ", "copy the state", "assign the state", "reset", "all argument forms"};
        std::string s = n[o.code - 200];
        if (o.code <= ONE3) s += num(o.a) + ".." + num(o.b) + ", content " + num(o.c);
        if (o.code == GOLDEN) s += num(o.b) + ", content " + num(o.c);
        if (o.code == ADD) s += num(o.a) + " bytes";
        return s;
    }
};
extern "C" Harness *mc_harness() { return new XHarness; }

extern "C" void mc_scenarios(const char *, int thorough, std::vector<Scenario> *out)
{
    XHarness h;
    Out o{out, [&](const Op &x) { return h.show(x); }, {{"avx2", __builtin_cpu_supports("avx2")}}};
    auto one = [&](Op op)
    {
        auto &s = o.add("one", {}, {{op}}, {}, 0);
        s.spec = "none";
        s.spin = s.horizon = 2000000000;
    };
    uint64_t N = thorough ? 2500 : 1300;
    for (uint64_t c = 0; c < 2; ++c)
    {
        for (uint64_t l = 0; l < N; l += 100)
        {
            one({ONE64, l, l + 99, c});
            one({ONE32, l, l + 99, c});
            one({ONE3, l, l + 99, c});
        }
        one({ONE3, 1010, 1050, c}); // around the length of a block
        for (uint64_t k = 0; k < 5; ++k) one({GOLDEN, 0, k, c});
        one({FORMS, 0, 0, c});
    }
    one({MAPHASH});
    one({CANON});
    for (int alg = 0; alg < NALG; ++alg)
        for (int key = 0; key < (alg >= X3_64 ? 4 : 2); ++key)
        {
            std::vector<Op> al;
            std::vector<int> small = {0, 1, 3, 4, 7, 8, 12, 15, 16, 17, 31, 32, 33, 48}, big = {0, 1, 16, 63, 64, 65, 128, 191, 192, 240, 255, 256, 257, 320, 512, 1024};
            for (int n : alg >= X3_64 ? big : small) al.push_back({ADD, (uint64_t)n, (uint64_t)(n % 5)});
            al.push_back({RESET});
            al.push_back({COPY});
            al.push_back({ASSIGN});
            auto &s = o.seq(std::string("stream-") + (alg == X32 ? "XXH32" : alg == X64 ? "XXH64" : alg == X3_64 ? "XXH3-64" : "XXH3-128") + (key >= 2 ? key == 2 ? "-secret192" : "-secret136" : key ? "-seed" : ""), {}, al, thorough ? 5 : 4, {});
            s.spec = "none";
            s.spin = s.horizon = 2000000000;
            s.p["alg"] = alg;
            s.p["seed"] = key >= 2 ? 0 : key;
            s.p["secret"] = key == 2 ? 192 : key == 3 ? 136 : 0;
        }
}

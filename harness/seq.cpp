// The sequence containers of libpmemobj++ (vector, basic_string, segment_vector, array).
// param kind: which container; fixed: array; str: a string.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include <libpmemobj++/container/array.hpp>
#include <libpmemobj++/container/segment_vector.hpp>
#include <libpmemobj++/container/string.hpp>
#include <libpmemobj++/container/vector.hpp>
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/transaction.hpp>
using namespace mc;
using namespace pmem::obj;
typedef SeqSpec::L L;
struct UserError {};
struct Abort {};
// Knows its address, so that moving it without its constructors shows; copying the value VR_THROW fails.
struct E
{
    p<uint64_t> v;
    uint64_t self;
    uint64_t here() const { return pmemobj_oid(this).off; }
    static uint64_t ok(uint64_t x)
    {
        if (x == VR_THROW) throw UserError();
        return x;
    }
    static long live; // elements in persistent memory
    void born() { live += here() != 0; }
    E() : v(0), self(here()) { born(); }
    E(uint64_t x) : v(ok(x)), self(here()) { born(); }
    E(const E &o) : v(ok(o.get())), self(here()) { born(); }
    E(E &&o) : v(o.get()), self(here()) { o.v = 0, born(); }
    ~E() { live -= here() != 0; }
    E &operator=(const E &o) { v = ok(o.get()); return *this; }
    E &operator=(E &&o) { if (&o != this) v = o.get(), o.v = 0; return *this; }
    E &operator=(uint64_t x) { v = ok(x); return *this; }
    uint64_t get() const
    {
        mc_assert(self == here(), "an element was moved without its constructor");
        return v.get_ro();
    }
    operator uint64_t() const { return get(); }
};
long E::live;
template <class X> uint64_t val(const X &x) { return (uint64_t)x; }
template <class X> uint64_t val(const p<X> &x) { return (uint64_t)x.get_ro(); }
template <> uint64_t val(const char &x) { return (unsigned char)x; }

struct Iface
{
    virtual void open(bool create) = 0;
    virtual uint64_t exec(const Op &) = 0;
};
template <class T, int STR = 0, int FIXED = 0> struct Impl : Iface
{
    struct Root { persistent_ptr<T> a, b; alignas(64) char raw[sizeof(T)]; };
    typedef typename T::value_type X;
    pool<Root> pop;
    T &A() { return *pop.root()->a; }
    T &B() { return *pop.root()->b; }
    template <class F> void tx(F f) { transaction::run(pop, f); }
    void open(bool create) override
    {
        if (!create) { pop = pool<Root>::open("/mnt/pmem/pm1/t", "seq"); return; }
        mc_mkdirs("/mnt/pmem/pm1/");
        pop = pool<Root>::create("/mnt/pmem/pm1/t", "seq", PMEMOBJ_MIN_POOL);
        tx([&] {
            auto r = pop.root();
            r->a = make_persistent<T>();
            r->b = make_persistent<T>();
            if constexpr (FIXED)
                for (int i = 0; i < 6; ++i) A()[i] = X(1 + i), B()[i] = X(11 + i);
        });
    }
    // The contents by every way to read them.
    L read(const T &v)
    {
        L l;
        for (auto it = v.cbegin(); it != v.cend(); ++it) l.push_back(val(*it));
        size_t n = v.size(), i = 0;
        mc_assert(n == l.size() && v.empty() == (n == 0), "size, emptiness and iterators disagree");
        mc_assert(n <= v.max_size(), "the size exceeds max_size");
        if constexpr (!FIXED) mc_assert(v.capacity() >= n, "the capacity is smaller than the size");
        for (i = 0; i < n; ++i)
        {
            mc_assert(val(v[i]) == l[i] && val(v.at(i)) == l[i] && val(v.const_at(i)) == l[i], "an access by index disagrees with the iterators");
            if constexpr (requires { v.cdata(); }) mc_assert(val(v.cdata()[i]) == l[i] && val(v.data()[i]) == l[i], "data() disagrees with the iterators");
            mc_assert(val(*(v.begin() + i)) == l[i] && val(*(v.end() - (n - i))) == l[i], "iterator arithmetic disagrees");
        }
        i = n;
        for (auto it = v.crbegin(); it != v.crend(); ++it) mc_assert(i && val(*it) == l[--i], "reverse iterators disagree");
        mc_assert(!i, "reverse iterators disagree");
        if (n) mc_assert(val(v.front()) == l[0] && val(v.cfront()) == l[0] && val(v.back()) == l[n - 1] && val(v.cback()) == l[n - 1], "front or back disagrees");
        try { v.at(n); mc_fail("at(size) does not throw"); } catch (std::out_of_range &) {}
        try { v.const_at(n); mc_fail("const_at(size) does not throw"); } catch (std::out_of_range &) {}
        if constexpr (requires { v.c_str(); })
        {
            mc_assert(v.c_str()[n] == 0 && v.length() == n, "the string is not terminated");
        }
        if constexpr (requires { v.crange(0, 0); })
            for (size_t s = 0; s <= n; s += 3)
            {
                size_t k = s;
                for (auto &x : v.crange(s, n - s)) mc_assert(val(x) == l[k++], "a constant range disagrees");
                mc_assert(k == n, "a constant range has the wrong size");
                try { v.crange(s, n - s + 1); mc_fail("a range beyond the end does not throw"); } catch (std::out_of_range &) {}
            }
        return l;
    }
    uint64_t digest() { return SeqSpec::digest(read(A()), read(B())); }
    static std::vector<X> range(uint64_t n)
    {
        std::vector<X> r;
        for (auto x : SeqSpec::range(n)) r.push_back(X(x));
        return r;
    }
    uint64_t run(const Op &o)
    {
        T &a = A(), &b = B();
        auto r = pop.root();
        uint64_t n = a.size(), p = std::min<uint64_t>(o.a, n);
        auto at = [&](uint64_t i) { return a.cbegin() + i; };
        auto idx = [&](auto it) { return (uint64_t)(it - a.begin()); };
        X xa = X(0), xb = X(0), xc = X(0);
        bool bad = o.b == VR_THROW || o.b / 100 == VR_THROW || o.a == VR_THROW;
        (void)bad;
        auto mk = [](uint64_t x) { X e = X(0); if constexpr (std::is_same_v<X, E>) { e.v.get_rw() = x; } else e = X(x); return e; };
        (void)xa, (void)xb, (void)xc;
        if constexpr (FIXED)
        {
            switch (o.code)
            {
            case V_DUMP: return 0;
            case V_COPY: a = b; return 0;
            case V_SWAP: a.swap(b); return 0;
            case V_FILL: a.fill(X(o.a)); return 0;
            }
        }
        else
            switch (o.code)
            {
            case V_DUMP: return 0;
            case V_PUSH: { Holder h(mk, o.a); a.push_back(h.x()); return 0; }
            case V_POP: if (n) a.pop_back(); return 0;
            case V_INS: if constexpr (STR) return idx(a.insert(at(p), (char)o.b)); else { Holder h(mk, o.b); return idx(a.insert(at(p), (const X &)h.x())); }
            case V_INSN: if constexpr (STR) { a.insert((size_t)p, o.b % 100, (char)(o.b / 100)); return p; } else { Holder h(mk, o.b / 100); return idx(a.insert(at(p), o.b % 100, h.x())); }
            case V_INSR: { auto s = range(o.b); return idx(a.insert(at(p), s.begin(), s.end())); }
            case V_INSIL: return idx(a.insert(at(p), {X(31), X(32), X(33)}));
            case V_ERASE: if (o.a < n) return idx(a.erase(at(o.a))); return 0;
            case V_ERASER: return idx(a.erase(at(p), at(std::min<uint64_t>(n, o.a + o.b))));
            case V_RESIZE: a.resize(o.a); return 0;
            case V_RESIZEV: { Holder h(mk, o.b); a.resize(o.a, h.x()); return 0; }
            case V_RESERVE:
            {
                a.reserve(o.a);
                mc_assert(a.capacity() >= o.a, "reserve did not provide the capacity");
                return 0;
            }
            case V_SHRINK:
            {
                size_t c = a.capacity();
                a.shrink_to_fit();
                mc_assert(a.capacity() <= c, "shrink_to_fit increased the capacity");
                return 0;
            }
            case V_CLEAR: a.clear(); return 0;
            case V_FREE: if constexpr (requires { a.free_data(); }) { a.free_data(); mc_assert(a.capacity() == 0, "free_data left a capacity"); } return 0;
            case V_ASSIGNN: { Holder h(mk, o.b); a.assign(o.a, h.x()); return 0; }
            case V_ASSIGNR: { auto s = range(o.a); a.assign(s.begin(), s.end()); return 0; }
            case V_ASSIGNIL: a.assign({X(41), X(42), X(43)}); return 0;
            case V_ASSIGNB: a.assign(b); return 0;
            case V_ASSIGNMV: tx([&] { a.assign(std::move(b)); b.clear(); }); return 0;
            case V_COPY: a = b; return 0;
            case V_MOVE: tx([&] { a = std::move(b); b.clear(); }); return 0;
            case V_SELF: { auto &s = a; if (o.a) a.assign(s); else a = s; return 0; }
            case V_SWAP: if constexpr (STR) tx([&] { r->a.swap(r->b); }); else a.swap(b); return 0;
            case V_CMP:
            {
                int c = a < b ? 2 : a > b ? 1 : 0, d = b < a ? 2 : b > a ? 1 : 0;
                mc_assert((a == b) == (c == 0) && (a != b) == (c != 0) && (a <= b) == (c != 1) && (a >= b) == (c != 2), "the comparison operators disagree");
                auto like = [&](const auto &w) {
                    if constexpr (requires { a < w; w < a; })
                        mc_assert((a == w) == (c == 0) && (w == a) == (c == 0) && (a != w) == (c != 0) && (w != a) == (c != 0) && (a < w) == (c == 2) && (w > a) == (c == 2) && (a > w) == (c == 1) && (w < a) == (c == 1)
                            && (a <= w) == (c != 1) && (w >= a) == (c != 1) && (a >= w) == (c != 2) && (w <= a) == (c != 2), "comparison with a standard container disagrees");
                };
                if constexpr (STR) { std::string s(b.cbegin(), b.cend()); like(s); const char *z = s.c_str(); if (s.find('\0') == s.npos) like(z); }
                else { std::vector<X> s; for (auto i = b.cbegin(); i != b.cend(); ++i) s.push_back(*i); like(s); }
                // a container lives in persistent memory only and is made in transactions only
                auto no = [&](void *m, auto... x) {
                    try { new (m) T(x...); }
                    catch (pmem::pool_error &) { return m != r->raw; }
                    catch (pmem::transaction_scope_error &) { return m == r->raw; }
                    return false;
                };
                auto refused = [&](void *m) {
                    auto s = range(3);
                    mc_assert(no(m) && no(m, s.begin(), s.end()) && no(m, std::initializer_list<X>{X(51), X(52)}), "a container is made where it must not be");
                    if constexpr (STR) mc_assert(no(m, (size_t)3, 'x') && no(m, "abc") && no(m, "abc", (size_t)2) && no(m, std::string("abc")), "a container is made where it must not be");
                    else mc_assert(no(m, (size_t)3), "a container is made where it must not be");
                    bool c = false;
                    for (int mv = 0; mv < 2; ++mv)
                    {
                        c = false;
                        try { if (mv) new (m) T(std::move(b)); else new (m) T((const T &)b); }
                        catch (pmem::pool_error &) { c = m != r->raw; }
                        catch (pmem::transaction_scope_error &) { c = m == r->raw; }
                        mc_assert(c, "a container is made where it must not be");
                    }
                };
                alignas(T) char volat[sizeof(T)];
                refused(volat);
                if (pmemobj_tx_stage() == TX_STAGE_NONE) refused(r->raw);
                return c * 10 + d;
            }
            case V_PUSHSELF: if (n) a.push_back(((const T &)a)[0]); return 0;
            case V_INSSELF: if (n) { if constexpr (STR) a.insert(at(p), ((const T &)a)[n - 1]); else a.insert(at(p), ((const T &)a)[n - 1]); } return 0;
            case V_INSNSELF: if (n) { if constexpr (STR) a.insert((size_t)p, o.b % 100, ((const T &)a)[o.b / 100 % n]); else a.insert(at(p), o.b % 100, ((const T &)a)[o.b / 100 % n]); } return 0;
            case V_RESIZESELF: if (n) a.resize(o.a, ((const T &)a)[0]); return 0;
            case V_ASSIGNSTD:
            {
                auto s = range(o.a);
                if constexpr (STR) { std::string q(s.begin(), s.end()); if (o.b == 1) a = q; else if (o.b == 2) a = q.c_str(); else if (o.b == 3) a.assign(q.c_str(), q.size()); else if (o.b == 4) a.assign(q.c_str()); else a.assign(q); }
                else if constexpr (requires { a.assign(s); }) { if (o.b) a = s; else a.assign(s); }
                else a.assign(s.begin(), s.end());
                return 0;
            }
            case V_RECON:
                tx([&] {
                    persistent_ptr<T> q;
                    delete_persistent<T>(r->a);
                    switch (o.a)
                    {
                    case 0: q = make_persistent<T>(); break;
                    case 1: { Holder h(mk, o.b / 100); q = make_persistent<T>((size_t)(o.b % 100), (const X &)h.x()); break; }
                    case 2: if constexpr (!STR) q = make_persistent<T>((size_t)o.b); break;
                    case 3: { auto s = range(o.b); q = make_persistent<T>(s.begin(), s.end()); break; }
                    case 4: q = make_persistent<T>((const T &)b); break;
                    case 5: q = make_persistent<T>(std::move(b)); b.clear(); break;
                    case 6: q = make_persistent<T>(std::initializer_list<X>{X(51), X(52), X(53)}); break;
                    case 7: { auto s = range(o.b); if constexpr (STR) q = make_persistent<T>(std::string(s.begin(), s.end())); else if constexpr (std::is_constructible_v<T, std::vector<X> &>) q = make_persistent<T>(s); else q = make_persistent<T>(s.begin(), s.end()); break; }
                    case 8: if constexpr (STR) q = make_persistent<T>((const T &)b, (size_t)o.b, (size_t)3); break;
                    }
                    r->a = q;
                });
                return 0;
            }
        if constexpr (!FIXED && !STR)
            switch (o.code)
            {
            case V_INSMV: { Holder h(mk, o.b); return idx(a.insert(at(p), std::move(h.x()))); }
            case V_EMPL: return idx(a.emplace(at(p), o.b));
            case V_EMPLB: { auto &e = a.emplace_back(o.a); mc_assert(val(e) == o.a && &e == &((const T &)a)[n], "emplace_back returned a wrong reference"); return 0; }
            }
        if constexpr (STR)
        {
            auto s = range(std::max(o.a, o.b % 100));
            std::string q(s.begin(), s.end());
            auto w = [&](uint64_t k) { return q.substr(0, k); };
            size_t np = (size_t)-1;
            auto self = [&](T &x) { mc_assert(&x == &a, "the string does not return itself"); };
            switch (o.code)
            {
            case S_INSNIT: return idx(a.insert(at(p), (size_t)(o.b % 100), (char)(o.b / 100)));
            case S_APPN: self(a.append((size_t)o.a, (char)o.b)); return 0;
            case S_APPB: self(o.a ? a += b : a.append(b)); return 0;
            case S_APPSUB: self(a.append(b, (size_t)o.a, (size_t)o.b)); return 0;
            case S_APPSTR: if (o.b == 1) a += w(o.a).c_str(); else if (o.b == 2) a.append(w(o.a).c_str(), o.a); else self(a.append(w(o.a).c_str())); return 0;
            case S_APPRANGE: { std::string t = w(o.a); self(a.append(t.begin(), t.end())); return 0; }
            case S_APPSELF: self(a.append(a)); return 0;
            case S_REPN: if (o.a + o.b / 100 <= n && o.b % 2) self(a.replace(at(o.a), at(o.a + o.b / 100), (size_t)(o.b % 100), (char)99)); else self(a.replace((size_t)o.a, (size_t)(o.b / 100), (size_t)(o.b % 100), (char)99)); return 0;
            case S_REPB: if (o.a + o.b <= n && o.b % 2) self(a.replace(at(o.a), at(o.a + o.b), b)); else self(a.replace((size_t)o.a, (size_t)o.b, b)); return 0;
            case S_REPSELF: self(a.replace((size_t)o.a, (size_t)o.b, a)); return 0;
            case S_REPSTR: if (o.b % 2) self(a.replace((size_t)o.a, (size_t)(o.b / 100), w(o.b % 100).c_str(), (size_t)(o.b % 100))); else self(a.replace((size_t)o.a, (size_t)(o.b / 100), w(o.b % 100).c_str())); return 0;
            case S_REPSUB: self(a.replace((size_t)o.a, (size_t)o.b, b, (size_t)1, (size_t)4)); return 0;
            case S_REPIT: { std::string t = w(o.b % 100); self(a.replace(at(p), at(std::min<uint64_t>(n, p + o.b / 100)), t.begin(), t.end())); return 0; }
            case S_INSSTR: if (o.b % 2) self(a.insert((size_t)o.a, w(o.b).c_str(), (size_t)o.b)); else self(a.insert((size_t)o.a, w(o.b).c_str())); return 0;
            case S_INSB: self(a.insert((size_t)o.a, b)); return 0;
            case S_INSSELF: self(a.insert((size_t)o.a, a)); return 0;
            case S_INSSUB: self(a.insert((size_t)o.a, b, (size_t)o.b, (size_t)3)); return 0;
            case S_ERASE: self(a.erase((size_t)o.a, (size_t)o.b)); return 0;
            case S_EQCH: a = (char)o.a; return 0;
            case S_ASSIGNSUB: self(a.assign(b, (size_t)o.a, (size_t)o.b)); return 0;
            case S_FIND:
            {
                const T &x = a, &y = b;
                size_t f = o.b ? o.b - 1 : 0, z = 0;
                switch (o.a)
                {
                case 0: z = x.find(y, f); mc_assert(z == x.find(y.c_str(), f), "find of a C string disagrees"); break;
                case 1: z = x.rfind(y, f); mc_assert(z == x.rfind(y.c_str(), f), "rfind of a C string disagrees"); break;
                case 2: z = x.find_first_of(y, f); mc_assert(z == x.find_first_of(y.c_str(), f), "find_first_of of a C string disagrees"); break;
                case 3: z = x.find_first_not_of(y, f); mc_assert(z == x.find_first_not_of(y.c_str(), f), "find_first_not_of of a C string disagrees"); break;
                case 4: z = x.find_last_of(y, f); mc_assert(z == x.find_last_of(y.c_str(), f), "find_last_of of a C string disagrees"); break;
                case 5: z = x.find_last_not_of(y, f); mc_assert(z == x.find_last_not_of(y.c_str(), f), "find_last_not_of of a C string disagrees"); break;
                }
                if (y.size() == 1)
                {
                    char c = y[0];
                    size_t v = o.a == 0 ? x.find(c, f) : o.a == 1 ? x.rfind(c, f) : o.a == 2 ? x.find_first_of(c, f) : o.a == 3 ? x.find_first_not_of(c, f) : o.a == 4 ? x.find_last_of(c, f) : x.find_last_not_of(c, f);
                    mc_assert(v == z, "the search for a character disagrees");
                }
                return z == np ? 999 : z;
            }
            case S_CMPSUB:
            {
                const T &x = a, &y = b;
                int c = SeqSpec::sign(x.compare((size_t)o.a, (size_t)o.b, y));
                mc_assert(c == SeqSpec::sign(x.compare((size_t)o.a, (size_t)o.b, y.c_str())), "compare with a C string disagrees");
                return c;
            }
            case S_COPYOUT:
            {
                char buf[80];
                size_t k = a.copy(buf, (size_t)o.b, (size_t)o.a);
                uint64_t h = 0;
                for (size_t i = 0; i < k; ++i) h = hcomb(h, (unsigned char)buf[i]);
                return h;
            }
            }
        }
        switch (o.code)
        {
        case V_AT:
        {
            uint64_t x = val(((const T &)a).at(o.a));
            mc_assert(x == val(a.const_at(o.a)), "const_at disagrees");
            return x;
        }
        case V_SET:
            if (o.a < n) tx([&] {
                X x = mk(o.b / 100);
                switch (o.b % 100)
                {
                case 0: a[o.a] = x; break;
                case 1: a.at(o.a) = x; break;
                case 2: if (o.a == 0) a.front() = x; else a[o.a] = x; break;
                case 3: if (o.a == n - 1) a.back() = x; else a[o.a] = x; break;
                case 4: if constexpr (requires { a.data(); }) a.data()[o.a] = x; else a[o.a] = x; break;
                case 5: *(a.begin() + o.a) = x; break;
                case 6: *(a.rbegin() + (n - 1 - o.a)) = x; break;
                case 7: { auto it = a.end(); for (uint64_t i = n; i > o.a; --i) --it; *it = x; break; }
                case 8: if constexpr (requires { a.begin()[0]; }) a.begin()[o.a] = x; else *(a.end() - (n - o.a)) = x; break;
                case 9: { auto it = a.begin(); for (uint64_t i = 0; i < o.a; ++i) it++; *it = x; break; }
                }
            });
            return 0;
        case V_WRITE2:
            tx([&] {
                uint64_t k = o.b % 100, i = 0;
                if (o.a + k > n) throw std::out_of_range("");
                if constexpr (STR) { for (auto it = a.begin() + o.a; i < k; ++it) *it = (X)(80 + i++); }
                else
                {
                    auto put = [&](auto s) { for (auto it = s.begin(); it != s.end(); ++it) *it = X(80 + i++); };
                    if (o.b / 100 == 0) put(a.range(o.a, k));
                    else if constexpr (requires { a.range(0, 0, 2); }) { if (o.b / 100 == 3) { auto s = a.range(o.a, k, 2); for (i = k; i-- > 0;) s.begin()[i] = X(80 + i); i = k; } else if (o.b / 100 == 1) put(a.range(o.a, k, 2)); else { for (uint64_t j = 0; j < k; ++j) (void)a[o.a + j]; put(a.range(o.a, k, 0)); /* does not snapshot */ } }
                    else put(a.range(o.a, k));
                    mc_assert(i == k, "a range has the wrong size");
                }
            });
            return 0;
        case V_FILL: tx([&] { for (auto it = a.begin(); it != a.end(); ++it) *it = X(o.a); }); return 0;
        case V_LEAK:
        {
            tx([&] { delete_persistent<T>(r->a); delete_persistent<T>(r->b); r->a = nullptr; r->b = nullptr; });
            uint64_t left = mc_pool_blocks() - 1;
            tx([&] { r->a = make_persistent<T>(); r->b = make_persistent<T>(); });
            return left;
        }
        }
        mc_fail("operation not supported by this container");
        return 0;
    }
    // A value to be passed by reference; an E with the value VR_THROW cannot be copied.
    struct Holder
    {
        alignas(X) char m[sizeof(X)];
        template <class F> Holder(F, uint64_t x)
        {
            if constexpr (std::is_same_v<X, E>) { new (m) E(); ((E *)m)->v.get_rw() = x; }
            else new (m) X(x);
        }
        X &x() { return *(X *)m; }
    };
    uint64_t exec(const Op &o) override
    {
        uint64_t r = 0;
        if (o.code != V_LEAK) E::live = A().size() + B().size();
        try
        {
            if (o.c)
                tx([&] {
                    r = run(o);
                    if (SeqSpec::second(o).code) r = hcomb(r, run(SeqSpec::second(o)));
                    if (o.c & VF_ABORT) throw Abort();
                });
            else r = run(o);
            if constexpr (std::is_same_v<X, E>) mc_assert(o.code == V_LEAK || E::live == (long)(A().size() + B().size()), "an element was constructed or destroyed once too often");
        }
        catch (Abort &) {}
        catch (UserError &) { r = VR_USER; }
        catch (std::out_of_range &) { r = VR_RANGE; }
        catch (pmem::transaction_out_of_memory &) { r = VR_OOM; }
        catch (std::bad_alloc &) { r = VR_OOM; }
        mc_assert(pmemobj_tx_stage() == TX_STAGE_NONE, "a transaction is still open");
        mc_assert(mc_pool_reserved() == 0, "an aborted operation keeps allocated memory");
        if (o.code == V_LEAK) { digest(); return r; }
        if (getenv("SEQ_DEBUG")) { fprintf(stderr, "r %lu a:", r); for (auto x : read(A())) fprintf(stderr, " %lu", x); fprintf(stderr, " b:"); for (auto x : read(B())) fprintf(stderr, " %lu", x); fprintf(stderr, "\n"); }
        return hcomb(r, digest());
    }
};
static Iface *impl;
enum { VEC_E, VEC_P, STRING, SEG_EXP, SEG_FIX, SEG_ARR, ARRAY, KINDS };
static const char *KN[] = {"vector", "vector-raw", "string", "segment", "segment-fixed", "segment-array", "array"};
struct SeqHarness : Harness
{
    void make(const Scenario &s)
    {
        switch (s.param("kind"))
        {
        case VEC_E: impl = new Impl<vector<E>>; break;
        case VEC_P: impl = new Impl<vector<uint64_t>>; break;
        case STRING: impl = new Impl<string, 1>; break;
        case SEG_EXP: impl = new Impl<segment_vector<uint64_t, exponential_size_vector_policy<>>>; break;
        case SEG_FIX: impl = new Impl<segment_vector<uint64_t, fixed_size_vector_policy<4>>>; break;
        case SEG_ARR: impl = new Impl<segment_vector<E, exponential_size_array_policy<>>>; break;
        case ARRAY: impl = new Impl<array<uint64_t, 6>, 0, 1>; break;
        }
    }
    void start(const Scenario &s) override { make(s), impl->open(true); }
    void reopen(const Scenario &s) override { make(s), impl->open(false); }
    uint64_t exec(const Op &o) override { return impl->exec(o); }
    std::string show(const Op &o) override
    {
        static const std::map<int, const char *> N = {
            {V_PUSH, "push_back"}, {V_POP, "pop_back"}, {V_INS, "insert"}, {V_INSMV, "insert-move"}, {V_INSN, "insert-n"}, {V_INSR, "insert-range"}, {V_INSIL, "insert-list"}, {V_EMPL, "emplace"}, {V_EMPLB, "emplace_back"}, {V_ERASE, "erase"}, {V_ERASER, "erase-range"}, {V_RESIZE, "resize"}, {V_RESIZEV, "resize-value"}, {V_RESERVE, "reserve"}, {V_SHRINK, "shrink"}, {V_CLEAR, "clear"}, {V_FREE, "free_data"}, {V_ASSIGNN, "assign-n"}, {V_ASSIGNR, "assign-range"}, {V_ASSIGNIL, "assign-list"}, {V_ASSIGNSTD, "assign-std"}, {V_ASSIGNB, "assign"}, {V_ASSIGNMV, "assign-move"}, {V_COPY, "copy"}, {V_MOVE, "move"}, {V_SELF, "self-assign"}, {V_SWAP, "swap"}, {V_RECON, "construct"}, {V_AT, "at"}, {V_SET, "set"}, {V_PUSHSELF, "push-own"}, {V_INSSELF, "insert-own"}, {V_INSNSELF, "insert-n-own"}, {V_RESIZESELF, "resize-own"}, {V_DUMP, "contents"}, {V_LEAK, "leak"}, {V_CMP, "compare"}, {V_FILL, "fill"}, {V_WRITE2, "write-range"}, {S_APPN, "append-n"}, {S_APPB, "append"}, {S_APPSUB, "append-sub"}, {S_APPSTR, "append-cstr"}, {S_APPSELF, "append-own"}, {S_REPN, "replace-n"}, {S_REPB, "replace"}, {S_REPSTR, "replace-cstr"}, {S_REPSUB, "replace-sub"}, {S_INSSTR, "insert-cstr"}, {S_INSB, "insert-string"}, {S_INSSUB, "insert-sub"}, {S_ERASE, "erase-index"}, {S_EQCH, "assign-char"}, {S_FIND, "find"}, {S_CMPSUB, "compare-sub"}, {S_APPRANGE, "append-range"}, {S_REPIT, "replace-it"}, {S_INSNIT, "insert-n-it"}, {S_ASSIGNSUB, "assign-sub"}, {S_COPYOUT, "copy-out"}, {S_REPSELF, "replace-own"}, {S_INSSELF, "insert-own-string"}, {REOPEN, "clean restart"}};
        auto it = N.find(o.code);
        std::string s = it == N.end() ? "?" : it->second;
        if (o.code != REOPEN) s += "(" + num(o.a) + "," + num(o.b) + ")";
        if (SeqSpec::second(o).code) s += "+" + show(SeqSpec::second(o));
        if (o.c & VF_ABORT) s += "+abort";
        return s;
    }
};
extern "C" Harness *mc_harness() { return new SeqHarness; }
extern "C" void mc_scenarios(const char *, int thorough, std::vector<Scenario> *out)
{
    SeqHarness h;
    for (int k = 0; k < KINDS; ++k)
    {
        bool str = k == STRING, fixed = k == ARRAY;
        Out o{out, [&](const Op &x) { return h.show(x); }, {{"pool", 64 << 10}, {"kind", k}, {"str", str}, {"fixed", fixed}}};
        std::string n = std::string(KN[k]) + "-";
        std::vector<Op> ops;
        auto add = [&](std::initializer_list<Op> l) { ops.insert(ops.end(), l); };
        bool thr = k == VEC_E || k == SEG_ARR;
        if (fixed)
        {
            add({{V_COPY}, {V_SWAP}, {V_FILL, 9}, {V_AT, 0}, {V_AT, 5}, {V_AT, 6}});
            for (uint64_t i : {0, 2, 5})
                for (uint64_t j = 0; j < 10; ++j) add({{V_SET, i, 5000 + j}});
            for (uint64_t j : {0, 100, 200, 300}) add({{V_WRITE2, 0, j + 6}, {V_WRITE2, 1, j + 4}, {V_WRITE2, 4, j + 2}, {V_WRITE2, 4, j + 3}, {V_WRITE2, 2, j + 0}});
        }
        else
        {
            add({{V_PUSH, 60}, {V_POP}, {V_CLEAR}, {V_SHRINK}, {V_RESERVE, 0}, {V_RESERVE, 9}, {V_RESERVE, 40}, {V_COPY}, {V_MOVE}, {V_SELF}, {V_SELF, 1}, {V_SWAP}, {V_ASSIGNB}, {V_ASSIGNMV}, {V_ASSIGNIL}, {V_CMP}, {V_PUSHSELF}, {V_AT, 0}, {V_AT, 4}, {V_AT, 40}, {V_FILL, 70}});
            if (!str) add({{V_FREE}, {V_EMPLB, 61}});
            for (uint64_t i : {0, 2, 3, 99})
            {
                add({{V_INS, i, 62}, {V_INSN, i, 6300}, {V_INSN, i, 6301}, {V_INSN, i, 6405}, {V_INSN, i, 6423}, {V_INSR, i, 0}, {V_INSR, i, 2}, {V_INSR, i, 20}, {V_INSIL, i}, {V_ERASE, i}, {V_ERASER, i, 0}, {V_ERASER, i, 1}, {V_ERASER, i, 2}, {V_ERASER, i, 50}});
                if (!str) add({{V_INSMV, i, 65}, {V_EMPL, i, 66}});
                if (thr) add({{V_INS, i, VR_THROW}, {V_EMPL, i, VR_THROW}, {V_INSN, i, VR_THROW * 100 + 3}});
                add({{V_INSSELF, i}, {V_INSNSELF, i, 3}, {V_INSNSELF, i, 220}});
            }
            for (uint64_t i : {0, 1, 3, 4, 8, 24, 33}) add({{V_RESIZE, i}, {V_RESIZEV, i, 67}, {V_ASSIGNN, i, 68}, {V_ASSIGNR, i}, {V_ASSIGNSTD, i}, {V_ASSIGNSTD, i, 1}, {V_RESIZESELF, i}});
            if (thr) add({{V_PUSH, VR_THROW}, {V_EMPLB, VR_THROW}, {V_RESIZEV, 9, VR_THROW}, {V_ASSIGNN, 2, VR_THROW}, {V_ASSIGNN, 20, VR_THROW}, {V_RECON, 1, VR_THROW * 100 + 2}});
            add({{V_RECON, 0}, {V_RECON, 1, 6904}, {V_RECON, 1, 6930}, {V_RECON, 3, 0}, {V_RECON, 3, 5}, {V_RECON, 3, 24}, {V_RECON, 4}, {V_RECON, 5}, {V_RECON, 6}, {V_RECON, 7, 5}, {V_RECON, 7, 25}});
            if (!str) add({{V_RECON, 2, 3}});
            for (uint64_t i : {0, 2, 22}) for (uint64_t j = 0; j < 10; ++j) add({{V_SET, i, 7100 + j}});
            for (uint64_t j : {0, 100, 200, 300}) add({{V_WRITE2, 0, j + 3}, {V_WRITE2, 1, j + 2}, {V_WRITE2, 2, j + 0}, {V_WRITE2, 0, j + 23}});
            if (str)
            {
                for (uint64_t i : {0, 1, 3, 10, 24, 30}) add({{S_APPN, i, 72}, {S_APPSTR, i}, {S_APPSTR, i, 1}, {S_APPSTR, i, 2}, {S_APPRANGE, i}, {V_ASSIGNSTD, i, 2}, {V_ASSIGNSTD, i, 3}, {V_ASSIGNSTD, i, 4}});
                for (uint64_t i : {0, 1, 3, 23, 50})
                {
                    add({{S_APPSUB, i, 2}, {S_APPSUB, i, 100}, {S_REPN, i, 0}, {S_REPN, i, 3}, {S_REPN, i, 101}, {S_REPN, i, 202}, {S_REPN, i, 525}, {S_REPN, i, 2505}, {S_REPB, i, 0}, {S_REPB, i, 1}, {S_REPB, i, 50}, {S_REPSELF, i, 0}, {S_REPSELF, i, 2}, {S_REPSTR, i, 3}, {S_REPSTR, i, 104}, {S_REPSTR, i, 230}, {S_REPSTR, i, 5001}, {S_REPSUB, i, 1}, {S_REPIT, i, 203}, {S_REPIT, i, 127}, {S_INSSTR, i, 1}, {S_INSSTR, i, 4}, {S_INSSTR, i, 25}, {S_INSB, i}, {S_INSSELF, i}, {S_INSSUB, i, 0}, {S_INSSUB, i, 2}, {S_INSSUB, i, 50}, {S_ERASE, i, 0}, {S_ERASE, i, 1}, {S_ERASE, i, 100}, {S_INSNIT, i, 7303}, {S_ASSIGNSUB, i, 2}, {S_ASSIGNSUB, i, 100}, {S_CMPSUB, i, 2}, {S_CMPSUB, i, 100}, {S_COPYOUT, i, 2}, {S_COPYOUT, i, 70}, {V_RECON, 8, i}});
                    for (uint64_t j = 0; j < 6; ++j) add({{S_FIND, j, i}});
                }
                add({{S_APPB}, {S_APPB, 1}, {S_APPSELF}, {S_EQCH, 74}});
            }
        }
        std::vector<std::vector<Op>> setups;
        if (fixed) setups = {{}};
        else setups = {{}, {{V_ASSIGNR, 3}}, {{V_ASSIGNR, 3}, {V_SWAP}, {V_ASSIGNR, 4}}, {{V_ASSIGNR, 2}, {V_SWAP}, {V_ASSIGNR, 23}}, {{V_ASSIGNR, 25}, {V_SWAP}, {V_ASSIGNN, 5, 66}}, {{V_ASSIGNR, 1}, {V_SWAP}, {V_ASSIGNR, 26}, {V_RESERVE, 64}}, {{V_ASSIGNR, 30}, {V_SWAP}, {V_ASSIGNR, 24}, {V_POP}}};
        std::vector<Op> few;
        if (fixed) few = {{V_COPY}, {V_SWAP}, {V_FILL, 9}, {V_SET, 0, 5000}, {V_SET, 5, 5103}, {V_WRITE2, 1, 4}, {V_AT, 6}};
        else few = {{V_PUSH, 60}, {V_POP}, {V_INS, 0, 62}, {V_INS, 2, 63}, {V_INSN, 2, 6423}, {V_INSR, 3, 2}, {V_ERASE, 0}, {V_ERASER, 1, 2}, {V_RESIZE, 1}, {V_RESIZE, 24}, {V_RESIZEV, 8, 67}, {V_RESERVE, 40}, {V_SHRINK}, {V_CLEAR}, {V_ASSIGNN, 4, 68}, {V_ASSIGNR, 30}, {V_COPY}, {V_MOVE}, {V_SWAP}, {V_SET, 0, 7000}, {V_WRITE2, 0, 3}, {V_RECON, 4}, {V_PUSHSELF}};
        if (str) few.insert(few.end(), {{S_APPB}, {S_APPSELF}, {S_REPN, 1, 202}, {S_REPSTR, 0, 230}, {S_ERASE, 1, 100}, {S_INSSELF, 1}, {S_EQCH, 74}, {S_ASSIGNSUB, 0, 2}});
        else if (!fixed) few.insert(few.end(), {{V_FREE}, {V_AT, 40}});
        if (thr) few.insert(few.end(), {{V_PUSH, VR_THROW}, {V_INSN, 1, VR_THROW * 100 + 3}});
        auto in_tx = [](Op x, Op y, int flags) { x.c = flags | (uint64_t)y.code << 2 | y.a << 12 | y.b << 20; return x; };
        std::vector<Op> fin = {{V_DUMP}, {REOPEN}, {V_DUMP}, {V_LEAK}}, post = {{V_DUMP}, {fixed ? V_FILL : V_PUSH, 90}, {V_DUMP}, {V_LEAK}};
        Op more = fixed ? Op{V_SET, 0, 7100} : Op{V_PUSH, 7};
        auto go = [&](const std::string &name, const std::vector<Op> &st, const std::vector<Op> &al, int depth, bool crash, bool oom = false)
        {
            auto &c = o.seq(n + name, st, al, depth, fin);
            c.spec = "seq";
            c.crash = crash;
            if (crash) c.post = post;
            if (oom) c.p["oom"] = 1;
        };
        int si = 0;
        for (auto &st : setups)
        {
            std::string I = num(si++);
            // every operation alone, in an aborted transaction, followed by another in a transaction and in an aborted one
            std::vector<Op> al = ops, ab;
            for (auto &x : ops)
            {
                ab.push_back(in_tx(x, {}, VF_ABORT));
                al.push_back(in_tx(x, more, VF_TX));
                ab.push_back(in_tx(x, more, VF_TX | VF_ABORT));
            }
            go("each" + I, st, al, 1, true);
            go("abort" + I, st, ab, 1, thorough);
            // two operations: in a transaction, in an aborted one, one after the other
            std::vector<Op> pairs;
            for (auto &x : few)
                for (auto &y : few)
                {
                    pairs.push_back(in_tx(x, y, VF_TX));
                    pairs.push_back(in_tx(x, y, VF_TX | VF_ABORT));
                }
            if (!fixed)
            {
                // an allocation fails; the container goes on working
                std::vector<Op> dry = ops;
                for (auto &x : ops) dry.push_back(in_tx(x, more, VF_TX));
                go("oom" + I, st, dry, 1, false, true);
                go("oom-pair" + I, st, pairs, 1, false, true);
                go("oom-seq" + I, st, few, 2, false, true);
            }
            go("pair" + I, st, pairs, 1, thorough);
            go("seq" + I, st, few, 2, thorough);
            if (thorough) go("seq-deep" + I, st, few, 3, false);
        }
    }
}

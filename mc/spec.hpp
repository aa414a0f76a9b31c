// Sequential specifications and the (durable) linearizability check.
#pragma once
#include "mc.hpp"
#include <algorithm>
#include <memory>
#include <string>
#include <unordered_map>
#include <unordered_set>

namespace mc
{
static const uint64_t ABSENT = ~0ull;   // "no value"
static const uint64_t ANYRES = ~0ull - 1; // result not judged

inline uint64_t mix64(uint64_t x)
{
    x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ULL; x ^= x >> 33;
    return x;
}
inline uint64_t hcomb(uint64_t h, uint64_t v) { return mix64(h * 0x9e3779b97f4a7c15ULL + v + 0x632be59bd9b4e019ULL); }

typedef std::vector<uint64_t> State;

struct Spec
{
    virtual State init(const Scenario &) = 0;
    // Applies op; returns false if res is impossible. pending: result unknown.
    virtual bool step(State &s, const Op &op, uint64_t res, bool pending) = 0;
    virtual bool lazy(const Op &) { return false; } // a completed operation that a crash may undo unless it was observed
    virtual std::string dump(const State &s)
    {
        std::string r;
        for (auto v : s) r += std::to_string(v) + " ";
        return r;
    }
    virtual ~Spec() {}
};

enum MapOps
{
    PUT = 1, GET, REMOVE, REMOVE_IF, REPLACE, PUT_ABSENT, INC, CONTAINS, SIZE, INSERT, ERASE, EMPTY,
    INC_NR, GET0, SNAPSHOT_OK, UPSERT, UPDATE, INSERT_ASSIGN, CLEAR, INSERT_KV,
    INC_IF, // increment if present: the old value, or absent
    NOP, GET_LOCKED, INSERT_ACC, ERASE_ACC,
    PUT_NEW, // insert or overwrite with the key itself: was it new?
    INC_NEW, // increment: the new value
};

// State: sorted (key, value) pairs.
struct MapSpec : Spec
{
    State init(const Scenario &) override { return {}; }
    static uint64_t *find(State &s, uint64_t k)
    {
        for (size_t i = 0; i + 1 < s.size(); i += 2)
            if (s[i] == k) return &s[i + 1];
        return nullptr;
    }
    static void set(State &s, uint64_t k, uint64_t v)
    {
        size_t i = 0;
        for (; i < s.size(); i += 2)
        {
            if (s[i] == k) { s[i + 1] = v; return; }
            if (s[i] > k) break;
        }
        uint64_t kv[2] = {k, v};
        s.insert(s.begin() + i, kv, kv + 2);
    }
    static void del(State &s, uint64_t k)
    {
        for (size_t i = 0; i < s.size(); i += 2)
            if (s[i] == k) { s.erase(s.begin() + i, s.begin() + i + 2); return; }
    }
    bool step(State &s, const Op &op, uint64_t res, bool pending) override
    {
        uint64_t *p = find(s, op.a);
        uint64_t old = p ? *p : ABSENT, exp;
        switch (op.code)
        {
        case PUT: exp = old; set(s, op.a, op.b); break;
        case UPSERT: exp = ANYRES; set(s, op.a, op.b); break;
        case GET: case GET_LOCKED: exp = old; break;
        case GET0: exp = p ? old : 0; break;
        case REMOVE: case ERASE: exp = p != nullptr; if (p) del(s, op.a); break;
        // erase(b) while an accessor to a is held: nothing happens if a is absent
        case ERASE_ACC: { uint64_t *q = p ? find(s, op.b) : nullptr; exp = q != nullptr; if (q) del(s, op.b); break; }
        case REMOVE_IF: exp = p && old == op.b; if (exp) del(s, op.a); break;
        case REPLACE: exp = p && old == op.b; if (exp) *p = op.c; break;
        case PUT_ABSENT: exp = old; if (!p) set(s, op.a, op.b); break;
        case INC: exp = old; set(s, op.a, p ? old + 1 : 1); break;
        case INC_IF: exp = old; if (p) *p = old + 1; break;
        case NOP: exp = ANYRES; break;
        case PUT_NEW: exp = p == nullptr; set(s, op.a, op.a); break;
        case INC_NEW: exp = p ? old + 1 : 1; set(s, op.a, exp); break;
        case INC_NR: exp = ANYRES; set(s, op.a, p ? old + 1 : 1); break;
        case CONTAINS: exp = p != nullptr; break;
        case SIZE: exp = s.size() / 2; break;
        case EMPTY: exp = s.empty(); break;
        case INSERT: exp = p == nullptr; if (!p) set(s, op.a, op.a); break;
        case INSERT_KV: case INSERT_ACC: exp = p == nullptr; if (!p) set(s, op.a, op.b); break;
        case UPDATE: exp = p != nullptr; if (p) *p = op.b; break;
        case INSERT_ASSIGN: exp = p == nullptr; set(s, op.a, op.b); break;
        case CLEAR: exp = ANYRES; s.clear(); break;
        case SNAPSHOT_OK: exp = 1; break;
        case REOPEN: exp = ANYRES; break;
        case REOPEN_NEW: exp = ANYRES; s.clear(); break;
        default: return op.code >= 200; // judged by the harness itself
        }
        return pending || exp == ANYRES || res == exp;
    }
};

// A set of words changed by multi-word compare-and-swap.
// KCAS args: each of a,b,c is ~0 (unused) or idx<<32 | old<<16 | new.
enum WordOps { KCAS = 1, WREAD, WCAS };
struct WordSpec : Spec
{
    bool crash = false;
    State init(const Scenario &sc) override
    {
        crash = sc.crash;
        return State(sc.param("words", 4), 0);
    }
    // A single-word CAS is only durable once it has been observed.
    bool lazy(const Op &op) override { return crash && op.code == WCAS; }
    bool step(State &s, const Op &op, uint64_t res, bool pending) override
    {
        uint64_t exp = ANYRES;
        if (op.code == KCAS)
        {
            uint64_t w[3] = {op.a, op.b, op.c};
            bool ok = true;
            for (auto x : w)
                if (x != ~0ull && s[x >> 32] != ((x >> 16) & 0xffff)) ok = false;
            if (ok)
                for (auto x : w)
                    if (x != ~0ull) s[x >> 32] = x & 0xffff;
            exp = ok;
        }
        else if (op.code == WREAD) exp = s[op.a];
        else if (op.code == WCAS)
        {
            exp = s[op.a] == op.b;
            if (exp) s[op.a] = op.c;
        }
        else if (op.code == REOPEN) exp = ANYRES;
        else return op.code >= 200; // judged by the harness itself
        return pending || exp == ANYRES || res == exp;
    }
};

// Transactions on a small persistent root object. A program is chosen first (its number is the result of
// TX_CHOOSE) and run by TX_RUN; each base-32 digit is a step.
enum TxOps { TX_CHOOSE = 1, TX_RUN, TX_SUM, TX_BLOCKS, TX_INC, TX_ATOM, TX_OUTSIDE };
enum TxSteps
{
    T_END, T_X, T_Y, T_RAW, T_PUSH, T_POP, T_NEST, T_ENDNEST, T_THROW, T_ABORT, T_SWAP, T_ARR, T_NEST_MANUAL, T_NEST_CATCH, T_CB, T_FLAT,
    T_NEST_AUTO, T_UNWIND, T_BADCTOR, T_COUNT
};
enum TxKinds { K_RUN, K_MANUAL, K_AUTO, K_MANUAL_NOCOMMIT, K_RUN_LOCK, K_UNWIND, K_COUNT };
enum TxResults { RS_OK = 1, RS_OOM, RS_USER, RS_MANUAL_ABORT, RS_TX_ERROR, RS_SILENT };
struct TxSpec : Spec
{
    bool oom = false;
    // prog, x, y, raw0, raw1, arr, atom, atom array, list...
    enum { LIST = 8 };
    State init(const Scenario &sc) override { oom = sc.param("oom"); return State(LIST, 0); }
    static uint64_t sum(const State &s)
    {
        uint64_t h = 0;
        for (size_t i = 1; i < s.size(); ++i) h = h * 31 + s[i] + 7;
        return h;
    }
    // Runs steps from i at a nesting depth; returns 0 to go on after the matching end, else the outcome.
    static uint64_t body(State &s, const std::vector<int> &p, size_t &i, int depth)
    {
        while (i < p.size())
        {
            switch (p[i++])
            {
            case T_X: s[1] += 1; break;
            case T_Y: s[2] += s[1] + 1; break;
            case T_RAW: s[3] += 1; s[4] += s[3]; break;
            case T_PUSH: s.push_back(s[1] + 10); break;
            case T_POP: if (s.size() > LIST) s.pop_back(); break;
            case T_SWAP: std::swap(s[1], s[2]); break;
            case T_ARR: s[5] = s[5] ? 0 : s[1] + 100; break;
            case T_THROW: case T_BADCTOR: return RS_USER;
            case T_ABORT: return RS_MANUAL_ABORT;
            case T_NEST: case T_NEST_MANUAL: case T_NEST_AUTO: case T_FLAT: { uint64_t r = body(s, p, i, depth + 1); if (r) return r; break; }
            case T_NEST_CATCH: case T_UNWIND: { uint64_t r = body(s, p, i, depth + 1); if (r) return RS_TX_ERROR; break; }
            case T_ENDNEST: if (depth) return 0; break;
            case T_CB: break;
            default: break;
            }
        }
        return 0;
    }
    bool step(State &s, const Op &op, uint64_t res, bool pending) override
    {
        switch (op.code)
        {
        case TX_CHOOSE:
            if (pending) return true;
            s[0] = res;
            return true;
        case TX_RUN:
        {
            std::vector<int> p;
            uint64_t v = s[0];
            int kind = v % 32;
            for (v /= 32; v; v /= 32) p.push_back(v % 32);
            State t = s;
            size_t i = 0;
            uint64_t r = body(t, p, i, 0);
            if (!r && kind == K_MANUAL_NOCOMMIT) r = RS_SILENT;
            if (!pending && oom && res == RS_OOM) return true; // nothing changed
            // the failure was caught around an inner transaction, which aborted the outer one
            if (!pending && oom && res == RS_TX_ERROR && std::count(p.begin(), p.end(), (int)T_NEST_CATCH) + std::count(p.begin(), p.end(), (int)T_UNWIND)) return true;
            if (!r) s = t;
            return pending || res == (r ? r : (uint64_t)RS_OK);
        }
        case TX_INC: // a locked transaction: x += 1, y += x
            if (!pending && oom && res == RS_OOM) return true;
            s[1] += 1;
            s[2] += s[1];
            return pending || res == s[1];
        case TX_ATOM: // atomic allocation and deletion of an object (0, 1) and of an array (2, 3)
        {
            if (!pending && oom && res == RS_OOM) return true;
            auto &w = s[op.a < 2 ? 6 : 7];
            uint64_t ok = (w == 0) == (op.a % 2 == 0);
            if (ok) w = op.a % 2 ? 0 : op.b;
            return pending || res == ok;
        }
        case TX_OUTSIDE: return true;
        case TX_SUM: return pending || res == sum(s);
        case TX_BLOCKS: return pending || res == 1 + (s.size() - LIST) + (s[5] != 0) + (s[6] != 0) + (s[7] != 0);
        case REOPEN: return true;
        }
        return false;
    }
};

enum SeqOps
{
    V_PUSH = 300, V_POP, V_INS, V_INSMV, V_INSN, V_INSR, V_INSIL, V_EMPL, V_EMPLB, V_ERASE, V_ERASER, V_RESIZE, V_RESIZEV,
    V_RESERVE, V_SHRINK, V_CLEAR, V_FREE, V_ASSIGNN, V_ASSIGNR, V_ASSIGNIL, V_ASSIGNSTD, V_ASSIGNB, V_ASSIGNMV, V_COPY, V_MOVE, V_SELF,
    V_SWAP, V_RECON, V_AT, V_SET, V_PUSHSELF, V_INSSELF, V_INSNSELF, V_RESIZESELF, V_DUMP, V_LEAK, V_CMP, V_FILL, V_WRITE2,
    S_APPN = 350, S_APPB, S_APPSUB, S_APPSTR, S_APPSELF, S_REPN, S_REPB, S_REPSTR, S_REPSUB, S_INSSTR, S_INSB, S_INSSUB, S_ERASE, S_EQCH, S_FIND,
    S_CMPSUB, S_APPRANGE, S_REPIT, S_INSNIT, S_ASSIGNSUB, S_COPYOUT, S_REPSELF, S_INSSELF,
};
// Op::c: how the operation is run: flags, and a second operation run in the same transaction (code << 2 | a << 12 | b << 20)
enum { VF_ABORT = 1 /* in a transaction that is then aborted */, VF_TX = 2 /* in a transaction */ };
enum { VR_RANGE = 901, VR_USER = 902, VR_OOM = 903, VR_THROW = 13 /* a value whose copy fails */ };

// Two sequences a and b. State: size of a, a, b. An operation's result includes a digest of the contents after it.
struct SeqSpec : Spec
{
    typedef std::vector<uint64_t> L;
    bool oom = false, fixed = false, str = false;
    State init(const Scenario &sc) override
    {
        oom = sc.param("oom");
        str = sc.param("str");
        fixed = sc.param("fixed");
        return fixed ? State{6, 1, 2, 3, 4, 5, 6, 11, 12, 13, 14, 15, 16} : State{0};
    }
    static uint64_t digest(const L &a, const L &b)
    {
        uint64_t h = hcomb(a.size(), 77);
        for (auto x : a) h = hcomb(h, x);
        for (auto x : b) h = hcomb(h, x);
        return h;
    }
    static Op second(const Op &o) { return Op{(int)(o.c >> 2 & 1023), o.c >> 12 & 255, o.c >> 20}; }
    static L range(uint64_t n)
    {
        L r;
        for (uint64_t i = 0; i < n; ++i) r.push_back(65 + i % 60);
        return r;
    }
    static int sign(int x) { return x < 0 ? 2 : x > 0; }
    static int cmp(const L &a, const L &b) { return a < b ? 2 : b < a ? 1 : 0; }
    static uint64_t find(const L &a, const L &b, uint64_t pos, int kind)
    {
        // 0 find, 1 rfind, 2 find_first_of, 3 find_first_not_of, 4 find_last_of, 5 find_last_not_of
        std::string x(a.begin(), a.end()), y(b.begin(), b.end());
        size_t r = kind == 0 ? x.find(y, pos) : kind == 1 ? x.rfind(y, pos) : kind == 2 ? x.find_first_of(y, pos) : kind == 3 ? x.find_first_not_of(y, pos) : kind == 4 ? x.find_last_of(y, pos) : x.find_last_not_of(y, pos);
        return r == std::string::npos ? 999 : r;
    }
    // The effect on (a, b); returns the result. Throws int on an exception that leaves everything as it was.
    static uint64_t apply(const Op &o, L &a, L &b)
    {
        auto at = [&](uint64_t i) { return a.begin() + i; };
        auto pos = [&](uint64_t i) { return std::min<uint64_t>(i, a.size()); };
        auto ins = [&](uint64_t i, const L &v) { a.insert(at(i), v.begin(), v.end()); return i; };
        auto thr = [](uint64_t x, uint64_t n = 1) { if (x == VR_THROW && n) throw (int)VR_USER; };
        auto sub = [](const L &v, uint64_t p, uint64_t n) { return L(v.begin() + p, v.begin() + p + std::min<uint64_t>(n, v.size() - p)); };
        auto chk = [](uint64_t i, uint64_t n) { if (i > n) throw (int)VR_RANGE; };
        auto rep = [&](uint64_t i, uint64_t n, const L &v)
        {
            n = std::min<uint64_t>(n, a.size() - i);
            L w = v;
            a.erase(at(i), at(i + n));
            a.insert(at(i), w.begin(), w.end());
        };
        uint64_t p = pos(o.a);
        switch (o.code)
        {
        case V_PUSH: case V_EMPLB: thr(o.a); a.push_back(o.a); return 0;
        case V_POP: if (a.size()) a.pop_back(); return 0;
        case V_INS: case V_INSMV: case V_EMPL: thr(o.b); a.insert(at(p), o.b); return p;
        case V_INSN: case S_INSNIT: thr(o.b / 100, o.b % 100); a.insert(at(p), o.b % 100, o.b / 100); return p;
        case V_INSR: return ins(p, range(o.b));
        case V_INSIL: return ins(p, {31, 32, 33});
        case V_ERASE: if (o.a < a.size()) { a.erase(at(o.a)); return o.a; } return 0;
        case V_ERASER: a.erase(at(p), at(pos(o.a + o.b))); return p;
        case V_RESIZE: a.resize(o.a, 0); return 0;
        case V_RESIZEV: thr(o.b, o.a > a.size()); a.resize(o.a, o.b); return 0;
        case V_RESERVE: case V_SHRINK: case V_DUMP: return 0;
        case V_CLEAR: case V_FREE: a.clear(); return 0;
        case V_ASSIGNN: thr(o.b, o.a); a.assign(o.a, o.b); return 0;
        case V_ASSIGNR: case V_ASSIGNSTD: a = range(o.a); return 0;
        case V_ASSIGNIL: a = {41, 42, 43}; return 0;
        case V_ASSIGNB: case V_COPY: a = b; return 0;
        case V_ASSIGNMV: case V_MOVE: a = b; b.clear(); return 0;
        case V_SELF: return 0;
        case V_SWAP: std::swap(a, b); return 0;
        case V_RECON:
            switch (o.a)
            {
            case 0: a.clear(); break;
            case 1: case 9: thr(o.b / 100, o.b % 100); a.assign(o.b % 100, o.b / 100); break;
            case 2: a.assign(o.b, 0); break;
            case 3: case 7: a = range(o.b); break;
            case 4: a = b; break;
            case 5: a = b; b.clear(); break;
            case 6: a = {51, 52, 53}; break;
            case 8: chk(o.b, b.size()); a = sub(b, o.b, 3); break;
            }
            return 0;
        case V_AT: if (o.a >= a.size()) throw (int)VR_RANGE; return a[o.a];
        case V_SET: if (o.a < a.size()) a[o.a] = o.b / 100; return 0;
        case V_WRITE2: // overwrite [a, a + b % 100) through a slice
            if (o.a + o.b % 100 > a.size()) throw (int)VR_RANGE;
            for (uint64_t i = 0; i < o.b % 100; ++i) a[o.a + i] = 80 + i;
            return 0;
        case V_FILL: for (auto &x : a) x = o.a; return 0;
        case V_PUSHSELF: if (a.size()) { uint64_t x = a[0]; a.push_back(x); } return 0;
        case V_INSSELF: if (a.size()) { uint64_t x = a.back(); a.insert(at(p), x); } return 0;
        case V_INSNSELF: if (a.size()) { uint64_t x = a[o.b / 100 % a.size()]; a.insert(at(p), o.b % 100, x); } return 0;
        case V_RESIZESELF: if (a.size()) { uint64_t x = a[0]; a.resize(o.a, x); } return 0;
        case V_CMP: return cmp(a, b) * 10 + cmp(b, a);
        case S_APPN: a.insert(a.end(), o.a, o.b); return 0;
        case S_APPB: ins(a.size(), L(b)); return 0;
        case S_APPSUB: chk(o.a, b.size()); ins(a.size(), sub(b, o.a, o.b)); return 0;
        case S_APPSTR: case S_APPRANGE: ins(a.size(), range(o.a)); return 0;
        case S_APPSELF: ins(a.size(), L(a)); return 0;
        case S_REPN: chk(o.a, a.size()); rep(o.a, o.b / 100, L(o.b % 100, 99)); return 0;
        case S_REPB: chk(o.a, a.size()); rep(o.a, o.b, b); return 0;
        case S_REPSELF: chk(o.a, a.size()); rep(o.a, o.b, L(a)); return 0;
        case S_REPSTR: chk(o.a, a.size()); rep(o.a, o.b / 100, range(o.b % 100)); return 0;
        case S_REPSUB: chk(o.a, a.size()); chk(1, b.size()); rep(o.a, o.b, sub(b, 1, 4)); return 0;
        case S_REPIT: rep(p, o.b / 100, range(o.b % 100)); return 0;
        case S_INSSTR: chk(o.a, a.size()); ins(o.a, range(o.b)); return 0;
        case S_INSB: chk(o.a, a.size()); ins(o.a, L(b)); return 0;
        case S_INSSELF: chk(o.a, a.size()); ins(o.a, L(a)); return 0;
        case S_INSSUB: chk(o.a, a.size()); chk(o.b, b.size()); ins(o.a, sub(b, o.b, 3)); return 0;
        case S_ERASE: chk(o.a, a.size()); rep(o.a, o.b, {}); return 0;
        case S_EQCH: a = {o.a}; return 0;
        case S_ASSIGNSUB: chk(o.a, b.size()); a = sub(b, o.a, o.b); return 0;
        case S_FIND: return find(a, b, o.b ? o.b - 1 : 0, o.a);
        case S_CMPSUB: chk(o.a, a.size()); return cmp(sub(a, o.a, o.b), b);
        case S_COPYOUT: { chk(o.a, a.size()); uint64_t h = 0; for (auto x : sub(a, o.a, o.b)) h = hcomb(h, x); return h; }
        }
        return 12345;
    }
    bool step(State &s, const Op &op, uint64_t res, bool pending) override
    {
        if (op.code == REOPEN) return true;
        L a(s.begin() + 1, s.begin() + 1 + s[0]), b(s.begin() + 1 + s[0], s.end());
        if (op.code == V_LEAK) { s = fixed ? State{6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0} : State{0}; return pending || res == 0; }
        L a0 = a, b0 = b;
        uint64_t r;
        if (oom && !pending && res == hcomb(VR_OOM, digest(a, b))) return true;
        try
        {
            r = apply(op, a, b);
            if (second(op).code) r = hcomb(r, apply(second(op), a, b));
        }
        catch (int e)
        {
            r = e;
            a = a0, b = b0;
        }
        if (op.c & VF_ABORT) a = a0, b = b0;
        if (!pending && res != hcomb(r, digest(a, b))) return false;
        s.assign(1, a.size());
        s.insert(s.end(), a.begin(), a.end());
        s.insert(s.end(), b.begin(), b.end());
        return true;
    }
    std::string dump(const State &s) override
    {
        std::string r = "a:";
        for (size_t i = 1; i < s.size(); ++i) r += (i == s[0] + 1 ? " b: " : " ") + std::to_string(s[i]);
        return r;
    }
};

enum HashOps { H_INSERT = 400, H_IOA, H_FIND, H_ERASE, H_WRITE, H_ASSIGN, H_SELF, H_ASSIGNIL, H_SWAP, H_RECON, H_CLEAR, H_FREE, H_REHASH, H_DEFRAG, H_EQ, H_INSR, H_DUMP, H_LEAK };
enum { VR_SCOPE = 904 };
// Two maps a and b. State: number of pairs of a, pairs of a, pairs of b (sorted by key). Op::c as for SeqSpec.
struct HashSpec : Spec
{
    typedef std::map<uint64_t, uint64_t> M;
    bool oom = false, conc = false; // conc: threads share the maps; results carry no digest
    State init(const Scenario &sc) override
    {
        oom = sc.param("oom");
        conc = sc.param("conc");
        return State{0};
    }
    static uint64_t digest(const M &a, const M &b)
    {
        uint64_t h = hcomb(a.size(), 78);
        for (auto m : {&a, &b})
            for (auto &x : *m) h = hcomb(hcomb(h, x.first), x.second);
        return h;
    }
    // the pairs of a range: keys step, 2 step, ... ; every third one comes twice (the first counts)
    static std::vector<std::pair<uint64_t, uint64_t>> range(uint64_t n, uint64_t step)
    {
        std::vector<std::pair<uint64_t, uint64_t>> r;
        for (uint64_t i = 1; i <= n; ++i)
        {
            r.push_back({i * step, 20 + i});
            if (i % 3 == 2) r.push_back({i * step, 60});
        }
        return r;
    }
    static std::vector<std::pair<uint64_t, uint64_t>> list() { return {{2, 31}, {258, 32}, {3, 33}, {2, 34}}; }
    static bool no_tx(int c) { return c == H_INSERT || c == H_IOA || c == H_FIND || c == H_ERASE || c == H_REHASH || c == H_INSR || c == H_EQ; }
    static void put(M &m, const std::vector<std::pair<uint64_t, uint64_t>> &l)
    {
        for (auto &x : l) m.insert(x);
    }
    static uint64_t apply(const Op &o, M &a, M &b, bool tx)
    {
        if (tx && (no_tx(o.code) || (o.code == H_WRITE && o.b / 100 != 2))) throw (int)VR_SCOPE;
        auto thr = [](uint64_t x) { if (x == VR_THROW) throw (int)VR_USER; };
        uint64_t v = o.b % 100, k = o.b / 100;
        switch (o.code)
        {
        case H_INSERT:
        {
            if (k == 6 || k == 7) v = 0;
            if (k == 9) thr(v); // the list is made first
            if (a.count(o.a)) return k >= 8 ? 7 : 0;
            if (k != 1 && k != 4 && k != 5) thr(v);
            a[o.a] = v;
            return k >= 8 ? 7 : 1;
        }
        case H_IOA: { if (k < 10) thr(v); bool n = !a.count(o.a); a[o.a] = v; return n; }
        case H_FIND: return a.count(o.a) ? a[o.a] : ABSENT;
        case H_ERASE: return a.erase(o.a);
        case H_WRITE: if (!a.count(o.a)) return 0; thr(v); a[o.a] = v; return 1;
        case H_ASSIGN: a = b; return 0;
        case H_SWAP: std::swap(a, b); return 0;
        case H_ASSIGNIL: a.clear(), put(a, list()); return 0;
        case H_INSR: put(a, o.b ? list() : range(o.a, 2)); return 0;
        case H_RECON:
            switch (o.a)
            {
            case 0: case 1: a.clear(); break;
            case 2: a = b; break;
            case 3: a = b; b.clear(); break;
            case 4: a.clear(), put(a, range(o.b, 2)); break;
            case 5: a.clear(), put(a, list()); break;
            }
            return 0;
        case H_CLEAR: case H_FREE: a.clear(); return 0;
        case H_DEFRAG: if (o.a >= 100 || !o.b || o.a + o.b > 100) throw (int)VR_RANGE; return 0;
        case H_EQ: return a == b;
        }
        return 0; // H_SELF, H_REHASH, H_DUMP
    }
    static M get(const State &s, size_t i, size_t n)
    {
        M m;
        for (; n--; i += 2) m[s[i]] = s[i + 1];
        return m;
    }
    bool step(State &s, const Op &op, uint64_t res, bool pending) override
    {
        if (op.code == REOPEN) return true;
        if (op.code == H_LEAK) { s = State{0}; return pending || res == 0; }
        M a = get(s, 1, s[0]), b = get(s, 1 + 2 * s[0], (s.size() - 1) / 2 - s[0]), a0 = a, b0 = b;
        auto keep = [&]
        {
            s.assign(1, a.size());
            for (auto m : {&a, &b})
                for (auto &x : *m) s.push_back(x.first), s.push_back(x.second);
            return true;
        };
        if (oom && !pending && res == hcomb(VR_OOM, digest(a, b))) return true;
        if (oom && !pending && op.code == H_INSR && !op.c) // the elements before the one that failed stay
            for (auto &x : op.b ? list() : range(op.a, 2))
            {
                a.insert(x);
                if (res == hcomb(VR_OOM, digest(a, b))) return keep();
            }
        a = a0;
        uint64_t r;
        Op q = SeqSpec::second(op);
        try
        {
            r = apply(op, a, b, op.c);
            if (q.code) r = hcomb(r, apply(q, a, b, op.c));
        }
        catch (int e)
        {
            r = e;
            a = a0, b = b0;
        }
        if (op.c & VF_ABORT) a = a0, b = b0;
        if (!pending && res != (conc && op.code != H_DUMP ? r : hcomb(r, digest(a, b)))) return false;
        return keep();
    }
    std::string dump(const State &s) override
    {
        std::string r = "a:";
        for (size_t i = 1; i < s.size(); i += 2) r += (i == 2 * s[0] + 1 ? " b: " : " ") + std::to_string(s[i]) + "=" + std::to_string(s[i + 1]);
        return r;
    }
};

// Locks (a = lock | shared << 4 | how << 8, b = thread), a counting condition, and values per thread of which only the sum counts.
enum LockOps { LK_ACQ = 1, LK_REL, C_WAIT, C_POST, C_CHECK, E_LOCAL, E_SUM, E_INIT, E_CLEAR };
struct LockSpec : Spec
{
    // per lock: owner, readers; flag; sum
    State init(const Scenario &) override { return State(8, 0); }
    bool step(State &s, const Op &op, uint64_t res, bool pending) override
    {
        uint64_t o = op.a & 15, exp = ANYRES, &flag = s[6], &sum = s[7], was = s[7];
        switch (op.code)
        {
        case LK_ACQ:
        {
            bool sh = op.a >> 4 & 15, free = !s[2 * o] && (sh || !s[2 * o + 1]);
            exp = free; // an operation that waits and is told that it has the lock had to wait until it was free
            if (free) sh ? ++s[2 * o + 1] : s[2 * o] = op.b;
            break;
        }
        case LK_REL:
            if (pending || !res) return true;
            if (s[2 * o] == op.b) s[2 * o] = 0;
            else if (s[2 * o + 1]) --s[2 * o + 1];
            else return false;
            return true;
        case C_WAIT: exp = flag > 0; if (flag) --flag; break;
        case C_POST: flag += 1 + op.a; break;
        case C_CHECK: exp = flag; break;
        case E_LOCAL: ++sum; break;
        case E_SUM: exp = sum; break;
        case E_INIT: exp = sum; sum = 0; break;
        case E_CLEAR: if (!op.a) sum = 0; break;
        case REOPEN: s.assign(7, 0), s.push_back(was); break;
        default: return op.code >= 200; // judged by the harness itself
        }
        return pending || exp == ANYRES || res == exp;
    }
};

// No specification: the harness judges itself (mc_assert); histories are not checked.
struct NullSpec : Spec
{
    State init(const Scenario &) override { return {}; }
    bool step(State &, const Op &, uint64_t, bool) override { return true; }
};

inline std::unique_ptr<Spec> make_spec(const std::string &n)
{
    if (n == "map") return std::make_unique<MapSpec>();
    if (n == "tx") return std::make_unique<TxSpec>();
    if (n == "seq") return std::make_unique<SeqSpec>();
    if (n == "hash") return std::make_unique<HashSpec>();
    if (n == "lock") return std::make_unique<LockSpec>();
    if (n == "words") return std::make_unique<WordSpec>();
    return std::make_unique<NullSpec>();
}

struct OpRec
{
    Op op;
    int tid = 0, idx = 0;
    uint64_t res = 0;
    bool done = false;
    uint64_t pred = 0; // bit i: operation i of the concurrent window completed before this one was invoked
};

// Is there a linearization of the concurrent window `h` (completed ops mandatory, pending optional),
// from any of `starts`, followed by `obs` in order?
struct LinChecker
{
    Spec &spec;
    size_t steps = 0;
    LinChecker(Spec &s) : spec(s) {}
    struct Key
    {
        uint64_t mask, h;
        bool operator==(const Key &o) const { return mask == o.mask && h == o.h; }
    };
    struct KH { size_t operator()(const Key &k) const { return hcomb(k.mask, k.h); } };
    static uint64_t hs(const State &s)
    {
        uint64_t h = s.size();
        for (auto v : s) h = hcomb(h, v);
        return h;
    }
    // The sequential tail; an operation interrupted by a second crash took effect or did not.
    bool tail(State s, const std::vector<OpRec> &obs, size_t i)
    {
        for (; i < obs.size(); ++i)
        {
            if (!obs[i].done && tail(s, obs, i + 1)) return true;
            if (!spec.step(s, obs[i].op, obs[i].res, !obs[i].done)) return false;
        }
        last = s;
        return true;
    }
    bool rec(const std::vector<OpRec> &h, uint64_t mask, const State &s, const std::vector<OpRec> &obs,
             std::unordered_set<Key, KH> &seen)
    {
        if (!seen.insert({mask, hs(s)}).second) return false;
        ++steps;
        bool all = true;
        for (size_t i = 0; i < h.size(); ++i)
            if (h[i].done && !(mask >> i & 1) && !spec.lazy(h[i].op)) all = false;
        if (all)
        {
            if (tail(s, obs, 0)) return true;
        }
        for (size_t i = 0; i < h.size(); ++i)
        {
            if (mask >> i & 1) continue;
            // every completed predecessor must already be linearized
            uint64_t need = h[i].pred & ~mask;
            bool ok = true;
            for (size_t j = 0; j < h.size() && need; ++j)
                if ((need >> j & 1) && !spec.lazy(h[j].op)) { ok = false; break; }
            if (!ok) continue;
            State t = s;
            if (!spec.step(t, h[i].op, h[i].res, !h[i].done)) continue;
            if (rec(h, mask | 1ull << i, t, obs, seen)) return true;
        }
        return false;
    }
    State last;
    bool check(const State &start, const std::vector<OpRec> &h, const std::vector<OpRec> &obs)
    {
        std::unordered_set<Key, KH> seen;
        return rec(h, 0, start, obs, seen);
    }
};
} // namespace mc

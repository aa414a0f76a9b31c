// Transactions, persistent allocation, p<> and persistent_ptr of libpmemobj++.
#define PMEMOBJ_DIRECT_NON_INLINE
#include "common.hpp"
#include <libpmemobj++/make_persistent.hpp>
#include <libpmemobj++/make_persistent_array.hpp>
#include <libpmemobj++/make_persistent_atomic.hpp>
#include <libpmemobj++/mutex.hpp>
#include <libpmemobj++/p.hpp>
#include <libpmemobj++/persistent_ptr.hpp>
#include <libpmemobj++/pool.hpp>
#include <libpmemobj++/shared_mutex.hpp>
#include <libpmemobj++/transaction.hpp>
using namespace mc;
using namespace pmem::obj;

struct Node
{
    p<uint64_t> v;
    persistent_ptr<Node> next;
    p<uint64_t> check;
    Node(uint64_t x, persistent_ptr<Node> n) : v(x), next(n), check(~x) {}
    ~Node() {}
};
struct UserError { int v; };
struct Bad
{
    uint64_t a[20];
    Bad() { throw UserError{3}; }
};
template <class F> struct OnExit
{
    F f;
    ~OnExit() { f(); }
};
template <class F> OnExit(F) -> OnExit<F>;
struct Val : p<uint64_t>
{
    Val() : p<uint64_t>(5) {}
};
struct Root
{
    p<uint64_t> x;
    char pad1[64];
    p<uint64_t> y;
    char pad2[64];
    uint64_t raw[2];
    persistent_ptr<Node> head;
    persistent_ptr<p<uint64_t>[]> arr;
    p<uint64_t> arr_n;
    persistent_ptr<Node> atom;
    persistent_ptr<Val[]> atom_arr;
    mutex m;
    shared_mutex sm;
};
typedef pool<Root> Pool;
static Pool pop;
static uint64_t program;
static int cb_commit, cb_abort, cb_finally, cb_registered;
static int choose_len;
static bool choose_small;

static int steps_of(uint64_t v, int *p)
{
    int n = 0;
    for (v /= 32; v; v /= 32) p[n++] = v % 32;
    return n;
}
// Runs steps; false: the transaction is already aborted, leave at once.
static bool body(Root *r, const int *p, int n, int &i, int depth)
{
    while (i < n)
    {
        switch (p[i++])
        {
        case T_X: r->x = r->x + 1; break;
        case T_Y: r->y.get_rw() += r->x + 1; break;
        case T_RAW:
            transaction::snapshot(r->raw, 2);
            r->raw[0] += 1;
            r->raw[1] += r->raw[0];
            break;
        case T_PUSH: r->head = make_persistent<Node>(r->x + 10, r->head); break;
        case T_POP:
            if (r->head)
            {
                auto h = r->head;
                r->head = h->next;
                delete_persistent<Node>(h);
            }
            break;
        case T_SWAP: swap(r->x, r->y); break;
        case T_ARR:
            if (r->arr)
            {
                delete_persistent<::pmem::obj::p<uint64_t>[]>(r->arr, r->arr_n);
                r->arr = nullptr;
            }
            else
            {
                r->arr_n = 9;
                r->arr = make_persistent<::pmem::obj::p<uint64_t>[]>(9);
                for (int k = 0; k < 9; ++k) r->arr[k] = r->x + 100;
            }
            break;
        case T_THROW: throw UserError{1};
        case T_ABORT: transaction::abort(ECANCELED); break;
        case T_NEST: transaction::run(pop, [&] { body(r, p, n, i, depth + 1); }); break;
        case T_FLAT: transaction::run(pop, [&] { body(r, p, n, i, depth + 1); }, r->m, r->sm); break;
        case T_NEST_MANUAL:
        {
            transaction::manual tx(pop);
            body(r, p, n, i, depth + 1);
            transaction::commit();
            break;
        }
        case T_NEST_CATCH:
            try
            {
                transaction::run(pop, [&] { body(r, p, n, i, depth + 1); });
            }
            catch (...)
            {
                return false;
            }
            break;
        case T_NEST_AUTO:
        {
            transaction::automatic tx(pop);
            body(r, p, n, i, depth + 1);
            break;
        }
        case T_UNWIND: // a transaction in a destructor that runs because of an exception
        {
            bool ok = true;
            try
            {
                OnExit e{[&] {
                    try
                    {
                        transaction::automatic tx(pop);
                        body(r, p, n, i, depth + 1);
                    }
                    catch (...)
                    {
                        ok = false;
                    }
                }};
                throw 1;
            }
            catch (int)
            {
            }
            if (!ok) return false;
            break;
        }
        case T_BADCTOR: make_persistent<Bad>(); break;
        case T_ENDNEST:
            if (depth) return true;
            break;
        case T_CB:
            ++cb_registered;
            transaction::register_callback(transaction::stage::oncommit, [] { ++cb_commit; });
            transaction::register_callback(transaction::stage::onabort, [] { ++cb_abort; });
            transaction::register_callback(transaction::stage::finally, [] { ++cb_finally; });
            break;
        }
    }
    return true;
}
struct TxHarness : Harness
{
    void start(const Scenario &s) override
    {
        mc_mkdirs("/mnt/pmem/pm1/");
        pop = Pool::create("/mnt/pmem/pm1/t", "tx", PMEMOBJ_MIN_POOL);
        pop.root();
        setup(s);
    }
    void reopen(const Scenario &s) override
    {
        pop = Pool::open("/mnt/pmem/pm1/t", "tx");
        setup(s);
    }
    void setup(const Scenario &s)
    {
        choose_len = s.param("len", 3);
        choose_small = s.param("small");
        program = 0;
    }
    uint64_t exec(const Op &o) override
    {
        Root *r = pop.root().get();
        switch (o.code)
        {
        case TX_CHOOSE:
        {
            if (o.a) return program = o.a;
            uint64_t v = 0, mul = 32;
            int kind = mc_choose(K_COUNT), depth = 0;
            for (int i = 0, l = o.b ? (int)o.b : choose_len; i < l; ++i)
            {
                int st = 1 + mc_choose(T_COUNT - 1);
                if (st == T_ENDNEST && !depth) st = 0; // end of the program
                else if (st == T_ENDNEST) --depth;
                if (st == T_NEST || st == T_NEST_MANUAL || st == T_NEST_CATCH || st == T_FLAT || st == T_NEST_AUTO || st == T_UNWIND) ++depth;
                if (!st) break;
                v += mul * st;
                mul *= 32;
                if ((st == T_THROW || st == T_ABORT || st == T_BADCTOR) && !depth) break;
            }
            program = v + kind;
            return program;
        }
        case TX_RUN:
        {
            int p[32], n = steps_of(program, p), i = 0;
            uint64_t res = 0;
            cb_commit = cb_abort = cb_finally = cb_registered = 0;
            try
            {
                switch (program % 32)
                {
                case K_RUN: transaction::run(pop, [&] { body(r, p, n, i, 0); }); break;
                case K_RUN_LOCK: transaction::run(pop, [&] {
                    body(r, p, n, i, 0);
                }, r->sm); break;
                case K_MANUAL:
                {
                    transaction::manual tx(pop, r->m);
                    body(r, p, n, i, 0);
                    transaction::commit();
                    break;
                }
                case K_AUTO:
                {
                    transaction::automatic tx(pop);
                    body(r, p, n, i, 0);
                    break;
                }
                case K_UNWIND:
                {
                    std::exception_ptr x;
                    try
                    {
                        OnExit e{[&] {
                            try
                            {
                                transaction::automatic tx(pop);
                                body(r, p, n, i, 0);
                            }
                            catch (...)
                            {
                                x = std::current_exception();
                            }
                        }};
                        throw 1;
                    }
                    catch (int)
                    {
                    }
                    if (x) std::rethrow_exception(x);
                    break;
                }
                case K_MANUAL_NOCOMMIT:
                {
                    transaction::manual tx(pop, r->sm);
                    if (!body(r, p, n, i, 0)) transaction::commit();
                    res = RS_SILENT;
                    break;
                }
                }
                if (!res) res = RS_OK;
            }
            catch (UserError &) { res = RS_USER; }
            catch (pmem::manual_tx_abort &) { res = RS_MANUAL_ABORT; }
            catch (pmem::transaction_out_of_memory &) { res = RS_OOM; }
            catch (pmem::transaction_error &) { res = RS_TX_ERROR; }
            mc_assert(pmemobj_tx_stage() == TX_STAGE_NONE, "a transaction is still open after its scope");
            bool ok = res == RS_OK;
            mc_assert(cb_commit == (ok ? cb_registered : 0), "commit callbacks were not run exactly once after a commit");
            mc_assert(cb_abort == (ok ? 0 : cb_registered), "abort callbacks were not run exactly once after an abort");
            mc_assert(cb_finally == cb_registered, "final callbacks were not run exactly once");
            mc_assert(r->m.try_lock(), "the mutex of a finished transaction is still locked");
            r->m.unlock();
            mc_assert(r->sm.try_lock(), "the shared mutex of a finished transaction is still locked");
            r->sm.unlock();
            mc_assert(mc_pool_reserved() == 0, "an aborted transaction keeps allocated memory");
            return res;
        }
        case TX_INC:
        {
            uint64_t v = 0;
            auto f = [&] {
                uint64_t t = r->x;
                mc_point();
                r->x = t + 1;
                v = r->x;
                mc_point();
                r->y = r->y + v;
            };
            if (o.a == 0) transaction::run(pop, f, r->m);
            else if (o.a == 1) { transaction::manual tx(pop, r->m); f(); transaction::commit(); }
            else if (o.a == 2) { transaction::automatic tx(pop, r->m); f(); }
            else transaction::run(pop, f, r->sm, r->m);
            return v;
        }
        case TX_ATOM:
            try
            {
                bool arr = o.a >= 2, del = o.a % 2;
                if ((arr ? r->atom_arr != nullptr : r->atom != nullptr) != del) return 0;
                if (del && arr) delete_persistent_atomic<Val[]>(r->atom_arr, 9);
                else if (del) delete_persistent_atomic<Node>(r->atom);
                else if (arr) make_persistent_atomic<Val[]>(pop, r->atom_arr, 9);
                else make_persistent_atomic<Node>(pop, r->atom, o.b, nullptr);
                return 1;
            }
            catch (std::bad_alloc &)
            {
                return RS_OOM;
            }
        case TX_OUTSIDE:
        {
            auto fails = [](auto f) {
                try { f(); } catch (pmem::transaction_scope_error &) { return 2; } catch (pmem::transaction_error &) { return 1; }
                return 0;
            };
            mc_assert(fails([&] { make_persistent<Node>(1, nullptr); }) == 2, "make_persistent outside of a transaction is not refused");
            mc_assert(fails([&] { make_persistent<p<uint64_t>[]>(4); }) == 2, "make_persistent of an array outside of a transaction is not refused");
            mc_assert(fails([&] { delete_persistent<Node>(r->head); }) == 2, "delete_persistent outside of a transaction is not refused");
            mc_assert(fails([&] { delete_persistent<p<uint64_t>[]>(r->arr, 9); }) == 2, "delete_persistent of an array outside of a transaction is not refused");
            mc_assert(fails([&] { transaction::snapshot(r->raw, 2); }) != 0, "a snapshot outside of a transaction is not refused");
            mc_assert(fails([&] { transaction::commit(); }) != 0, "a commit outside of a transaction is not refused");
            mc_assert(fails([&] { transaction::abort(1); }) != 0, "an abort outside of a transaction is not refused");
            mc_assert(fails([&] { transaction::register_callback(transaction::stage::oncommit, [] {}); }) == 2, "a callback outside of a transaction is not refused");
            return 0;
        }
        case TX_SUM:
        {
            State s = {0, r->x, r->y, r->raw[0], r->raw[1], 0, 0, 0};
            if (r->atom)
            {
                s[6] = r->atom->v;
                mc_assert(r->atom->check == ~r->atom->v, "an atomically allocated object is torn");
            }
            if (r->atom_arr)
            {
                s[7] = r->atom_arr[0];
                for (int k = 0; k < 9; ++k) mc_assert(r->atom_arr[k] == r->atom_arr[0], "an atomically allocated array is torn");
            }
            if (r->arr)
            {
                s[5] = r->arr[0];
                for (int k = 0; k < (int)r->arr_n; ++k) mc_assert(r->arr[k] == r->arr[0], "a persistent array is torn");
            }
            std::vector<uint64_t> l;
            for (auto q = r->head; q; q = q->next)
            {
                mc_assert(q->check == ~q->v, "a persistent object is torn");
                l.push_back(q->v);
            }
            s.insert(s.end(), l.rbegin(), l.rend());
            return TxSpec::sum(s);
        }
        case TX_BLOCKS: return mc_pool_blocks();
        }
        return 0;
    }
    std::string show(const Op &o) override
    {
        static const char *N[] = {"end", "x++", "y+=x", "raw", "push", "pop", "nested{", "}", "throw", "abort", "swap", "array", "manual{", "try{", "callbacks", "locked{", "automatic{", "unwind{", "bad-ctor"};
        static const char *K[] = {"run", "manual", "automatic", "manual-no-commit", "run-locked", "unwind"};
        switch (o.code)
        {
        case TX_CHOOSE:
        {
            if (!o.a) return "program";
            int p[32], n = steps_of(o.a, p);
            std::string s = K[o.a % 32];
            for (int i = 0; i < n; ++i) s += std::string(" ") + N[p[i]];
            return s;
        }
        case TX_RUN: return "execute";
        case TX_SUM: return "contents";
        case TX_BLOCKS: return "objects";
        case TX_INC: return "increment" + num(o.a);
        case TX_ATOM: return (o.a % 2 ? "delete-atomic" : "make-atomic") + num(o.a / 2);
        case TX_OUTSIDE: return "outside";
        case REOPEN: return "clean restart";
        }
        return "?";
    }
};
extern "C" Harness *mc_harness() { return new TxHarness; }
extern "C" void mc_scenarios(const char *prop_, int thorough, std::vector<Scenario> *out)
{
    std::string prop = prop_;
    TxHarness h;
    Out o{out, [&](const Op &x) { return h.show(x); }, {{"pool", 128 << 10}}};
    Op C = {TX_CHOOSE}, R = {TX_RUN};
    auto prog = [](int kind, std::vector<int> st)
    {
        uint64_t v = 0;
        for (size_t i = st.size(); i-- > 0;) v = (v + st[i]) * 32;
        return Op{TX_CHOOSE, v + kind};
    };
    std::vector<Op> fin = {{TX_SUM}, {TX_BLOCKS}};
    std::vector<Op> post = {prog(K_RUN, {T_PUSH, T_X, T_ARR, T_RAW}), R, {TX_SUM}, {TX_BLOCKS}};
    auto init = std::vector<Op>{prog(K_RUN, {T_X, T_PUSH, T_X, T_PUSH, T_Y}), R};
    auto init2 = std::vector<Op>{prog(K_RUN, {T_X, T_PUSH, T_X, T_PUSH, T_Y, T_ARR, T_RAW}), R};
    if (prop == "C20")
    {
        auto fix = [&](Scenario &s, int len, int oom) { s.spec = "tx"; s.p["len"] = len; s.p["oom"] = oom; };
        int L = thorough ? 4 : 3;
        fix(o.crash("one", init, {{C, R}}, fin, post, 0), L, 0);
        fix(o.crash("one2", init2, {{C, R}}, fin, post, 0), L, 0);
        fix(o.add("one-oom", init, {{C, R}}, fin, 0), L, 1);
        fix(o.add("one2-oom", init2, {{C, R}}, cat(fin, {prog(K_RUN, {T_PUSH, T_X, T_ARR, T_RAW}), {REOPEN}, {TX_SUM}}), 0), L, 1);
        Op outside{TX_OUTSIDE};
        auto atom = [](uint64_t a) { return Op{TX_ATOM, a, a == 2 ? 5ull : 9ull}; };
        for (auto &first : {std::vector<Op>{}, {atom(0)}, {atom(2)}, {atom(0), atom(2)}})
            for (uint64_t a = 0; a < 4; ++a)
                for (uint64_t b = 0; b < 4; ++b)
                    for (int oom = 0; oom < 2; ++oom)
                    {
                        if (!oom) fix(o.crash("atomic", cat(init, first), {{atom(a), atom(b)}}, cat(fin, {outside}), post, 0), 1, 0);
                        else fix(o.add("atomic-oom", cat(init, first), {{atom(a), atom(b), C, R, outside}}, fin, 0), 1, 1);
                    }
        fix(o.add("two", init, {{thorough ? C : Op{TX_CHOOSE, 0, 1}, R, C, R}}, fin, 0), 2, thorough);
        for (int a = 0; a < 4; ++a)
            for (int b = a; b < 4; ++b)
            {
                fix(o.crash("inc", {}, {{{TX_INC, (uint64_t)a}}, {{TX_INC, (uint64_t)b}}}, fin, post, -1), 1, 0);
                if (a == b) fix(o.crash("inc3", {}, {{{TX_INC, (uint64_t)a}}, {{TX_INC, (uint64_t)b}}, {{TX_INC, 1}}}, fin, post, 2), 1, 0);
            }
        out->back().crash_nested = true;
    }
}

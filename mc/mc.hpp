// Interface between the model-checking engine (mcrun) and a harness library.
// A harness library holds the real /repo code, compiled with -fsanitize=thread
// instrumentation whose callbacks are implemented by the engine.
#pragma once
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace mc
{
struct Op
{
    int code = 0;
    uint64_t a = 0, b = 0, c = 0;
};
// Op codes shared by all specs. REOPEN restarts the process (clean shutdown).
enum
{
    REOPEN = 1000,
    REOPEN_NEW = 1001 // restart, then start() on the surviving files
};

struct Scenario
{
    std::string name;
    std::string spec = "map"; // which sequential specification judges the history
    std::vector<Op> setup;                 // run sequentially before the concurrent part
    std::vector<std::vector<Op>> threads;  // concurrent part
    std::vector<Op> fin;                   // run sequentially after it (observations)
    std::vector<Op> post;                  // after a crash + recovery: run after the observations
    std::vector<Op> alphabet;              // seq_depth>0: enumerate all sequences over this alphabet
    int seq_depth = 0;
    int bound = 2;          // preemption bound; -1 = unbounded
    bool crash = false;     // enumerate crash images
    bool crash_nested = false; // also crash during recovery
    bool crash_post = false;   // and during the operations that follow the recovery
    bool crash_setup = false;  // also crash during start() and the setup ops
    bool race = false;      // happens-before race detection on plain accesses
    bool plain_points = false; // plain accesses to tracked memory are scheduling points too
    bool progress = false;  // suspended-thread progress check at every state
    bool memcheck = true;   // accesses to freed/unallocated tracked memory are violations
    bool priv = true;       // no scheduling points on memory only its creator can reach
    bool coarse = false;    // scheduling points only at the control structures, not at the slots in persistent memory
    bool daemon_wait = false;
    int spin = 800;         // steps without any memory change before a thread counts as spinning
    int spin_branch = 250;  // no branching after that many unproductive steps
    int horizon = 60000;    // steps of one execution
    int crash_cap = 512;    // max images per crash event before falling back to the reduced set
    std::map<std::string, long> p; // harness-specific parameters
    long param(const char *n, long d = 0) const
    {
        auto it = p.find(n);
        return it == p.end() ? d : it->second;
    }
};

struct Harness
{
    virtual void start(const Scenario &) = 0;  // fresh process, empty persistent memory
    virtual void reopen(const Scenario &) = 0; // fresh process, surviving persistent memory
    virtual uint64_t exec(const Op &) = 0;
    virtual void thread_begin(int /*tid*/) {}
    virtual void thread_end(int /*tid*/) {}
    virtual void quiesce() {} // before the final observations
    virtual std::string show(const Op &op) = 0;
    virtual ~Harness() {}
};
} // namespace mc

extern "C"
{
    // implemented by the harness library
    void mc_scenarios(const char *prop, int thorough, std::vector<mc::Scenario> *out);
    mc::Harness *mc_harness();

    // services of the engine
    int mc_choose(int n);             // nondeterministic choice, explored exhaustively
    void mc_fail(const char *msg);    // report a violation in this execution
    void mc_assert(int cond, const char *msg);
    void mc_point();                  // explicit scheduling point
    void mc_flush(const void *p);     // cache line write-back
    void mc_fence();                  // store fence
    void mc_persist(const void *p, size_t n);
    void mc_ghost(const void *p, size_t n);         // memory of the harness: data races in it do not matter
    void mc_step_label(const char *l);
    int mc_tid();
    int mc_file_count(const char *prefix);          // files of the fake file system
    int mc_mapped_ok(const void *p, size_t n);      // is this range currently mapped/allocated?
    unsigned long mc_file_size(const char *path);
    int mc_mapping_count();                         // live PM mappings
    int mc_distinct_mappings();                     // 0 if two live mappings share storage
    int mc_distinct_sizes();                        // number of different mapping sizes
    int mc_open_fds();
    long mc_pool_blocks();                          // objects allocated in the persistent pool
    long mc_pool_reserved();                        // reservations neither published nor cancelled
    unsigned long mc_heap_live();                   // live heap blocks
}

# property -> harness libraries, how its cases are made, what is assumed
SC = "sequentially consistent memory (weaker hardware or compiler reorderings are not modelled)"
BOUND = "thread counts, operation counts, key alphabets and preemption bounds are those of the scenarios"
PM = ["each cache line reaches persistent memory as a prefix of the stores made to it; lines are independent; a line is certainly persistent "
      "after a write-back followed by a fence (or a locked instruction) of the thread that wrote it back",
      "file-system metadata operations are durable and ordered when they return",
      "where a crash point has more than the capped number of images, all-oldest, all-newest and those with one line changed are explored"]
CONC = "Every interleaving of the scenario's threads within the preemption bound (-1: all) is executed on the real code; states already seen are not expanded again."
CRASH = " At every step that changes what may be persistent, every combination of persisted cache-line prefixes is a crash image; the real recovery code runs on each."
SEQ = "Every operation sequence up to the depth over the alphabet is executed on the real code; equal states are merged."
PROPS = {
    "C01": dict(harness=["pmap"], rule=CONC, assume=[SC, BOUND]),
    "C02": dict(harness=["pmap"], rule=CONC, assume=[SC, BOUND]),
    "C03": dict(harness=["pmap"], rule=CONC, assume=[SC, BOUND]),
    "C04": dict(harness=["pmap"], rule=SEQ, assume=[BOUND]),
    "C05": dict(harness=["pmap"], rule=CONC, assume=[SC, BOUND]),
    "C06": dict(harness=["pmap"], rule=CONC + CRASH, assume=[SC, BOUND] + PM),
    "C07": dict(harness=["pmap"], rule=CONC + CRASH + " " + SEQ + " Crashes during recovery are explored in the same way.", assume=[SC, BOUND] + PM),
    "C08": dict(harness=["pmap"], rule=CONC + " In every state each thread in turn runs alone and has to finish its operation.", assume=[SC, BOUND]),
    "C09": dict(harness=["pmap"], rule=CONC, assume=[SC, BOUND]),
    "C10": dict(harness=["kcas"], rule=CONC + " In every state each thread in turn runs alone and has to finish its operation.", assume=[SC, BOUND]),
    "C11": dict(harness=["kcas"], rule=CONC + CRASH + " Crashes during recovery are explored in the same way.", assume=[SC, BOUND] + PM + ["a crash while the descriptor file is being created is not examined"]),
    "C13": dict(harness=["pm"], rule=CONC, assume=[SC, BOUND]),
    "C14": dict(harness=["pm"], rule=CONC + CRASH, assume=[SC, BOUND] + PM),

    "C20": dict(harness=["tx"], rule=CONC + CRASH, assume=[SC, BOUND] + PM),
    "C21": dict(harness=["seq"], rule=SEQ + CRASH + " One or two operations run alone, in a transaction and in an aborted one; every allocation is also made to fail.", assume=[BOUND] + PM + ["elements are 8-byte values and a class that checks its constructions, moves and destructions; sizes up to about 80"]),
    "C27": dict(harness=["chm"], rule=SEQ + CRASH + " One or two operations run alone, in a transaction and in an aborted one; every allocation is also made to fail.", assume=[BOUND] + PM),
    "C28": dict(harness=["ptr"], rule=SEQ + " " + CRASH + " With \"no memory\" each allocation fails in turn.", assume=[BOUND, "libpmemobj itself (allocation, transactions, pools, defragmentation) does what its manual says; the C++ layer is the code under test"]),
    "C26": dict(harness=["clevel"], rule=CONC + CRASH + " " + SEQ, assume=[SC, BOUND] + PM + ["concurrent clients insert distinct keys and search; updates and erasures run with the table's own thread only", "no old level is emptied after a restart (the table starts its thread when it is created)"]),
    "C25": dict(harness=["sync"], rule=CONC + " " + SEQ + " A timed wait can give up in any state; the thread's clock then shows the time it gave up at.", assume=[SC, BOUND, "the primitives of libpmemobj itself (pmemobj_mutex_*, pmemobj_rwlock_*, pmemobj_cond_*, pmemobj_volatile) do what its manual says; the wrappers are the code under test"]),
    "C18": dict(harness=["cont"], rule=CONC + " " + SEQ, assume=[SC, BOUND]),
    "C23": dict(harness=["xxh"], rule=SEQ + " Every length, alignment and keying up to the bounds is hashed; two byte contents.", assume=["the byte contents are two fixed patterns; lengths, alignments, keyings and update sequences are exhaustive within the bounds"]),
}

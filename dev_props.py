#!/usr/bin/env python3
"""Developer tool: writes properties.jsonl and MANIFEST.json from one table (so that they stay in step)."""
import json, os, subprocess
V = os.path.dirname(os.path.abspath(__file__))
import sys; sys.path.insert(0, V)
from props import PROPS
HM = "containers/cliffMap/hashMap.hpp"
P = []
def prop(id, title, stmt, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))
WHY = "The repository's tests run random operations on many threads and look at almost no result; a wrong answer needs one particular interleaving and would not be noticed. "
prop("C01", "Concurrent map operations are linearizable",
  "Every put, get, remove, conditional remove, replace, put-if-absent and increment on the persistent map takes effect atomically at one instant between its call and its return. The results of any concurrent execution are those of some sequential order of the operations on an ordinary map, and removed, absent and present keys are reported as such.",
  ["schedules", "inputs"], "All interleavings of two concurrent operations (thorough: three) on the same or colliding keys, from the empty, present and removed states of the key.",
  WHY + "No test compares results with a sequential specification.", [HM, "include/persistence.hpp", "include/marking.hpp"],
  [("lock-free probe and compare-and-swap of key and value slots", HM + ": putIfMatch, getImpl"), ("dirty-bit compare-and-swap", "include/persistence.hpp: pcas, pcas_read")],
  [("key/value slots", "one pair per slot, sentinels for empty, removed and migrated", HM + ": KVpair")], ["results of the public operations of ConcurrentHashMap"])
prop("C02", "Linearizability holds while the table grows",
  "The atomicity of every map operation also holds while the map is growing: no update made before, during or after a growth is lost, duplicated, resurrected or applied to the wrong key, whichever threads do the copying and however often the map grows again before a copy has finished.",
  ["schedules", "histories"], "All interleavings (preemption-bounded) of a growth with a concurrent operation on an old, new, removed or colliding key, including a second growth while a copier is stalled.",
  WHY + "Growth lasts microseconds and its races need a thread stalled inside the copy.", [HM],
  [("slots are marked before they are copied, late copies are discarded", HM + ": CHM::copySlot, putIfMatch"), ("chunked cooperative copying", HM + ": CHM::helpCopy, copyCheckAndPromote")],
  [("migration mark and the primed sentinels", "slot handed over to the newer table", HM)], ["results of the public operations"])
prop("C03", "Increments are never lost or applied twice",
  "N increments of a key by any threads add exactly N to its value (starting at 1 for an absent key) and each returns the value that preceded it, also while the table grows and while other operations touch the same key.",
  ["schedules", "inputs"], "All interleavings (bounded) of two to four increments by two or three threads with a concurrent put, remove, put-if-absent or get, with and without a growth.",
  WHY + "The degree test only counts over a fixed graph and prints the result.", [HM, "tests/degree.hpp"],
  [("update functions applied in the value compare-and-swap loop and carried over to newer tables", HM + ": update, Table::increment, putIfMatch")], (), ["update(key, ...) and get"])
prop("C04", "Sequential map semantics for every operation sequence",
  "With one thread, the map behaves as an ordinary map: every operation returns what the map abstraction prescribes (previous value, success, presence, size) for every sequence of operations, including sequences that fill a table, wrap its probe sequence, reuse removed keys and grow it repeatedly.",
  ["inputs", "histories"], "Every operation sequence up to depth 5 (thorough 7) over alphabets of 11 to 16 operations from five starting tables.",
  "The tests ignore the return values of nearly all operations and never use replace, conditional remove or put-if-absent.", [HM, "containers/ucfMap.hpp"],
  [("probing, tombstones, growth decision", HM + ": putIfMatch, getImpl, CHM::resize")], (), ["results of the public operations"])
prop("C05", "The size of the map is exact when it is quiescent",
  "Whenever no operation is in progress, the reported size equals the number of keys that are present and emptiness agrees with it, whatever mix of concurrent insertions, removals, updates and growths came before.",
  ["schedules", "histories"], "All interleavings of pairs of updates from three starting states; growths with a concurrent update; repeated growth.",
  "The tests print the container size without comparing it with anything.", [HM], [("one counter changed by the operation whose compare-and-swap succeeded", HM + ": putIfMatch, size")], (), ["size(), isEmpty()"])
prop("C06", "Completed and observed updates survive every crash",
  "After a crash at any point and recovery, the map holds the effect of every operation that had returned and of every operation whose effect another returned operation had observed; an operation in progress at the crash took effect completely or not at all. The recovered contents are a consistent cut of the history, never a mix.",
  ["crash_points", "schedules", "histories"], "For the explored schedules: every point at which persistent contents can change, and every combination of persisted cache-line prefixes (reduced set above a cap), followed by the real recovery.",
  "No test crashes the program; the recovery test is run without crash and only prints.", [HM, "include/persistence.hpp"],
  [("flush and fence before the dirty bit is cleared; readers persist dirty values", "include/persistence.hpp: pcas, pcas_read, PERSIST"), ("key persisted before value; slot marked before it is copied", HM)],
  [("dirty bit", "value not yet known to be persistent", "include/marking.hpp")], ["contents after recovery"])
prop("C07", "Recovery is faithful, repeatable and leaves a usable map",
  "Opening an existing map restores exactly the pairs it held, however many tables the files contain and wherever a growth had been interrupted; a crash during recovery followed by another recovery gives the same result, and the recovered map has the right size and goes on working and growing. A map created without recovery starts empty and never mixes with tables of an older one.",
  ["crash_points", "histories", "configurations"], "Every operation/restart sequence up to the depth; every crash image of growing and shrinking histories; every crash image of the recovery itself (nested).",
  "The tests never recover a map that was written by another process; restarts and crashes are not tested at all.", [HM, "containers/ucfMap.hpp"],
  [("table files numbered in creation order, scanned and linked at start-up", HM + ": ConcurrentHashMap constructor, mmapTable, getOrderedFileName")], [("fileNameCounter", "number of the next table file", "include/define.hpp")], ["contents, size and later operations after recovery"])
prop("C08", "Map operations are lock-free",
  "A thread that is stalled anywhere, inside any map operation or growth, never prevents the others from completing theirs: in every reachable state every thread, running alone, finishes its operation.",
  ["schedules"], "In every state of every explored interleaving each thread in turn is run in isolation and has to complete.",
  "A stalled thread cannot be produced by a test, and waiting loops only show when a thread is preempted at one instruction.", [HM],
  [("helping and panicked full copy", HM + ": CHM::helpCopy"), ("resizer limit back-off", HM + ": CHM::resize")], (), ["completion of operations"])
prop("C09", "No memory error, leak of tables or torn table under concurrency",
  "No operation touches memory or table files that are not allocated or mapped, no two live tables share a file, every live table has a file, and a thread that loses the race to create a table releases everything it created.",
  ["schedules"], "All bounded interleavings of two or three threads that grow the table at the same time.",
  "Losing the race to install a table needs a precise interleaving, and its damage (a leaked or wrongly unmapped table) is not looked at.", [HM],
  [("creation, mapping and release of table files", HM + ": mmapTable, munmapTable, CHM::resize")], (), ["mapped ranges, table files, descriptors"])
exec(open(os.path.join(V, "dev_props_more.py")).read()) if os.path.exists(os.path.join(V, "dev_props_more.py")) else None
NA = globals().get("NA", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
m = dict(version=1, setup_cmd="python3 check.py setup", checks=[], not_applicable=[])
for p in P:
    i = p["id"]
    if i in PROPS:
        d = PROPS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough",
            technique=d.get("technique", "stateless/explicit-state model checking of the real code (mcrun)"), level="model_checking",
            level_note=d["rule"] + " Assumes: " + "; ".join(d["assume"]) + "."))
    else:
        m["not_applicable"].append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

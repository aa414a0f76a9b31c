#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   run one check
   check.py replay <file>                run one recorded violation again, with the program's own output
   check.py setup                        build the engine and every harness

Every scenario of the property is explored exhaustively (within its bounds) by build/mcrun on the real
code of /repo, compiled into a harness library. Exit 0: nothing found. Exit 1: a line
VIOLATION property=<id> replay=<path>. Exit 2: the check itself failed."""
import concurrent.futures as cf, fcntl, fnmatch, json, os, re, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from props import PROPS  # property -> harnesses, assumptions, rule

B = os.environ.get("MC_BUILD", os.path.join(V, "build"))
JOBS = int(os.environ.get("MC_JOBS", "8"))
BUDGET = {"quick": (420, 150), "thorough": (780, 700)}  # (whole check, one scenario) in seconds


def build(harnesses):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ps = []
        r = subprocess.run([os.path.join(V, "build.sh"), "engine"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return r.stdout
        for h in harnesses:
            ps.append((h, subprocess.Popen([os.path.join(V, "build.sh"), h], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
        err = ""
        for h, p in ps:
            o, _ = p.communicate()
            if p.returncode:
                err += f"{h}: {o}\n"
        return err


def mcrun(so, prop, tier, *args, timeout=None):
    cmd = [os.path.join(B, "mcrun"), os.path.join(B, so + ".so"), prop, tier] + [str(a) for a in args]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired:
        return None, "", "timeout"


def known():
    r = []
    try:
        for l in open(os.path.join(V, "known-findings.txt")):
            m = re.match(r'known: property=(\S+) scenario="([^"]*)" message="([^"]*)" (.*)', l.strip())
            if m:
                r.append(m.groups())
    except FileNotFoundError:
        pass
    return r


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "setup":
        e = build(sorted({h for p in PROPS.values() for h in p["harness"]}))
        print(e or "built")
        return 2 if e else 0
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        e = build([d["so"]])
        if e:
            print(e)
            return 2
        os.environ["MC_DEBUG"] = "1"
        c = ",".join(map(str, d["choices"])) or "-"
        im = ";".join(",".join(map(str, i)) for i in d["image"])
        rc, o, er = mcrun(d["so"], d["property"], d["tier"], "replay", d["scenario"], c, *([im] if im else []))
        print(o + er)
        return rc
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    P = PROPS[prop]
    t0 = time.time()
    ev = os.path.join(V, "evidence")
    os.makedirs(ev, exist_ok=True)
    os.makedirs(os.path.join(B, "replay"), exist_ok=True)
    err = build(P["harness"])
    if err:
        print("the harness does not build against /repo:\n" + err[-3000:])
        return 2
    total, per = BUDGET[tier]
    jobs = []
    for so in P["harness"]:
        rc, o, er = mcrun(so, prop, tier, "list", timeout=60)
        if rc != 0:
            print("cannot list scenarios:", so, rc, er[-500:])
            return 2
        for l in o.splitlines():
            i, n = l.split("\t", 1)
            jobs.append((so, int(i), n))
    if not jobs:
        print("no scenarios")
        return 2
    kn = [k for k in known() if k[0] == prop]
    res, bad, errors, skipped = [], [], [], []
    stop = False

    def one(j):
        so, i, n = j
        left = t0 + total - time.time()
        if stop or left < 5:
            return j, None, None, ""
        lim = min(per, left)
        rc, o, er = mcrun(so, prop, tier, "run", i, f"{lim:.0f}", timeout=lim + 40)
        return j, rc, o, er

    with cf.ThreadPoolExecutor(JOBS) as ex:
        again = []
        for f in cf.as_completed([ex.submit(one, j) for j in jobs]):
            j, rc, o, er = f.result()
            if o is None:
                skipped.append(j)
                continue
            r = None
            for l in o.splitlines():
                if l.startswith("{"):
                    try:
                        r = json.loads(l)
                    except ValueError:
                        pass
            if r is None or rc not in (0, 1):
                again.append((j, rc, er))
                continue
            res.append((j, r))
            if not r["ok"]:
                bad.append((j, r))
                if not is_known(kn, r):
                    stop = True
    for j, rc, er in again:
        # a scenario that gave no answer is run again, alone
        lim = max(30, min(per, t0 + total + 60 - time.time()))
        rc2, o, er2 = mcrun(j[0], prop, tier, "run", j[1], f"{lim:.0f}", timeout=lim + 60)
        r = next((json.loads(l) for l in o.splitlines() if l.startswith("{")), None)
        if r is not None and rc2 in (0, 1):
            res.append((j, r))
            if not r["ok"]:
                bad.append((j, r))
        else:
            errors.append(f"{j[0]} {j[2]}: exit {rc}, again alone {rc2}: {er2[-400:]}")
    viol = 0
    for j, r in bad:
        k = is_known(kn, r)
        if k:
            print(f"KNOWN-FINDING: property={prop} {k[3]}")
            continue
        if r["confirmed"] != "yes":
            errors.append(f"{j[0]} {j[2]}: a reported violation did not replay: {r['message']}")
            continue
        viol += 1
        d = {"property": prop, "so": j[0], "tier": tier, "scenario": r["scenario"], "message": r["message"], "history": r["history"],
             "choices": r["schedule"], "image": r["image"]}
        path = os.path.join(B, "replay", f"{prop}-{viol}.json")
        json.dump(d, open(path, "w"), indent=1)
        print(f"{r['scenario']}: {r['message']}\n{r['history']}")
        print(f"VIOLATION property={prop} replay={path}")
    if stop:
        skipped = []
    for j in skipped:
        print(f"not explored within the time budget: {j[0]} {j[2]}")
    S = lambda k: sum(r[k] for _, r in res)
    capped = [r["scenario"] for _, r in res if r["capped"]] + [j[2] for j in skipped]
    samples = []
    for _, r in sorted(res, key=lambda x: -x[1]["outcomes"])[:3]:
        samples.append({"scenario": r["scenario"], "one_execution": r.get("sample", "").split("\n")[:40], "executions": r["executions"],
                        "distinct_outcomes": r["outcomes"], "crash_images": r["images"]})
    cov = {
        "states": max(S("states"), S("choices") + S("images") + S("sequences")),
        "transitions": S("steps"),
        "traces_validated_against_impl": S("executions") + S("recoveries"),
        "samples": samples,
        "scenarios": len(res),
        "executions_of_the_real_code": S("executions"),
        "operation_sequences": S("sequences"),
        "crash_points": S("crash_events"),
        "crash_images_recovered": S("recoveries"),
        "crashes_during_recovery": S("nested"),
        "crash_events_with_reduced_image_set": S("crash_caps"),
        "histories_judged": S("lin_checks"),
        "distinct_outcomes": S("outcomes"),
        "preemption_bounds": sorted({r["bound"] for _, r in res}),
        "longest_execution_steps": max([r["max_steps"] for _, r in res] or [0]),
        "scenarios_not_completed": capped,
        "exhaustive": not capped and not stop and S("crash_caps") == 0,
        "explanation": P["rule"],
    }
    json.dump({"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "coverage": cov,
               "assumptions": P["assume"], "wall_s": round(time.time() - t0, 2), "violations": viol},
              open(os.path.join(ev, prop + ".json"), "w"), indent=1)
    print(f"{prop} {tier}: {len(res)} scenarios, {cov['executions_of_the_real_code']} executions, {cov['states']} states, {cov['transitions']} transitions, "
          f"{cov['crash_images_recovered']} crash images, {len(capped)} not completed, {time.time() - t0:.1f} s")
    if viol:
        return 1
    for e in errors:
        print("ERROR", e)
    return 2 if errors else 0


def is_known(kn, r):
    for k in kn:
        if fnmatch.fnmatchcase(r["scenario"], k[1]) and k[2] in r["message"] and r["confirmed"] == "yes":
            return k
    return None


sys.exit(main())

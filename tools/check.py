#!/usr/bin/env python3
"""Checks a property: check.py ID [thorough | --replay FILE].

1. TLC checks the design models of the property and generates tests, while
   the harness is built with the crate, once per configuration.
2. The workload (work.py) is driven through all builds, and TLC judges what
   was observed (spec/Trace.tla).
3. What TLC rejects is a violation if it concerns the property: TAGS tells
   which clauses do, in which builds.
"""
import copy, json, os, random, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if "thorough" in sys.argv[2:]:
    os.environ["VERIF_TIER"] = "thorough"
import vlib, gen, work, models, repl
from vlib import ToolError, CONFIGS, TIER, SEED

ALL = set(CONFIGS)
NOOPT = {c for c in CONFIGS if c.endswith("0")}
OPT = ALL - NOOPT

TAGS = {
    "C01": {"panic": ALL},
    "C02": {"accept": ALL, "value": NOOPT},
    "C03": {"accept": ALL, "value": NOOPT, "msg": ALL},
    "C04": {"accept": ALL, "value": NOOPT, "vars": ALL, "msg": ALL},
    "C05": {"accept": ALL, "calls": ALL, "value": NOOPT, "msg": ALL},
    "C06": {"accept": ALL, "value": ALL, "vars": ALL, "msg": ALL},
    "C07": {"msg": ALL, "label": ALL, "help": ALL, "choices": ALL, "diag": ALL, "bounds": ALL},
    "C08": {"value": NOOPT, "unchecked": ALL, "novars": ALL},
    "C09": {"required": ALL, "vars": ALL, "removed": ALL},
    "C10": {"value": OPT, "fold": OPT, "accept": OPT, "msg": OPT},
    "C11": {"value": ALL, "methods": ALL, "removed": ALL},
    "C12": {"bind": ALL},
    "C13": {"ctx": ALL, "ctxeq": ALL, "accept": ALL, "value": NOOPT, "calls": NOOPT},
    "C14": {"declared": ALL, "choices": ALL, "accept": ALL},
    "C15": {"par": ALL, "accept": ALL, "value": ALL, "vars": ALL, "msg": ALL},
    "C16": {"reread": ALL, "value": ALL, "vars": ALL},
    "C17": {"eq": ALL},
    "C18": {"value": NOOPT, "accept": ALL},
    "C19": {"value": ALL, "accept": ALL, "bind": ALL},
    "C20": {"repl": ALL},
    "C21": {"panic": ALL, "boom": ALL, "value": ALL, "heap": ALL, "removed": ALL, "bind": ALL},
}
# how many seconds a thorough run goes on with new workloads
BUDGET = float(os.environ.get("VERIF_BUDGET", "1200"))


def counted(pid, sessions, rejections):
    """The rejections that concern the property: (session, index, build, tags)."""
    tags = TAGS[pid]
    at = {}
    for r in rejections:
        at.setdefault((r["s"], r["i"], r["cfg"]), set()).update(r["tags"])
    marked = any("note" in e and e["note"].get("t") for s in sessions for e in s["ev"])
    byid = {s["id"]: s for s in sessions}
    out = []
    for (s, i, c), ts in sorted(at.items(), key=str):
        e = byid[s]["ev"][i - 1]
        note = e.get("note", {})
        if marked and not note.get("t"):
            continue
        mine = {t for t in ts if c in tags.get(t, ())}
        if pid == "C10":
            # without optimizations it is right
            mine -= at.get((s, i, c[:-1] + "0"), set())
            if "value" in mine and at.get((s, i, c[:-1] + "0")):
                mine.discard("value")
        for b in note.get("base", []):
            seen = at.get((s, b + 1, c), set())
            if seen & {"accept", "panic"}:
                mine = set()
            mine -= seen
            if seen and "par" in mine:
                mine.discard("par")
        if mine:
            out.append((s, i, c, sorted(mine)))
    return out


# ------------------------------------------------------------------- canaries
def other(v):
    return "4045000000000000" if v != "4045000000000000" else "4046000000000000"


def corrupt(pid, e, r, cfg):
    """The observation r of the event e, made wrong; None if it can't be."""
    op = e["op"]
    r = copy.deepcopy(r)
    note = e.get("note", {})
    if r.get("k") in ("skip", "noexpr", "panic", "crash", "hang"):
        return None
    if pid == "C01" and op in ("eval", "show", "parse"):
        return {"k": "panic"}
    if pid in ("C02", "C03", "C04", "C08", "C13", "C18", "C21") and op == "eval" and r["k"] == "ok" and cfg in NOOPT and r["v"] != "nan":
        r["v"] = other(r["v"])
        return r
    if pid == "C05" and op == "eval" and r.get("calls") and cfg in NOOPT:
        r["calls"] = r["calls"][1:]
        return r
    if pid in ("C06", "C11", "C15", "C16", "C19") and op == "eval" and note.get("t") and r["k"] == "ok" and r["v"] != "nan":
        r["v"] = other(r["v"])
        return r
    if pid == "C07" and op == "parse" and r["k"] == "err":
        r["off"] += 1
        return r
    if pid == "C09" and op == "show" and r["k"] == "ok" and r["vars"] and cfg in NOOPT:
        r["vars"] = r["vars"] + ["nowhere"]
        return r
    if pid == "C10" and op == "eval" and r["k"] == "ok" and cfg in OPT and r["v"] != "nan":
        r["v"] = other(r["v"])
        return r
    if pid == "C12" and op == "bind" and r["k"] == "err":
        r["names"] = r["names"][1:]
        return r
    if pid == "C14" and op == "parse" and r["k"] == "err" and "declared" in r["m"]:
        return {"k": "ok", "show": "1", "vars": ["nowhere"], "calls": []}
    if pid == "C17" and op == "eq" and r["k"] == "bool":
        r["c"] = not r["b"]
        return r
    if pid == "C20" and op == "line" and r["k"] == "ok":
        r["v"] = other(r["v"])
        return r
    return None


def canaries(pid, sessions, obs, n=24):
    """Some sessions with one observation made wrong."""
    rng = random.Random(SEED)
    out, oobs = [], {c: [] for c in obs}
    order = list(range(len(sessions)))
    rng.shuffle(order)
    for k in order:
        if len(out) >= n:
            break
        cs = sorted(obs)
        rng.shuffle(cs)
        found = []
        for c in cs:
            for i, e in enumerate(sessions[k]["ev"]):
                bad = corrupt(pid, e, json.loads(obs[c][k][i]), c)
                if bad is not None:
                    found.append((c, i, bad))
            if found:
                break
        if not found:
            continue
        c, i, bad = rng.choice(found)
        s = dict(sessions[k])
        s["id"] = "canary-%d" % len(out)
        s["hit"] = (i + 1, c)
        out.append(s)
        for d in obs:
            o = list(obs[d][k])
            if d == c:
                o[i] = json.dumps(bad)
            oobs[d].append(o)
    return out, oobs


# -------------------------------------------------------------- known findings
DEEP = [("parentheses", "(" * 100000 + "1" + ")" * 100000), ("signs", "-" * 100000 + "1"), ("calls", "abs(" * 100000 + "1" + ")" * 100000),
        ("sum", "1" + "+1" * 200000), ("powers", "2^" * 100000 + "1"), ("open", "(" * 100000), ("column", " " * 70000 + "1+")]


def deep(out):
    """Inputs that are nested too deeply or too long: do they end the process?"""
    sessions = [{"id": i, "kind": n, "ev": [gen.parser(), gen.parse(t), {"op": "show", "x": "x"}, gen.END]} for i, (n, t) in enumerate(DEEP)]
    for cfg in ("sP0", "sP1"):
        obs = vlib.drive(cfg, sessions, 60.0)
        for s, o in zip(sessions, obs):
            for r in o:
                if json.loads(r)["k"] in ("crash", "hang", "panic"):
                    out.append((s["kind"], cfg, json.loads(r)["k"], s))


def known(pid):
    """The findings that the file lists: those with an identifier."""
    found = []
    with open(os.path.join(vlib.VERIF, "known-findings.txt")) as f:
        for line in f:
            if line.startswith(f"finding: property={pid} "):
                found.append(line.strip()[len("finding: "):])
    return found


# --------------------------------------------------------------------- running
class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.events = 0
        self.violations = []
        self.samples = []
        self.kinds = {}
        self.models = []


def observe(pid, sessions, limit=20.0):
    if pid == "C20":
        return repl.observe_repl(sessions)
    return vlib.observe(sessions, limit=limit)


def round_(pid, sessions, workdir, res, canary):
    obs = observe(pid, sessions)
    again(pid, sessions, obs)
    lines = vlib.merge(sessions, obs)
    extra = []
    if canary:
        cs, cobs = canaries(pid, sessions, obs)
        extra = cs
        lines += vlib.merge(cs, cobs)
    r = vlib.judge(lines, workdir)
    res.states += r["distinct"]
    res.transitions += r["generated"]
    res.traces += len(sessions) * len(obs)
    res.events += sum(len(s["ev"]) for s in sessions)
    for s in sessions:
        res.kinds[s["kind"]] = res.kinds.get(s["kind"], 0) + 1
    hits = counted(pid, sessions + extra, r["rejections"])
    if pid == "C15" and not [h for h in hits if not isinstance(h[0], str)]:
        hits += alone(sessions, [x for x in r["rejections"] if not isinstance(x["s"], str)], workdir + "/alone")
    if canary:
        caught = {h[0] for h in hits if isinstance(h[0], str)}
        need = [s["id"] for s in extra]
        found = any(not isinstance(h[0], str) for h in hits)
        if not found and (not need or len(caught) < max(1, len(need) // 3)):
            raise ToolError(f"of the wrong observations {need}, only {sorted(caught)} were rejected")
        res.canaries = (len(caught), len(need))
    byid = {s["id"]: k for k, s in enumerate(sessions)}
    for s, i, c, tags in hits:
        if isinstance(s, str):
            continue
        k = byid[s]
        res.violations.append({"session": sessions[k], "index": i, "build": c, "clauses": tags,
                               "observed": [obs[c][k][j] for j in range(i)][-3:]})
    for k in random.Random(SEED).sample(range(len(sessions)), min(3, len(sessions))):
        evs = sessions[k]["ev"]
        res.samples.append({"kind": sessions[k]["kind"], "events": evs[:8],
                            "observed": {c: [obs[c][k][j] for j in range(min(8, len(evs)))] for c in sorted(obs)[:2]}})
    del res.samples[6:]


def again(pid, sessions, obs):
    """What hung or crashed is run again, alone and with more time; once some
    have done so again, or it takes long, the other ones are believed."""
    confirmed = 0
    end = time.time() + 150
    for c in sorted(obs):
        for k in range(len(sessions)):
            if confirmed >= 3 or time.time() > end:
                return
            bad = [o for o in obs[c][k] if o and ('"k":"hang"' in o or '"k": "hang"' in o or '"k":"crash"' in o or '"k": "crash"' in o)]
            if not bad:
                continue
            if pid == "C20":
                run = repl.batch if sessions[k]["kind"] == "batch" else repl.interactive
                obs[c][k] = [json.dumps(o) for o in run(c, sessions[k]["ev"], 25.0)]
            else:
                obs[c][k] = vlib.drive(c, [sessions[k]], 60.0)[0]
            confirmed += any('"hang"' in o or '"crash"' in o for o in obs[c][k] if o)


DEFINES = {"ctx", "var", "fn", "declare", "symbols", "cclone", "parser", "pclone"}


def alone(sessions, rejections, workdir):
    """Of the rejected parses and evaluations, those that are right when only
    they are done, by a new process: they depend on what went before."""
    byid = {s["id"]: s for s in sessions}
    todo, seen = [], {}
    for r in rejections:
        s, i = r["s"], r["i"]
        if s not in byid or seen.get(s, 0) > 2:
            continue
        ev = byid[s]["ev"]
        e = ev[i - 1]
        if e["op"] not in ("parse", "eval"):
            continue
        own = [k for k in range(i - 1) if ev[k].get("x") == e["x"] and ev[k]["op"] in ("parse", "simpself") or ev[k].get("y") == e["x"]]
        if e["op"] == "eval" and (not own or ev[own[-1]]["op"] != "parse"):
            continue
        keep = [k for k in range(i - 1) if ev[k]["op"] in DEFINES] + ([own[-1]] if e["op"] == "eval" else [])
        seen[s] = seen.get(s, 0) + 1
        todo.append((r, [{m: w for m, w in v.items() if m != "times"} for v in [ev[k] for k in sorted(keep)] + [e]]))
        if len(todo) >= 40:
            break
    out = []
    for c in sorted({r["cfg"] for r, _ in todo}):
        mine = [(r, {"id": n, "kind": "alone", "ev": ev}) for n, (r, ev) in enumerate(todo) if r["cfg"] == c]
        obs = {c: [vlib.drive(c, [s])[0] for _, s in mine]}
        j = vlib.judge(vlib.merge([s for _, s in mine], obs), workdir)
        bad = {x["s"] for x in j["rejections"]}
        out += [(r["s"], r["i"], c, ["history"]) for r, s in mine if s["id"] not in bad]
    return out


def report(pid, res, seed):
    """Writes the replay of the violation with the shortest session."""
    d = os.path.join(vlib.VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    v = min(res.violations, key=lambda v: (v["index"], len(json.dumps(v["session"]["ev"][:v["index"]]))))
    builds = sorted({w["build"] for w in res.violations if w["session"] is v["session"] and w["index"] == v["index"]})
    path = os.path.join(d, f"{pid}.json")
    with open(path, "w") as f:
        json.dump({"property": pid, "seed": seed, "builds": builds, "clauses": v["clauses"], "index": v["index"], "observed": v["observed"],
                   "session": dict(v["session"], ev=v["session"]["ev"][:v["index"]]) if pid != "C20" else v["session"]}, f, indent=1)
    e = v["session"]["ev"][v["index"] - 1]
    texts = [x.get("text") for x in v["session"]["ev"][:v["index"]] if x["op"] in ("parse", "line")]
    print(f"  {len(res.violations)} observations are rejected; clauses {v['clauses']} in {builds}; operation {json.dumps(e)[:300]}"
          f" after the text {texts[-1]!r:.200}" if texts else "")
    print(f"  observed: {v['observed'][-1][:400]}")
    print(f"VIOLATION property={pid} replay={path}")


def build_all(pid):
    errs = []

    def one(f):
        try:
            f()
        except Exception as e:  # noqa: BLE001
            errs.append(e)

    # the reference functions come from the harness, for the REPL too
    fs = [vlib.build] if pid != "C20" else [lambda: vlib.build(["sP0", "nP0"]), repl.build_repls]
    ts = [threading.Thread(target=one, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    return ts, errs


def check(pid):
    t0 = time.time()
    workdir = os.path.join(vlib.BUILD, "work", pid)
    os.makedirs(workdir, exist_ok=True)
    os.makedirs(vlib.BUILD, exist_ok=True)
    with open(os.path.join(vlib.BUILD, "lock-java"), "w") as lock:
        vlib.fcntl.flock(lock, vlib.fcntl.LOCK_EX)
        vlib.build_java()
    threads, errs = build_all(pid)
    results = models.run_models(models.MODELS[pid], workdir, TIER)
    for t in threads:
        t.join()
    if errs:
        raise errs[0]
    res = Result()
    for n, r in sorted(results.items()):
        res.states += r["distinct"]
        res.transitions += r["generated"]
        res.models.append({"model": n, "states": r["distinct"], "transitions": r["generated"], "seconds": round(r["wall"], 1),
                           "result": "violates " + r["model"].expect + ", as it should" if r["model"].expect else
                           "generates tests" if r["model"].test else "holds"})
    tests = models.tests_of(results)
    t1 = time.time()
    k = 0
    while True:
        seed = SEED if k == 0 else SEED * 1000003 + k
        rng = random.Random(f"{pid}-{seed}")
        S = work.WORK[pid](rng, 1 if TIER == "quick" else 3, tests)
        round_(pid, S.all, workdir, res, k == 0)
        k += 1
        if res.violations or TIER == "quick" or time.time() - t1 > BUDGET:
            break
    found = []
    if pid == "C01" and not res.violations:
        deep(found)
        lines = known("C01")
        for kind, cfg, what, s in found:
            if not any(f"input={kind} " in l for l in lines):
                res.violations.append({"session": s, "index": 2, "build": cfg, "clauses": ["panic"], "observed": [what]})
        for l in lines:
            if any(f"input={kind} " in l for kind, _, _, _ in found):
                print("KNOWN-FINDING: " + l)
    if vlib.CUT and not res.violations:
        raise ToolError(f"the builds {sorted(set(vlib.CUT))} took too long for all the sessions to be run")
    coverage = {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces,
                "operations_judged": res.events, "sessions_by_kind": res.kinds, "models": res.models, "rounds": k,
                "builds": repl.REPLS if pid == "C20" else sorted(CONFIGS), "generated_tests": {a: len(b) for a, b in tests.items() if b},
                "wrong_observations_rejected": "%d of %d" % res.canaries, "clauses": sorted(TAGS[pid]), "samples": res.samples}
    if found:
        coverage["known_findings_seen"] = len(found)
    write_evidence(pid, coverage, time.time() - t0, len(res.violations))
    if res.violations:
        report(pid, res, SEED)
        return 1
    print(f"{pid}: {len(results)} models, {res.traces} traces with {res.events} operations in {k} rounds, {res.states} states, "
          f"{time.time() - t0:.0f} s")
    return 0


def write_evidence(pid, coverage, wall, violations):
    d = os.path.join(vlib.VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump({"property": pid, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": coverage,
                   "assumptions": ["TLC, the JDK and the overridden operators (java/) are right",
                                   "the standard library's functions, called by the harness's own program, are the reference for transcendental functions",
                                   "the workload samples the inputs: what it doesn't reach isn't judged"],
                   "wall_s": round(wall, 1), "violations": violations}, f, indent=1)


def replay(pid, path):
    with open(path) as f:
        d = json.load(f)
    vlib.build_java()
    threads, errs = build_all(pid)
    for t in threads:
        t.join()
    if errs:
        raise errs[0]
    workdir = os.path.join(vlib.BUILD, "work", pid + "-replay")
    s = d["session"]
    obs = observe(pid, [s], 60.0)
    r = vlib.judge(vlib.merge([s], obs), workdir)
    hits = counted(pid, [s], r["rejections"])
    for h in hits:
        print(h, obs[h[2]][0][h[1] - 1][:400])
    if hits:
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print("not reproduced")
    return 0


def main():
    pid = sys.argv[1]
    try:
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            code = replay(pid, sys.argv[3])
        else:
            code = check(pid)
    except ToolError as e:
        print(f"the check couldn't be made: {e}")
        code = 2
    sys.exit(code)


if __name__ == "__main__":
    main()

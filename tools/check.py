#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]

Decides one property by symbolic execution of the real code (see DESIGN.md) and
writes evidence/<PROPERTY>.json.  Exit 0: held on everything explored; 1: a
violation, replayed natively, was found; 2: the check itself failed."""
import json, os, resource, shutil, subprocess, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
from props import PROPS

VERIF = build.VERIF
NATIVE_TIMEOUT = 20


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (8 << 20, 8 << 20))
    except (ValueError, OSError):
        pass


def native_runs(exe, harness, tier, runs):
    """Runs the harness natively on each input vector (batched, one at a time on
    trouble). Returns one result per run."""
    res = []
    todo = list(runs)
    while todo:
        text = "".join("%s %d %s\n" % (harness, tier, " ".join(map(str, r))) for r in todo)
        timeout = NATIVE_TIMEOUT + len(todo)
        scratch = VERIF + "/build/native-cwd"
        os.makedirs(scratch, exist_ok=True)
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, preexec_fn=limits, cwd=scratch,
                             env={"PATH": os.environ.get("PATH", ""), "RUST_BACKTRACE": "0", "TMPDIR": scratch})
        timed = False
        try:
            out, _ = p.communicate(text.encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            timed = True
            p.kill()
            out, _ = p.communicate()
        shutil.rmtree("%s/hnative-%d" % (scratch, p.pid), ignore_errors=True)
        got = []
        for l in out.decode("utf-8", "replace").splitlines():
            if l.startswith("{\"end\""):
                try:
                    got.append(json.loads(l))
                except ValueError:
                    pass
        res += got
        todo = todo[len(got):]
        if todo:
            if not timed and p.returncode == 0:
                raise build.BuildError("native replay printed too few results for " + harness)
            res.append({"end": "timeout" if timed else "crash", "failed": [], "obs": [], "diverged": False, "panic": "signal %s" % p.returncode})
            todo = todo[1:]
    return res


def reproduced(v, r):
    k = v["kind"]
    if k == "assert":
        return v["id"] in r["failed"]
    if k == "panic":
        return r["end"] == "panic"
    if k == "hang":
        return r["end"] in ("timeout", "crash")
    return r["end"] in ("panic", "crash", "timeout")


def known():
    """known: property=ID harness=H kind=K id=N what..."""
    out = []
    try:
        for l in open(VERIF + "/known_findings.txt"):
            if not l.startswith("known:"):
                continue
            w = l.split()
            kv = dict(x.split("=", 1) for x in w[1:5])
            kv["what"] = " ".join(w[5:])
            out.append(kv)
    except OSError:
        pass
    return out


def assertion(h, v):
    """The source text of the assertion that failed."""
    if v["kind"] != "assert":
        return ""
    lines = [l.strip() for l in open(h["src"], encoding="utf-8")]
    start = [i for i, l in enumerate(lines) if l.startswith("pub fn %s(" % h["name"])]
    tail = ", %s)" % v["id"]
    hits = [l for l in lines[start[0]:] + lines[:start[0]] if "check(" in l and tail in l]
    return "`%s` in %s is false" % (hits[0].rstrip(";"), os.path.basename(h["src"])) if hits else "assertion %s is false" % v["id"]


def demangle(names):
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names).encode(), stdout=subprocess.PIPE)
        return p.stdout.decode().splitlines()
    except OSError:
        return names


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3:] # development: a subset of harnesses
    T = 1 if tier == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = PROPS[pid]
    t0 = time.time()
    os.makedirs(VERIF + "/evidence/replay", exist_ok=True)
    harnesses = [h for h in spec["harnesses"] if (T or not h.get("thorough_only")) and (not only or h["name"] in only)]
    kinds = sorted({h["crate"] for h in harnesses})
    exe = build.engine()
    need = {(h["crate"], h["module"]) for h in spec["harnesses"]}
    arch, gone = build.archives(kinds, need)
    need -= gone
    skipped = [h["name"] for h in harnesses if (h["crate"], h["module"]) in gone]
    harnesses = [h for h in harnesses if h["name"] not in skipped]
    if not harnesses:
        raise build.BuildError("no harness compiles against the current tree")
    usable = [h for h in spec["harnesses"] if (h["crate"], h["module"]) in need]
    mods = {k: build.module("%s-%s" % (pid, k), arch[k], [h["name"] for h in usable if h["crate"] == k]) for k in arch}
    nat = build.native(need)
    t_build = time.time() - t0
    budget = spec.get("budget", (600, 3 * 3600))[T]
    tot = {k: 0 for k in ("paths", "killed", "panicked", "forks", "steps", "z3_queries", "z3_sat", "z3_unsat", "cache_hits", "domain_decisions", "cross_checked", "assert_queries", "assert_folded")}
    solver_s = 0.0
    per = []
    viols, knowns, notes, fatal = [], [], [], []
    funcs = set()
    samples_out = []
    validated = 0
    complete = not skipped
    if skipped:
        notes.append("not run, the harness no longer compiles against the tree: " + " ".join(skipped))
    for h in harnesses:
        secs = h.get("secs", (240, 3000))[T]
        left = budget - (time.time() - t0 - t_build)
        secs = int(max(20, min(secs, left)))
        out = "%s/build/%s.json" % (VERIF, h["name"])
        cmd = [exe, mods[h["crate"]], "--entry", h["name"], "--tier", str(T), "--secs", str(secs), "--out", out, "--samples", str(h.get("samples", 24))]
        cmd += h.get("args", [])
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=secs + 60)
        except subprocess.TimeoutExpired:
            notes.append("%s: exploration not finished (the engine did not stop at its time limit)" % h["name"])
            complete = False
            continue
        if p.returncode != 0:
            fatal.append("engine failed on %s (rc %s): %s" % (h["name"], p.returncode, p.stdout.decode("utf-8", "replace")[-1500:]))
            continue
        r = json.load(open(out))
        for k in tot:
            tot[k] += r[k]
        solver_s += r["z3_seconds"]
        funcs.update(r["functions"])
        complete = complete and r["complete"]
        if not r["complete"]:
            notes.append("%s: exploration not finished (%s)" % (h["name"], "time limit" if r["timed_out"] else "unsupported operations on some paths"))
        for e, n in r["errors"]:
            notes.append("%s: %d path(s) dropped: %s" % (h["name"], n, e))
        # every violation is replayed against the real code
        hv = 0
        for v in r["violations"]:
            hv += 1
            res = native_runs(nat, h["name"], T, [v["inputs"]])[0]
            rec = {"property": pid, "harness": h["name"], "tier": T, "kind": v["kind"], "id": v["id"], "message": v["msg"], "inputs": v["inputs"], "native": res}
            if not reproduced(v, res):
                if v["kind"] == "hang" and res["end"] in ("done", "panic_ok") and not res["failed"]:
                    # a limit of the engine on a run that ends; the path is not decided
                    hv -= 1
                    r["complete"] = complete = False
                    notes.append("%s: a path was given up: %s, inputs %s" % (h["name"], v["msg"][:120], v["inputs"]))
                    continue
                fatal.append("%s: solver counterexample does not reproduce natively: %s" % (h["name"], json.dumps(rec)[:1500]))
                continue
            m = [k for k in known() if k["property"] == pid and k["harness"] == h["name"] and k["kind"] == v["kind"] and str(v["id"]) == k["id"]]
            path = "%s/evidence/replay/%s-%s-%d.json" % (VERIF, pid, h["name"], len(viols) + len(knowns))
            rec["replay_cmd"] = "echo '%s %d %s' | SYM_LOUD=1 %s" % (h["name"], T, " ".join(map(str, v["inputs"])), nat)
            rec["assertion"] = assertion(h, v)
            with open(path, "w") as f:
                json.dump(rec, f, indent=1)
            (knowns if m else viols).append((rec, path, m[0]["what"] if m else ""))
        # sampled paths: the native run on the solver's model takes the same course
        ss = [s for s in r["samples"] if s["end"] in ("done", "panic_ok")]
        nr = native_runs(nat, h["name"], T, [s["inputs"] for s in ss]) if ss else []
        bad = 0
        for s, n in zip(ss, nr):
            ok = n["end"] == s["end"] and not n["diverged"] and (n["obs"] == s["obs"] or h.get("real"))
            if hv:
                ok = ok or n["failed"] or n["end"] != "done"
            elif n["failed"]:
                ok = False
            if ok:
                validated += 1
            else:
                bad += 1
                if bad <= 2:
                    (notes if viols else fatal).append("%s: native run disagrees with the symbolic path: %s vs %s" % (h["name"], json.dumps(s)[:600], json.dumps(n)[:600]))
        if r["complete"] and not hv:
            for x in h.get("reach", []):
                if r["reach"].get(str(x), 0) == 0:
                    fatal.append("%s: marker %d never reached (vacuous check)" % (h["name"], x))
        if r["paths"] == 0 and not r["violations"]:
            fatal.append("%s: no path explored" % h["name"])
        for s in ss[:3]:
            samples_out.append({"harness": h["name"], "inputs": s["inputs"], "observed": s["obs"][:40]})
        per.append({"harness": h["name"], "what": h["what"], "bounds": h["bounds"][T] if isinstance(h["bounds"], (list, tuple)) else h["bounds"], "complete": r["complete"],
                    "paths": r["paths"], "paths_killed_by_assumption": r["killed"], "paths_ending_in_allowed_panic": r["panicked"], "forks": r["forks"], "instructions": r["steps"],
                    "z3_queries": r["z3_queries"], "z3_seconds": r["z3_seconds"], "domain_decisions": r["domain_decisions"], "assertions_by_query": r["assert_queries"],
                    "assertions_folded": r["assert_folded"], "seconds": r["seconds"], "reach": r["reach"]})
        print("%-28s %s paths=%d forks=%d z3=%d (%.1fs) dom=%d asserts=%d/%d %.1fs%s" % (h["name"], "complete" if r["complete"] else "PARTIAL", r["paths"], r["forks"], r["z3_queries"], r["z3_seconds"],
              r["domain_decisions"], r["assert_queries"], r["assert_folded"], r["seconds"], " VIOL=%d" % hv if hv else ""))
    names = sorted({n.split("::{")[0] for n in demangle(sorted(funcs)) if "tokengeex" in n or "hcli" in n or "hpy" in n})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"] + tot["killed"] + tot["panicked"], "transitions": tot["forks"], "traces_validated_against_impl": validated,
            "samples": samples_out or ["none"],
            "exhaustive": complete and not fatal,
            "explanation": "states: symbolic path end points explored; transitions: branch points at which both sides are feasible. Within the bounds every path is followed and every assertion is decided for all values of the symbolic inputs on the path.",
            "queries_discharged": tot["z3_queries"], "queries_sat": tot["z3_sat"], "queries_unsat": tot["z3_unsat"], "solver_seconds": round(solver_s, 3),
            "byte_domain_decisions": tot["domain_decisions"], "domain_decisions_cross_checked_by_z3": tot["cross_checked"], "query_cache_hits": tot["cache_hits"],
            "assertions_decided_by_query": tot["assert_queries"], "assertions_folded_to_true": tot["assert_folded"], "instructions_executed": tot["steps"],
            "functions_encoded": names[:400], "functions_encoded_total": len(funcs), "harnesses": per, "outside_the_bounds": spec.get("outside", ""),
        },
        "assumptions": spec.get("assumptions", []) + notes,
        "wall_s": round(time.time() - t0, 2), "violations": len(viols),
    }
    with open("%s/evidence/%s.json" % (VERIF, pid), "w") as f:
        json.dump(ev, f, indent=1)
    for n in notes:
        print("NOTE " + n)
    seen = set()
    for rec, path, what in knowns:
        if what not in seen:
            print("KNOWN-FINDING: property=%s %s" % (pid, what))
            seen.add(what)
    for rec, path, _ in viols:
        print("%s in %s: %s inputs=%s native=%s" % (rec["kind"], rec["harness"], rec["assertion"] or rec["message"], rec["inputs"], rec["native"].get("panic") or rec["native"]["end"]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    for f in fatal:
        print("CHECK-ERROR " + f)
    print("%s %s: build %.1fs, total %.1fs" % (pid, tier, t_build, time.time() - t0))
    if viols:
        return 1
    return 2 if fatal else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("CHECK-ERROR %s" % e)
        sys.exit(2)

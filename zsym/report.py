"""Command line, evidence files, violation reporting."""
import importlib
import json
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def known():
    """open findings: set of (property, obligation, label)"""
    out = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) obligation=(\S+) label=\"([^\"]*)\" (.*)", l)
            if m:
                out[(m.group(1), m.group(2), m.group(3))] = m.group(4).strip()
    return out


def main(argv):
    prop = None
    tier = os.environ.get("VERIF_TIER", "quick")
    only = []
    verbose = False
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--only":
            only.append(next(it))
        elif a == "-v":
            verbose = True
        else:
            prop = a
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from checks import registry, props
    from . import core, build
    from mpmath import __version__ as mpv
    import z3
    slug = props.SLUG.get(prop, prop)
    prop = props.CID[slug]
    fn, bounds, assumptions = registry.CHECKS[slug]
    t0 = time.time()
    obs = fn()
    if only:
        obs = [o for o in obs if any(re.search(x, o.name) for x in only)]
    try:
        R = core.run_check(prop, obs, tier, seed)
    except build.BuildError as ex:
        print("build of /repo for checking failed:\n%s" % ex)
        return 2
    res = R["results"]
    kn = known()
    goals = proved = undecided = viol_n = 0
    und = []
    funcs = set()
    q = dict(queries=0, time=0.0, unsat=0, sat=0, unknown=0, trivial=0)
    states = steps = valid = 0
    samples = []
    viols = []
    errors = []
    notes = []
    for r in res:
        for g in r["goals"]:
            goals += 1
            if g["status"] == "proved":
                proved += 1
            elif g["status"] == "undecided":
                undecided += 1
                und.append("%s: %s (%s)" % (r["name"], g["label"], g["how"]))
        funcs |= set(f for f in r.get("funcs", []) if not f.startswith("h_"))
        for k in q:
            q[k] += r.get("stats", {}).get(k, 0)
        states += r.get("paths", 0)
        steps += r.get("steps", 0)
        valid += r.get("validated", 0) or 0
        if r.get("error"):
            errors.append("%s: %s" % (r["name"], r["error"]))
            undecided += 1
        if r.get("vacuous"):
            errors.append("%s: no input satisfies the precondition" % r["name"])
        if r.get("mismatches"):
            errors.append("%s: %d of the validation runs disagree with the native build" % (r["name"], r["mismatches"]))
        for n in r.get("notes", []):
            notes.append("%s: %s" % (r["name"], n))
        if r["goals"] and len(samples) < 6:
            samples.append(dict(obligation=r["name"], goals=[dict(label=g["label"], status=g["status"], how=g["how"]) for g in r["goals"][:3]],
                                paths=r.get("paths"), instructions=r.get("steps")))
        viols += r["violations"]
        u = r.get("uncompilable")
        if u and (slug in ("api-totality", "components-and-swizzles") or u["obligation"].startswith("configuration_")):
            viols.append(u)
    # one report per obligation and label
    seen = set()
    newv = []
    for v in viols:
        k = (prop, v["obligation"], v["label"])
        if k in seen:
            continue
        seen.add(k)
        if k in kn:
            print("KNOWN-FINDING: property=%s %s / %s: %s" % (prop, v["obligation"], v["label"], kn[k]))
            continue
        newv.append(v)
    rdir = os.path.join(HERE, "replays")
    if newv:
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, violations=newv), f, indent=1)
        for v in newv[:12]:
            print("  %s / %s: %s" % (v["obligation"], v["label"], v["why"]))
            print("     code: %s" % " ".join(v["code"].split())[:200])
            print("     inputs: %s" % json.dumps([{"a": c["a"], "n": c["n"]} for c in v["inputs"]])[:300])
            print("     native: %s" % json.dumps(v["native"])[:300])
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=states, transitions=steps, traces_validated_against_impl=valid,
                  samples=samples,
                  obligations=goals, discharged=proved, undecided=undecided,
                  harnesses=len(res),
                  undecided_list=und[:60], errors=errors[:40],
                  functions_encoded=len(funcs), functions=sorted(demangle(funcs))[:4000],
                  bounds=bounds,
                  solver=dict(queries=q["queries"], unsat=q["unsat"], sat=q["sat"], unknown=q["unknown"],
                              decided_by_term_identity=q["trivial"], seconds=round(q["time"], 2), z3=z3.get_version_string()),
                  checker_cmd="./run.py %s --tier %s" % (prop, tier),
                  explanation="states = end states of symbolic paths through the harness and the library code it calls; "
                              "transitions = LLVM instructions executed symbolically; obligations = claims per end state plus "
                              "infeasibility of every error path; traces_validated_against_impl = concrete runs of the "
                              "native build compared bit for bit with the encoding",
                  notes=notes[:40]),
              assumptions=assumptions, wall_s=round(wall, 2), violations=len(newv))
    if not only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s [%s]: %d obligations, %d discharged, %d undecided, %d violated; %d harnesses, %d functions, %d validation runs; "
          "%d solver queries in %.1f s; wall %.1f s" %
          (prop, tier, goals, proved, undecided, len(newv), len(res), len(funcs), valid, q["queries"], q["time"], wall))
    for u in und[:40 if verbose else 8]:
        print("  undecided: " + u)
    for e in errors[:40 if verbose else 8]:
        print("  note: " + e)
    if verbose:
        for n in notes[:20]:
            print("  note: " + n)
        for r in res:
            if r.get("trace"):
                print(r["trace"])
            if r.get("mismatch"):
                print(r["name"], r["mismatch"])
            for g in r["goals"]:
                if g.get("t", 0) > 3:
                    print("  slow: %s %s %.1f %s" % (r["name"], g["label"], g["t"], g["how"]))
    if newv:
        print("VIOLATION property=%s replay=%s" % (prop, os.path.join(rdir, prop + ".json")))
        return 1
    if proved == 0:
        print("nothing could be decided")
        return 2
    return 0


def demangle(names):
    import subprocess
    names = sorted(names)
    try:
        p = subprocess.run(["c++filt"], input="\n".join(names), text=True, stdout=subprocess.PIPE)
        return [x for x in p.stdout.split("\n") if x]
    except OSError:
        return names

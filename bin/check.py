#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Decides one property: explores its TLA+ model(s) with TLC, runs the calls TLC
and the seeded generator produce on the real library, and has TLC validate
every recorded call against the specification.  See DESIGN.md.
"""
import hashlib, json, os, random, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gen
import huge
import models
import scope
from run_trace import *

EVID = os.path.join(VERIF, "evidence")


def known():
    """Known findings: lines 'property=<id> op=<op> kind=<kind> key=<hash> <what>'."""
    res = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", ln)
            if m:
                res.append(m.groups())
    return res


def key_of(lines, idx):
    """Identifies a failing call by the call and its operands, not by names."""
    e = json.loads(lines[idx])
    ty = json.loads(lines[0])["ty"]
    c = {k: v for k, v in e.items() if k not in ("post", "m", "v", "a", "d", "out")}
    return hashlib.sha1(json.dumps([ty, c, e.get("post")], sort_keys=True).encode()).hexdigest()[:16]


def main():
    t0 = time.time()
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build()
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return replay(prop, sys.argv[3])
    os.makedirs(EVID, exist_ok=True)
    budget = 600 if tier == "thorough" else 45
    tot = dict(states=0, transitions=0, events=0, segments=0)
    ops = {}
    kinds = set()
    samples = []
    model_notes = []
    viol = []
    seen_known = set()

    # 1. the model, and the calls its exploration yields
    msegs = []
    for m in models.for_property(prop, tier, seed):
        r = models.run(m, tlc, stats)
        tot["states"] += r["states"]
        tot["transitions"] += r["transitions"]
        model_notes.append({k: r[k] for k in ("model", "states", "transitions", "inputs", "exhaustive", "bounds")})
        msegs += r["segments"]

    def batch(segs, origin):
        ev = drive(segs)
        rej, st, ge = validate_all(ev)
        tot["states"] += st
        tot["transitions"] += ge
        tot["segments"] += len(ev)
        for _, lines in ev:
            tot["events"] += len(lines) - 1
            for ln in lines[1:]:
                m = re.match(r'\{"op": ?"(\w+)"', ln)
                if m:
                    ops[m.group(1)] = ops.get(m.group(1), 0) + 1
        for i, r in rej:
            lines = ev[i][1]
            if not scope.in_scope(prop, json.loads(lines[r.idx]), r.kind):
                continue
            k = key_of(lines, r.idx)
            hit = [f for f in known() if f[0] == prop and f[1] == k]
            if hit:
                if k not in seen_known:
                    seen_known.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (prop, hit[0][2]))
                continue
            viol.append((origin, lines, r))
        if len(samples) < 3:
            for _, lines in ev[:: max(1, len(ev) // 3)][:3 - len(samples)]:
                samples.append([json.loads(x) for x in lines[:6]])

    if msegs:
        batch(msegs, "model")
    # 2. the seeded generator
    rounds = 0
    count = gen.QUICK.get(prop, 1500)
    large, runs = huge.QUICK.get(prop, 16), huge.RUNS.get(prop, 16)
    while not viol:
        sub = "%d" % seed if rounds == 0 else "%d.%d" % (seed, rounds)
        t1 = time.time()
        batch(list(gen.segments(prop, sub, count)) + list(huge.segments(prop, sub, large, runs)), "generator %s" % sub)
        rounds += 1
        if tier != "thorough" or time.time() - t0 + (time.time() - t1) * 1.2 > budget:
            break

    files = []
    if viol:
        os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
        done = set()
        for origin, lines, r in viol:
            if (r.op, r.kind) in done or len(done) >= 5:
                continue
            done.add((r.op, r.kind))
            path = os.path.join(EVID, "replay", "%s-%s-%s.ndjson" % (prop, r.op, r.kind))
            with open(path, "w") as f:
                f.write("".join(x + "\n" for x in lines[:r.idx + 1]))
            e = json.loads(lines[r.idx])
            print("call %s rejected by the specification (%s%s), %s" % (r.op, r.kind, "; " + r.note if r.note else "", origin))
            print("   " + json.dumps(e)[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
            files.append(path)
    evid = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": tot["segments"],
            "evaluations": tot["events"],
            "rule": "one evaluation is one call on the real library judged by TLC against the relation the specification gives for it",
            "calls_by_operation": dict(sorted(ops.items())),
            "models": model_notes,
            "samples": samples,
        },
        "assumptions": scope.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("%s: %d states, %d calls in %d histories, %.0f s%s" % (
        prop, tot["states"], tot["events"], tot["segments"], time.time() - t0,
        "" if not viol else ", %d rejected" % len(viol)))
    return 1 if viol else 0


def replay(prop, path):
    cmds = []
    for ln in open(path):
        e = json.loads(ln)
        cmds.append({k: v for k, v in e.items() if k not in ("out", "post", "m", "v")})
    ev = drive([cmds])
    rej, _, _ = validate_all(ev)
    for i, r in rej:
        print("rejected: %s %s" % (r.op, r.kind), ev[i][1][r.idx])
    if any(scope.in_scope(prop, json.loads(ev[i][1][r.idx]), r.kind) for i, r in rej):
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as ex:
        print("check error: %s" % ex)
        sys.exit(2)

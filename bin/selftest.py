#!/usr/bin/env python3
"""selftest.py [SEED [COUNT]]: does the trace specification notice?

Takes recorded histories, falsifies one thing in the last call of each (a value,
an index, a pointer, a dimension, the number of entries, the outcome, an operand
after the call, a lost entry) and has TLC validate them: every one must be
rejected at that call.  Left out is what the specification leaves open: the
order of entries at one position, stored zeros, places of a buffer that are not
written, flags of nodes without entries.  Prints what is accepted; exits 1 if
anything is.  No registered check uses this; it shows that the binding is not
vacuous.
"""
import collections, copy, json, random, sys

import gen
from run_trace import *


def leaves(o, path=()):
    if isinstance(o, dict):
        for k in sorted(o):
            yield from leaves(o[k], path + (k,))
    elif isinstance(o, list):
        for k, v in enumerate(o):
            yield from leaves(v, path + (k,))
    elif not isinstance(o, str) or path[-1] != "f":
        yield path, o


def put(o, path, v):
    for k in path[:-1]:
        o = o[k]
    o[path[-1]] = v


def zero(v):
    return v == 0 or v == [0, 0]


def junk(v):
    return type(v) is int and (abs(v) >= 10 ** 9 or abs(v) == 99)


def at(m):
    """The positions of the entries."""
    if m["f"] == "coo":
        return list(zip(m["i"], m["j"]))
    return [(k, m["j"][t]) for k in range(len(m["p"]) - 1) for t in range(m["p"][k], m["p"][k + 1])]


def falsify(e, r):
    """Yields (kind, event) for some single falsifications of an event."""
    out = []
    for part in ("m", "v", "post"):
        if part not in e:
            continue
        ls = list(leaves(e[part], (part,)))
        names = collections.defaultdict(list)
        for p, v in ls:
            names[next((q for q in reversed(p) if isinstance(q, str)), part)].append((p, v))
        for nm, c in names.items():
            if part == "v" and e["op"].endswith("_diagonal"):
                c = [t for t in c if not junk(t[1])]
            if part == "v" and e["op"] in ("k_csr_diagonal", "k_csc_diagonal"):
                a = e["post"][0]
                n = min(a["r"], a["c"] - e["k"]) if e["k"] >= 0 else min(a["r"] + e["k"], a["c"])
                c = [t for t in c if not zero(t[1]) and t[0][1] < n]
            if part == "m" and nm in ("i", "j") and e["m"].get("x"):
                c = [t for t in c if not zero(e["m"]["x"][t[0][-1]])]
            if part == "v" and e["op"] in ("k_gcomp", "csr_cc"):
                c = [t for t in c if t[1] >= 0]
            if part == "m" and nm == "p" and any(map(zero, e["m"]["x"])):
                c = []
            if not c:
                continue
            p, v = r.choice(c)
            w = (not v) if isinstance(v, bool) else v + "x" if isinstance(v, str) else v + r.choice([1, -1])
            q = copy.deepcopy(e)
            put(q, p, w)
            out.append((part + "." + nm, q))
    m = e.get("m")
    if m and m["f"] in ("coo", "csr", "csc") and not all(map(zero, m["x"])):
        # an entry too few
        q = copy.deepcopy(e)
        k = r.choice([k for k, v in enumerate(m["x"]) if not zero(v)])
        for a in ("i", "j", "x"):
            if a in q["m"]:
                del q["m"][a][k]
        q["m"]["n"] -= 1
        if "p" in m:
            q["m"]["p"] = [t - (t > k) for t in m["p"]]
        out.append(("lost", q))
        # two values swapped
        s = at(m)
        d = [(a, b) for a in range(len(s)) for b in range(a) if m["x"][a] != m["x"][b] and s[a] != s[b]]
        if d and len(m["x"]) < 50:
            a, b = r.choice(d)
            q = copy.deepcopy(e)
            q["m"]["x"][a], q["m"]["x"][b] = m["x"][b], m["x"][a]
            out.append(("swap", q))
    for w in ("ok", "err", "panic", "abort") if e["op"] != "same" else ():
        if e["out"] != w:
            q = copy.deepcopy(e)
            q["out"] = w
            if w != "ok":
                q.pop("m", None), q.pop("v", None)
            out.append(("out:%s->%s" % (e["out"], w), q))
    return out


def main():
    seed = sys.argv[1] if len(sys.argv) > 1 else "1"
    count = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    build()
    r = random.Random("selftest/" + seed)
    cases, tags = [], []
    seen = collections.Counter()
    for prop in sorted(gen.FAMILIES):
        for ring, lines in drive(list(gen.segments(prop, "st" + seed, count))):
            for k in range(1, len(lines)):
                e = json.loads(lines[k])
                if len(lines[k]) > 3000:
                    continue
                for kind, q in falsify(e, r):
                    t = (e["op"], kind)
                    if seen[t] >= 6 or r.random() < 0.5:
                        continue
                    seen[t] += 1
                    cases.append((ring, lines[:k] + [json.dumps(q)]))
                    tags.append(t)
    print(len(cases), "falsified histories,", len(seen), "kinds,", len({t[0] for t in seen}), "operations")
    rej, _, _ = validate_all(cases)
    hit = {i for i, x in rej if x.idx == len(cases[i][1]) - 1}
    miss = collections.defaultdict(list)
    for i, t in enumerate(tags):
        if i not in hit:
            miss[t].append(i)
    for t, ix in sorted(miss.items()):
        print("ACCEPTED", t[0], t[1], len(ix), "of", seen[t])
        if "-v" in sys.argv:
            print("   ", cases[ix[0]][1][-1])
    print(len(tags) - sum(map(len, miss.values())), "rejected,", sum(map(len, miss.values())), "accepted")
    sys.exit(1 if miss else 0)


if __name__ == "__main__":
    main()

#!/usr/bin/env python3
"""check_eigs.py [--replay FILE]

Decides C26: what eigs returns, also when several threads call it at once.
Explores the models with TLC, runs the calls they and the seeded generator
yield on the real library, and has TLC judge every call with spec/Eigs.tla.
"""
import json, os, random, re, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run_trace
from run_trace import VERIF, JOBS, ToolError, stats, tlc

PROP = "C26"
EVID = os.path.join(VERIF, "evidence")
CRATE = os.path.join(VERIF, "eigs")
TARGET = os.path.join(CRATE, "target")
DRIVER = os.path.join(TARGET, "debug", "eigsdrv")
KERNELS = os.path.join(VERIF, "spec", "kernels")


def build():
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=CRATE, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(DRIVER):
        raise ToolError("the driver does not build against /repo:\n" + p.stdout[-3000:])


# ---------------------------------------------------------------- generator

def mul(X, Y):
    n, m = len(X), len(Y[0]) if Y else 0
    return [[sum(X[i][k] * Y[k][j] for k in range(len(Y)) if X[i][k]) for j in range(m)] for i in range(n)]


def one(n):
    return [[int(i == j) for j in range(n)] for i in range(n)]


def basis(rnd, n, shears):
    """An integer matrix with an integer inverse."""
    S, T = one(n), one(n)
    for _ in range(shears):
        i, j = rnd.sample(range(n), 2)
        f = rnd.choice((-1, 1))
        S[i] = [a + f * b for a, b in zip(S[i], S[j])]         # S := E S
        for r in T:                                             # T := T E^-1
            r[j] -= f * r[i]
    o = list(range(n))
    rnd.shuffle(o)
    return [[r[k] for k in o] for r in S], [T[k] for k in o]


def csc(rnd, A, e=None):
    """CSC arrays of A, as they come: in any order, now and then an entry in parts."""
    r, c = len(A), len(A[0]) if A else 0
    p, jx, x = [0], [], []
    style = rnd.random()
    for j in range(c):
        col = [(i, A[i][j]) for i in range(r) if A[i][j] or rnd.random() < .03]
        if style < .3:
            rnd.shuffle(col)
            for q in range(len(col)):
                if rnd.random() < .15:
                    i, v = col[q]
                    w = rnd.randint(-4, 4)
                    col[q] = (i, v - w)
                    col.insert(rnd.randint(0, len(col)), (i, w))
        jx += [i for i, _ in col]
        x += [v for _, v in col]
        p.append(len(jx))
    return {"op": "eigs", "r": r, "c": c, "p": p, "j": jx, "x": x,
            "e": (rnd.choice((0, 0, 0, rnd.randint(-60, 60))) if e is None else e)}


def spectrum(rnd, n, nev):
    """Eigenvalues <<a, b>> with the nev largest set apart; None if it did not work out."""
    tight = n <= 20 or n <= 2 * nev + 1
    top = rnd.randint(8, 40)
    want, rest, seen = [], [], set()
    tries = 0
    low = rnd.randint(max(3, top // 2), top)
    while len(want) < nev and tries < 300:
        tries += 1
        if rnd.random() < .35 and (len(want) + 2 <= nev or rnd.random() < .5):
            a, b = rnd.randint(-top, top), rnd.randint(1, top)
        else:
            a, b = rnd.choice((-1, 1)) * rnd.randint(low, top), 0
        if not low * low <= a * a + b * b <= top * top or (a, b) in seen:
            continue
        seen.add((a, b))
        if b and len(want) + 2 == nev + 1:
            low = None                                          # the pair straddles: it must be the smallest
            q = a * a + b * b
            if any(u * u + v * v <= q for u, v in want):
                low = rnd.randint(max(3, top // 2), top)
                seen.discard((a, b))
                continue
        want += [(a, b)] + ([(a, -b)] if b else [])
        if low is None:
            break
    if len(want) < nev:
        return None
    cut = min(a * a + b * b for a, b in want)
    if len({(a, b) for a, b in want if a * a + b * b == cut}) > 1 and any(b == 0 for a, b in want if a * a + b * b == cut):
        return None
    num, den = (81, 100) if tight else (64, 100)
    lim = cut * num // den
    m = int(lim ** .5)
    tries = 0
    while len(want) + len(rest) < n and tries < 600:
        tries += 1
        a, b = rnd.randint(-m, m), rnd.choice((0, 0, rnd.randint(1, max(1, m))))
        k = 2 if b else 1
        if a * a + b * b > lim or (a, b) in seen or len(want) + len(rest) + k > n:
            continue
        seen.add((a, b))
        rest += [(a, b)] + ([(a, -b)] if b else [])
    if len(want) + len(rest) < n:
        return None
    return want, rest


def witnessed(rnd, n, nev):
    w = spectrum(rnd, n, nev)
    if w is None:
        return None
    blocks = []
    for a, b in w[0] + w[1]:
        if b > 0:
            blocks.append((a, b))
        elif b == 0:
            blocks.append((a,))
    rnd.shuffle(blocks)
    B = [[0] * n for _ in range(n)]
    k = 0
    dens = rnd.choice((0, 0, .3, .8))
    for bl in blocks:
        if len(bl) == 1:
            B[k][k] = bl[0]
            w_ = 1
        else:
            s = rnd.choice((-1, 1))
            B[k][k] = B[k + 1][k + 1] = bl[0]
            B[k][k + 1], B[k + 1][k] = -s * bl[1], s * bl[1]
            w_ = 2
        for i in range(k, k + w_):
            for j in range(k + w_, n):
                if rnd.random() < dens:
                    B[i][j] = rnd.randint(-2, 2)
        k += w_
    S, T = basis(rnd, n, rnd.randint(0, min(n, 6)))
    A = mul(mul(T, B), S)
    if max(sum(map(abs, r)) for r in A) > 600:
        return None
    c = csc(rnd, A)
    c.update(nev=nev, S=S, T=T, B=B)
    return c


def soft(rnd, n):
    """A square matrix of which nothing is known, and an admissible count."""
    k = rnd.random()
    if k < .3:
        # equal blocks: every eigenvalue several times
        m = rnd.randint(2, 5)
        q = rnd.randint(1, max(2, min(8, n // m + 1)))
        v = rnd.randint(1, 3)
        style = rnd.random()
        if style < .5:
            blk = [[v * ((j + 1) % m == i) for j in range(m)] for i in range(m)]
        else:
            blk = [[rnd.randint(-3, 3) for _ in range(m)] for _ in range(m)]
        if style < .7:
            d = rnd.randint(-3, 3)
            blk = [[blk[i][j] + d * (i == j) for j in range(m)] for i in range(m)]
        n = m * q
        A = [[0] * n for _ in range(n)]
        o = list(range(n))
        if rnd.random() < .6:
            rnd.shuffle(o)
        for i in range(n):
            for j in range(n):
                if i // m == j // m:
                    A[o[i]][o[j]] = blk[i % m][j % m]
        if n < 3:
            return None
        c = csc(rnd, A)
        c["nev"] = rnd.randint(1, n - 2)
        return c
    k = (k - .3) / .7
    dens = rnd.choice((.05, .2, .5, 1))
    A = [[rnd.randint(-4, 4) if rnd.random() < dens else 0 for _ in range(n)] for _ in range(n)]
    if k < .2:
        A = [[A[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    elif k < .3:
        A = [[A[i][j] if i <= j else 0 for j in range(n)] for i in range(n)]
    elif k < .4:
        A = [[A[0][(j - i) % n] if n < 12 else (A[0][(j - i) % n] if (j - i) % n < 4 else 0) for j in range(n)] for i in range(n)]
    elif k < .5:
        A = [[A[i][j] if i < j else -A[j][i] if i > j else 0 for j in range(n)] for i in range(n)]
    if max(sum(map(abs, r)) for r in A) > 55:
        return None
    c = csc(rnd, A)
    c["nev"] = rnd.randint(1, max(1, n - 2))
    return c


def inadmissible(rnd):
    if rnd.random() < .4:
        r, c = rnd.randint(0, 7), rnd.randint(0, 7)
        if r == c:
            r += 1
        A = [[rnd.randint(-4, 4) for _ in range(c)] for _ in range(r)]
        d = csc(rnd, A) if r else {"op": "eigs", "r": 0, "c": c, "p": [0] * (c + 1), "j": [], "x": [], "e": 0}
        d["nev"] = rnd.randint(0, 4)
        return d
    n = rnd.randint(0, 7)
    A = [[rnd.randint(-4, 4) for _ in range(n)] for _ in range(n)]
    d = csc(rnd, A) if n else {"op": "eigs", "r": 0, "c": 0, "p": [0], "j": [], "x": [], "e": 0}
    d["nev"] = rnd.choice((0, max(0, n - 1), n, n + 1, n + rnd.randint(2, 1000)))
    return d


def call(rnd):
    while True:
        k = rnd.random()
        if k < .12:
            return inadmissible(rnd)
        n = rnd.randint(12, 40) if rnd.random() < .2 else rnd.randint(3, 10)
        if k < .4:
            c = soft(rnd, n)
        else:
            nev = rnd.randint(1, n - 2) if n <= 10 else rnd.randint(1, 6)
            c = witnessed(rnd, n, nev)
        if c:
            return c


def lines(rnd, count):
    """Calls one by one, and groups of calls made at the same time."""
    out = []
    while count > 0:
        if rnd.random() < .15:
            g = [call(rnd) for _ in range(rnd.randint(2, 8))]
            out.append({"par": g})
            count -= len(g)
        else:
            out.append(call(rnd))
            count -= 1
    return out


# ---------------------------------------------------------------- execution

def drive(cmds):
    """Runs the lines; returns [(origin line, event)]."""
    out = []
    todo = list(cmds)
    deaths = 0
    while todo and deaths < 3:
        with tempfile.TemporaryFile("w+") as fi, tempfile.TemporaryFile("w+") as fo:
            fi.write("".join(json.dumps(c) + "\n" for c in todo))
            fi.seek(0)
            p = subprocess.Popen(["bash", "-c", 'ulimit -v 16000000; ulimit -c 0; exec timeout -s KILL 240 "$0"', DRIVER],
                                 stdin=fi, stdout=fo, stderr=subprocess.DEVNULL)
            rc = p.wait()
            fo.seek(0)
            got = {}
            for ln in fo.read().split("\n"):
                if not ln:
                    continue
                try:
                    e = json.loads(ln)
                except ValueError:
                    continue
                got[(e.pop("k"), e.pop("t"))] = e
        done = 0
        for k, c in enumerate(todo):
            calls = c["par"] if "par" in c else [c]
            res = [got.get((k, t)) for t in range(len(calls))]
            dead = any(r is None for r in res)
            for cc, r in zip(calls, res):
                if r is None:
                    r = {"out": "hang" if rc == 137 else "abort", "post": {}}
                out.append((c, dict(cc, **r)))
            done += 1
            if dead:
                if rc == 0:
                    raise ToolError("driver stopped early without a reason")
                deaths += 1
                break
        todo = todo[done:]
    return out


def judge(events):
    """Has TLC judge the events; returns the indices it rejects, states, transitions."""
    groups = [list(range(len(events)))[k::JOBS] for k in range(min(JOBS, max(1, len(events) // 20)))]
    if len(groups) < JOBS:
        groups = [list(range(len(events)))[k::len(groups)] for k in range(len(groups))]

    def one_group(ix):
        bad, st, ge = [], 0, 0
        start = 0
        while start < len(ix):
            with tempfile.NamedTemporaryFile("w", suffix=".ndjson") as f:
                for i in ix[start:]:
                    f.write(json.dumps(events[i]) + "\n")
                f.flush()
                rc, text = tlc(["-config", "EigsTrace.cfg", "EigsTrace.tla"], {"TRACE": f.name})
            g, n = stats(text)
            st += n
            ge += g
            hits = [start + int(m.group(1)) - 1 for m in re.finditer(r'<<"REJECT", (\d+),', text)]
            if rc == 0:
                bad += [ix[h] for h in hits]
                break
            ls = re.findall(r"^/\\ l = (\d+)", text, re.M)
            if "Error:" not in text or not ls or "OutOfMemory" in text:
                raise ToolError("TLC failed (rc %s):\n%s" % (rc, text[-3000:]))
            # what came back cannot even be looked at
            k = start + int(ls[-1]) - 1
            bad += sorted(set([ix[h] for h in hits if h < k] + [ix[k]]))
            if len(bad) > 3:
                break
            start = k + 1
        return bad, st, ge
    bad, st, ge = [], 0, 0
    with ThreadPoolExecutor(JOBS) as ex:
        for b, s, g in ex.map(one_group, groups):
            bad += b
            st += s
            ge += g
    return sorted(bad), st, ge


# ---------------------------------------------------------------- models

def model_calls(tier, rnd, notes, tot):
    """Explores the models; returns the calls KEig yields."""
    rc, text = tlc(["-config", "KArpack.cfg", "KArpack.tla"], spec=KERNELS, workers=str(JOBS))
    g, n = stats(text)
    if rc != 0:
        raise ToolError("KArpack:\n" + text[-2000:])
    notes.append({"model": "KArpack", "states": n, "transitions": g, "bounds": "three threads, two calls each, 0-2 products per call; lock held through the iteration"})
    rc, text = tlc(["-config", "KArpackPerCall.cfg", "KArpack.tla"], spec=KERNELS, workers=str(JOBS))
    if "Invariant Own is violated" not in text:
        raise ToolError("KArpack with the lock per call should violate Own:\n" + text[-2000:])
    tot["states"] += n
    tot["transitions"] += g
    calls = []
    for cfg in ("KEig3Deep.cfg", "KEig4Deep.cfg") if tier == "thorough" else ("KEig3.cfg", "KEig4.cfg"):
        rc, text = tlc(["-config", cfg, "KEig.tla"], spec=KERNELS, workers=str(JOBS), xmx="8g",
                       java=["-DTLA-Library=" + os.path.join(VERIF, "spec")])
        found = sorted({x for x in text.split("\n") if x.startswith('"EIG')})
        text = "\n".join(x for x in text.split("\n") if not x.startswith('"EIG'))
        g, n = stats(text)
        if rc != 0 or "No error has been found" not in text or not found:
            raise ToolError("%s:\n%s" % (cfg, text[-2000:]))
        tot["states"] += n
        tot["transitions"] += g
        notes.append({"model": cfg[:-4], "states": n, "transitions": g, "inputs": len(found), "exhaustive": True,
                      "bounds": "all block triangular matrices and elementary operations of %s; checked: Witness, Roots, Largest" % cfg})
        calls += [json.loads(json.loads(x)[3:]) for x in found]
    out = []
    for c in calls:
        d = csc(rnd, c["A"], 0)
        d.update(nev=c["nev"], S=c["S"], T=c["T"], B=c["B"])
        out.append(d)
    return out


def main():
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    build()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        cmds = [json.loads(ln) for ln in open(sys.argv[2])]
        for _ in range(20):
            ev = drive(cmds)
            bad, _, _ = judge([e for _, e in ev])
            if bad:
                print("VIOLATION property=%s replay=%s" % (PROP, sys.argv[2]))
                return 1
        return 0
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    budget = 600 if tier == "thorough" else 45
    tot = dict(states=0, transitions=0)
    notes, viol, samples = [], [], []
    count = {"ok": 0, "err": 0, "other": 0, "must": 0, "par": 0, "calls": 0, "pairs": 0}

    def batch(cmds, origin):
        ev = drive(cmds)
        bad, st, ge = judge([e for _, e in ev])
        tot["states"] += st
        tot["transitions"] += ge
        for c, e in ev:
            count["calls"] += 1
            count["must"] += "B" in e
            count["par"] += "par" in c
            count["pairs"] += len(e.get("d", []))
            count[e["out"] if e["out"] in ("ok", "err") else "other"] += 1
        for i in bad:
            viol.append((origin, ev[i][0], ev[i][1]))
        if len(samples) < 3:
            samples.extend(e for _, e in ev[1:3])

    rnd = random.Random("eigs-model-%d" % seed)
    mc = model_calls(tier, rnd, notes, tot)
    rnd.shuffle(mc)
    mc = mc[:20000 if tier == "thorough" else 1500]
    groups = []
    while mc:
        k = rnd.choice((1, 1, 4))
        groups.append(mc[0] if k == 1 else {"par": mc[:k]})
        del mc[:k]
    batch(groups, "model")
    rounds = 0
    while not viol:
        sub = "%d" % seed if rounds == 0 else "%d.%d" % (seed, rounds)
        t1 = time.time()
        batch(lines(random.Random("eigs-" + sub), 2500), "generator " + sub)
        rounds += 1
        if tier != "thorough" or time.time() - t0 + (time.time() - t1) * 1.2 > budget:
            break
    done = set()
    for origin, c, e in viol:
        if e["out"] in done or len(done) >= 3:
            continue
        done.add(e["out"])
        path = os.path.join(EVID, "replay", "%s-%s.ndjson" % (PROP, e["out"]))
        with open(path, "w") as f:
            f.write(json.dumps(c) + "\n")
        print("call rejected by the specification, %s:\n   %s" % (origin, json.dumps(e)[:1500]))
        print("VIOLATION property=%s replay=%s" % (PROP, path))
    evid = {
        "property": PROP, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["states"], "transitions": tot["transitions"],
            "traces_validated_against_impl": count["calls"],
            "evaluations": count["calls"],
            "rule": "one evaluation is one call of eigs on the real library (ARPACK included) judged by TLC with Eigs.tla",
            "returned": count["ok"], "rejected_by_library": count["err"], "pairs_judged": count["pairs"],
            "with_spectrum_witness": count["must"], "made_concurrently": count["par"],
            "models": notes, "samples": samples,
        },
        "assumptions": [
            "ARPACK as the crate arpack-ng-sys ships it",
            "eigenvalues of integer matrices times a power of two, dimension up to 40, row sums up to 600; residuals judged in fixed point 1/32768",
            "that the wanted pairs are all returned is only demanded for spectra with a gap, as Separated in Eigs.tla states",
            "schedules of concurrent calls are those the operating system makes",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, PROP + ".json"), "w") as f:
        json.dump(evid, f, indent=1)
    print("%s: %d states, %d calls (%d ok, %d err), %.0f s%s" % (
        PROP, tot["states"], count["calls"], count["ok"], count["err"], time.time() - t0,
        "" if not viol else ", %d rejected" % len(viol)))
    return 1 if viol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except ToolError as ex:
        print("check error: %s" % ex)
        sys.exit(2)

"""Runs calls on the real library and validates what happened with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(HARNESS, "target")
DRIVER = os.path.join(TARGET, "debug", "sparsedrv")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
JOBS = max(1, min(8, os.cpu_count() or 1))


class ToolError(Exception):
    pass


def build():
    """Builds the driver against the working tree of /repo."""
    env = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
               CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0", RUSTC_WRAPPER="", CARGO_TARGET_DIR=TARGET)
    for k in ("RUSTFLAGS", "CARGO_BUILD_TARGET"):
        env.pop(k, None)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(DRIVER):
        raise ToolError("the driver does not build against /repo:\n" + p.stdout[-3000:])


def drive(segs, hang_ms=10000):
    """Runs the segments; returns a list of (ring, [event lines]).

    A call the driver does not survive (abort, out of memory, a stack of 1 MB
    overflown) or does not come
    back from is an event too; the rest of its segment is not run."""
    out = []
    todo = list(segs)
    deaths = 0
    while todo:
        text = "".join(json.dumps(c) + "\n" for s in todo for c in s)
        with tempfile.TemporaryFile("w+") as fi, tempfile.TemporaryFile("w+") as fo:
            fi.write(text)
            fi.seek(0)
            p = subprocess.Popen(["bash", "-c", 'ulimit -v 8000000; ulimit -c 0; ulimit -s 1024; exec "$0" "$1"', DRIVER, str(hang_ms)],
                                 stdin=fi, stdout=fo, stderr=subprocess.DEVNULL)
            rc = p.wait()
            fo.seek(0)
            lines = fo.read().split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        elif lines:
            lines.pop()          # a line cut short by the end of the process
        if rc == 77:
            raise ToolError("driver: " + (lines[-1] if lines else ""))
        n = 0
        done = 0
        for s in todo:
            ring = "Gauss" if s[0]["ty"].split(",")[1] in ("c64", "c32") else "Int"
            ev = lines[n:n + len(s)]
            if len(ev) == len(s) and not (rc == 78 and n + len(s) == len(lines) and '"out":"hang"' in ev[-1]):
                out.append((ring, ev))
                n += len(s)
                done += 1
                continue
            # the process ended in this segment
            if rc == 0:
                raise ToolError("driver stopped early without a reason")
            if not (ev and '"out":"hang"' in ev[-1]):
                k = len(ev)
                ev = ev + [json.dumps(dict(s[k], out="abort", post=[]))] if k < len(s) else ev
            out.append((ring, ev))
            done += 1
            deaths += 1
            break
        todo = todo[done:]
        if deaths >= 3:
            break
    return out


def tlc(args, env=None, timeout=800, xmx="3g", workers="1", spec=None, java=()):
    md = tempfile.mkdtemp(prefix="tlc")
    try:
        # TLC leaves its unpacked modules behind: keep them in md
        gc = "-XX:+UseSerialGC" if str(workers) == "1" else "-XX:+UseParallelGC"
        cmd = ["java", gc, "-Xmx" + xmx, "-Xss256m", "-Djava.io.tmpdir=" + md] + list(java) + ["-cp", CP, "tlc2.TLC",
               "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE"] + args
        p = subprocess.run(cmd, cwd=spec or SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as ex:
        return -1, (ex.stdout or b"").decode(errors="replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
    finally:
        shutil.rmtree(md, ignore_errors=True)


def stats(text):
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", text.replace(",", ",") )
    m = m or re.search(r"([\d,]+) states generated, ([\d,]+) distinct", text)
    if not m:
        return 0, 0
    return int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))


class Reject:
    def __init__(self, seg, idx, op, kind, note=""):
        self.seg, self.idx, self.op, self.kind, self.note = seg, idx, op, kind, note


def validate(shard, ring):
    """shard: list of event-line lists.  Returns (rejects, events, states)."""
    rejects = []
    bad = []
    states = gen = 0
    todo = list(range(len(shard)))
    rounds = 0
    while todo:
        rounds += 1
        d = tempfile.mkdtemp(prefix="trace")
        try:
            path = os.path.join(d, "t.ndjson")
            where = []
            with open(path, "w") as f:
                for si in todo:
                    for k, ln in enumerate(shard[si]):
                        where.append((si, k))
                        f.write(ln + "\n")
            rc, text = tlc(["-config", "Trace%s.cfg" % ring, "SparseTrace.tla"], {"TRACE": path})
        finally:
            shutil.rmtree(d, ignore_errors=True)
        g, n = stats(text)
        gen += g
        states += n
        for m in re.finditer(r'<<"(REJECT|GENERR)", (\d+), "(\w+)", "([\w-]+)">>', text):
            si, k = where[int(m.group(2)) - 1]
            if m.group(1) == "GENERR":
                # not a call a user may make: judged by nobody, the rest of its history is dropped
                bad.append((si, k))
                continue
            rejects.append(Reject(si, k, m.group(3), m.group(4)))
        if rc == 0:
            break
        # The evaluation of one event failed: what came back is not even of a
        # shape the specification can look at.
        ls = re.findall(r"^/\\ l = (\d+)", text, re.M)
        if "Error:" not in text or not ls or "Overflow" in text or "overflow" in text or "OutOfMemory" in text or "StackOverflow" in text:
            raise ToolError("TLC failed (rc %s):\n%s" % (rc, text[-3000:]))
        si, k = where[int(ls[-1]) - 1]
        ev = json.loads(shard[si][k])
        rejects = [r for r in rejects if r.seg not in todo or r.seg < si]
        rejects.append(Reject(si, k, ev["op"], "illformed", "not evaluable: " + " ".join(text[text.index("Error:"):][:300].split())))
        todo = [t for t in todo if t > si]
        if rounds >= 3:
            break
    # With the library as it is the generator makes only valid calls.  A library
    # that went another (wrong or permitted) way earlier in the history may turn
    # a later call into an invalid one; histories without an earlier rejection
    # are few then.
    hit = {r.seg for r in rejects}
    stray = [(si, k) for si, k in bad if si not in hit]
    if len(stray) > max(2, len(shard) // 5):
        si, k = stray[0]
        raise ToolError("generator: not a valid call: " + shard[si][k][:600])
    return rejects, states, gen, [(si, k) for si, k in stray]


def validate_all(events, per=None):
    """events: list of (ring, lines).  Returns rejects as (events index, Reject), states, transitions."""
    shards = []
    for ring in ("Int", "Gauss"):
        ix = [i for i, (r, _) in enumerate(events) if r == ring]
        if not ix:
            continue
        size = sum(len(events[i][1]) for i in ix)
        total = sum(len(e[1]) for e in events)
        k = max(1, min(len(ix), round(JOBS * size / max(1, total)) if total > 2000 else 1))
        k = max(k, -(-size // 20000))
        groups = [[] for _ in range(k)]
        for n, i in enumerate(ix):
            groups[n % k].append(i)
        shards += [(ring, g) for g in groups]
    rejects = []
    states = gen = 0
    with ThreadPoolExecutor(JOBS) as ex:
        for (ring, g), (rj, st, ge, stray) in zip(shards, ex.map(lambda s: validate([events[i][1] for i in s[1]], s[0]), shards)):
            rejects += [(g[r.seg], r) for r in rj]
            for si, k in stray[:3]:
                print("note: dropped, not a valid call: " + events[g[si]][1][k][:300])
            states += st
            gen += ge
    rejects.sort(key=lambda x: (x[0], x[1].idx))
    return rejects, states, gen

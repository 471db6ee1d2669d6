"""Seeded generator of call histories.

Emits segments (lists of call records) for the driver.  It knows no expected
results: it only tracks shapes and magnitudes so that the calls it makes are
ones a user may make (the specification's Valid is the judge of that).
"""
import random

REAL = ["usize,f64", "i32,f64", "u8,f64", "u64,f32", "usize,i32", "i64,i64", "i8,i16",
        "u16,i128", "u128,isize", "isize,usize", "u32,u32",
        "i128,f64", "u64,u64", "u32,u128", "i16,i32", "i8,f32", "u8,u16"]
CPLX = ["usize,c64", "i32,c64", "u8,c64", "i16,c32", "usize,c32"]
UNSIGNED_T = {t for t in REAL if t.split(",")[1][0] == "u"}
SIGNED_I = {t for t in REAL + CPLX if t[0] == "i"}
# integers that are made multiples of an odd number
BITS = {"i32": 31, "u32": 32, "i64": 63, "u64": 64, "isize": 63, "usize": 64, "i128": 126, "u128": 126}
MAXI = {"u8": 255, "i8": 127}
MAXV = {"i16": 30000, "u16": 60000, "f32": 1 << 22, "c32": 1 << 20}
FLOATS = {t for t in REAL if t.split(",")[1][0] == "f"}


class Mat:
    """What the generator knows about a register."""
    def __init__(s, name, f, r, c, n, bound, canon=False, zeros=True, es=None, real=False):
        s.name, s.f, s.r, s.c, s.n, s.bound = name, f, r, c, n, bound
        s.canon, s.es, s.real = canon, es, real


class Hist:
    """One segment: a history of calls on one pair of element types."""
    def __init__(s, rng, ty, big=False):
        # big: both dimensions of some size, or one long dimension
        s.rng, s.ty, s.big = rng, ty, big
        s.long = big and rng.random() < 0.6
        s.cmds = [{"op": "reset", "ty": ty}]
        s.k = 0
        s.cx = ty in CPLX
        s.I, s.T = ty.split(",")
        s.unsigned = ty in UNSIGNED_T
        s.signed_i = ty in SIGNED_I
        s.maxi = MAXI.get(s.I, 10 ** 6)
        s.maxv = MAXV.get(s.T, 10 ** 8)
        s.vmode = rng.choice(["small", "small", "distinct", "mid", "unit"])
        s.ctr = 0
        # 16-bit scalars: sums of products have to stay within range
        s.narrow = s.T in ("i16", "u16")
        if s.narrow and big:
            s.vmode = "small"
        # Scalars of float types are read as integers times 2^e.
        s.e = 0
        # Elements that are not numbers, in histories without arithmetic.
        s.special = False

    def units(s, degree=1, linear=False, copies=False):
        """Work in fractions, or in huge or tiny scalars, in this segment,
        whose results are of this degree in the scalars it starts from.
        linear: sums only.  copies: elements are moved and nothing else."""
        r = s.rng
        if s.T in BITS:
            # integers: multiples of an odd number; the values generated fit
            # 32 bits, fewer if all the history does is add
            keep = 31 if not linear else 12 if s.vmode in ("small", "unit") else 18
            bits = (BITS[s.T] - keep) // degree
            if bits >= 8 and r.random() < 0.5:
                bits = r.choice([bits, bits, r.randint(8, bits)])
                s.e = 1
                s.cmds[0]["b"] = str(r.randrange(1 << (bits - 1), 1 << bits) | 1)
            return
        if s.T[0] not in "fc":
            return
        if r.random() < 0.3:
            s.cmds[0]["nz"] = r.choice([1, 2, 3])
        if copies and r.random() < 0.2:
            s.special = True
        if s.T[0] in "fc" and r.random() < 0.5:
            w = (90 if s.T in ("f32", "c32") else 900) // degree
            s.e = r.choice([-1, -2, r.randint(-w, -3), r.randint(-20, -3), r.randint(3, w)])

    # ---- values
    def rv(s, zero=0.0):
        r = s.rng
        if r.random() < zero:
            return s.zero()
        if s.special and r.random() < 0.25:
            q = 1000000000 + r.randint(1, 3)
            return q if not s.cx else r.choice([[q, 1], [2, q], [0, q], [q, 0], [q, 1000000001]])
        if s.cx:
            while True:
                v = [r.randint(-3, 3), r.randint(-3, 3)]
                if r.random() < 0.25:
                    v[r.randint(0, 1)] = 0
                if v != [0, 0]:
                    return v
        if s.vmode == "distinct":
            s.ctr += 1
            v = s.ctr % (30 if s.narrow else 200) + 1
        elif s.vmode == "unit":
            v = 1
        elif s.vmode == "mid":
            v = r.randint(1, 25 if s.narrow else 40)
        else:
            v = r.randint(1, 3)
        if not s.unsigned and r.random() < 0.5:
            v = -v
        return v

    def zero(s):
        return [0, 0] if s.cx else 0

    def one(s):
        return [1, 0] if s.cx else 1

    def neg(s, v):
        return [-v[0], -v[1]] if s.cx else -v

    def vb(s, vs):
        b = 0
        for v in vs:
            b = max(b, abs(v[0]) + abs(v[1]) if s.cx else abs(v))
        return b

    def vec(s, n, zero=0.2):
        if s.special:
            return [s.zero()] * n
        return [s.rv(zero) for _ in range(n)]

    # ---- shapes and entry patterns
    def dim(s):
        r = s.rng
        if s.long:
            return r.choice([1, 2, 3]) if r.random() < 0.5 else s.length()
        if s.big:
            return min(s.maxi, r.choice([17, 25, 40, 64, 100]))
        return r.choice([0, 1, 1, 2, 2, 3, 3, 3, 4, 4, 5, 6, 7, 9])

    def length(s, lim=300):
        return min(s.maxi + 1, lim, s.rng.choice([33, 50, 65, 66, 100, 129, 130, 200, 256, 257, 258, 260, 300]))

    def shape(s, square=False, edge=0.012):
        if s.long and not square:
            d = s.length(), s.rng.choice([1, 1, 2, 2, 3, 5])
            return d if s.rng.random() < 0.5 else d[::-1]
        if s.maxi < 1000 and not square and s.rng.random() < edge * (4 if s.maxi < 200 else 2):
            # a dimension at the end of the index type's range: every index fits
            d = s.rng.choice([s.maxi, s.maxi + 1, s.maxi + 1]), s.rng.choice([1, 1, 2, 3])
            if s.narrow:
                s.vmode = "small"
            return d if s.rng.random() < 0.5 else d[::-1]
        a = s.dim()
        return (a, a) if square or s.rng.random() < 0.25 else (a, s.dim())

    def positions(s, r, c, cap):
        rng = s.rng
        if r == 0 or c == 0 or cap == 0:
            return []
        kind = rng.choice(["rand", "rand", "rand", "rand", "dense", "diag", "empty", "row", "col",
                           "perm", "tri", "corner", "band", "lead", "trail", "rev"])
        if kind == "empty" and rng.random() < 0.6:
            kind = "rand"
        if s.big and rng.random() < 0.5:
            kind = rng.choice(["row", "col", "dense", "ends", "ends", "ends"])
        n = rng.randint(0, max(1, min(cap, (r * c) // 2 + 2, r * 3 + 3)))
        P = []
        if kind == "rand":
            P = [(rng.randrange(r), rng.randrange(c)) for _ in range(n)]
        elif kind == "dense":
            P = [(i, j) for i in range(r) for j in range(c) if rng.random() < 0.8]
        elif kind == "diag":
            k = rng.randint(-r + 1, c - 1)
            P = [(i, i + k) for i in range(r) if 0 <= i + k < c]
        elif kind == "row":
            i = rng.choice([0, r - 1, rng.randrange(r)])
            P = [(i, j) for j in range(c)] + [(rng.randrange(r), rng.randrange(c)) for _ in range(2)]
        elif kind == "col":
            j = rng.choice([0, c - 1, rng.randrange(c)])
            P = [(i, j) for i in range(r)] + [(rng.randrange(r), rng.randrange(c)) for _ in range(2)]
        elif kind == "perm":
            q = list(range(c))
            rng.shuffle(q)
            P = [(i, q[i]) for i in range(min(r, c))]
        elif kind == "tri":
            low = rng.random() < 0.5
            P = [(i, j) for i in range(r) for j in range(c) if (j <= i if low else j >= i) and rng.random() < 0.7]
        elif kind == "corner":
            P = [(r - 1, c - 1)] + [(rng.choice([0, r - 1]), rng.choice([0, c - 1])) for _ in range(rng.randint(0, 3))]
        elif kind == "band":
            P = [(i, j) for i in range(r) for j in range(max(0, i - 1), min(c, i + 2))]
        elif kind == "lead":
            h = rng.randint(0, r)
            P = [(rng.randrange(h), rng.randrange(c)) for _ in range(n)] if h else []
        elif kind == "trail":
            h = rng.randint(0, r - 1)
            P = [(rng.randrange(h, r), rng.randrange(c)) for _ in range(n)]
        elif kind == "ends":
            # around multiples of powers of two
            at = lambda d: rng.choice([t for t in (0, 1, 31, 32, 63, 64, 127, 128, 254, 255, 256, d - 2, d - 1) if 0 <= t < d])
            P = [(at(r), at(c)) for _ in range(rng.randint(1, 12))]
        elif kind == "rev":
            P = [(i, j) for i in reversed(range(r)) for j in reversed(range(c)) if rng.random() < 0.5]
        if len(P) > cap:
            P = rng.sample(P, cap)
        return P

    def entries(s, r, c, dup=None, zeros=None, cap=None, canon=False):
        rng = s.rng
        lim = s.maxi if s.maxi < 1000 else 400
        cap = lim if cap is None else min(cap, lim)
        if s.big:
            cap = min(cap, 330 if s.long else 250)
        P = s.positions(r, c, cap)
        if canon:
            P = sorted(set(P))
        if dup is None:
            dup = rng.choice([0, 0, 0.3, 0.8])
        if zeros is None:
            zeros = rng.choice([0, 0, 0.2, 0.5])
        es = [(i, j, s.rv(zeros)) for (i, j) in P]
        if not canon and dup:
            ex = []
            for (i, j, v) in es:
                if rng.random() < dup:
                    t = rng.random()
                    w = v if t < 0.15 else s.neg(v) if t < 0.55 and not s.unsigned else s.rv(zeros)
                    ex.append((i, j, w))
            es += ex[:max(0, cap - len(es))]
        if not canon and rng.random() < 0.7:
            rng.shuffle(es)
        return es

    # ---- emitting
    def new(s):
        s.k += 1
        return "m%d" % s.k

    def emit(s, op, a=(), d=None, /, **kw):
        c = {"op": op, "a": [m.name if isinstance(m, Mat) else m for m in a], "d": d or "-"}
        c.update(kw)
        if not a and s.e and op not in ("same", "coo_identity"):
            c["e"] = s.e
        s.cmds.append(c)
        return c

    def res(s, f, r, c, n, bound, **kw):
        return Mat(s.new(), f, r, c, n, bound, **kw)

    def make(s, op, a, f, r, c, n, bound, /, canon=False, real=False, **kw):
        m = Mat(s.new(), f, r, c, n, bound, canon, real=real)
        s.emit(op, a, m.name, **kw)
        return m

    def pack(s, f, r, c, es):
        """Arrays of a compressed matrix holding es in order of appearance."""
        maj = (lambda e: e[0]) if f == "csr" else (lambda e: e[1])
        mino = (lambda e: e[1]) if f == "csr" else (lambda e: e[0])
        n = r if f == "csr" else c
        rows = [[] for _ in range(n)]
        for e in es:
            rows[maj(e)].append(e)
        p = [0]
        j, x = [], []
        for row in rows:
            for e in row:
                j.append(mino(e))
                x.append(e[2])
            p.append(len(j))
        return p, j, x

    def put(s, f, r, c, es, canon=False, slack=False):
        """A fresh matrix with exactly these stored entries."""
        if s.special:
            # no sums
            seen = {}
            for t in es:
                seen[t[:2]] = seen.get(t[:2], 0) + 1
            es = [t if seen[t[:2]] == 1 else (t[0], t[1], s.one()) for t in es]
        b = s.vb([e[2] for e in es]) * max(1, s.maxdup(es))
        if f == "coo":
            m = Mat(s.new(), f, r, c, len(es), b, canon, es=es)
            s.emit("coo_new", [], m.name, r=r, c=c, i=[e[0] for e in es], j=[e[1] for e in es], x=[e[2] for e in es])
        elif f == "dok":
            m = Mat(s.new(), f, r, c, len(es), b, es=es)
            s.emit("dok_new", [], m.name, r=r, c=c)
            for (i, j, v) in es:
                s.emit("dok_add" if s.rng.random() < 0.5 else "dok_set", [m], i=i, j=j, x=v)
        else:
            m = Mat(s.new(), f, r, c, len(es), b, canon, es=es)
            p, j, x = s.pack(f, r, c, es)
            if slack:
                t, u = s.rng.randint(0, 2), s.rng.randint(0, 2)
                minor = c if f == "csr" else r
                j = j + [s.rng.randrange(minor) if minor else 0 for _ in range(t)]
                x = x + [s.rv() for _ in range(u)]
            s.emit(f + "_new", [], m.name, r=r, c=c, p=p, j=j, x=x)
        return m

    def maxdup(s, es):
        d = {}
        for e in es:
            d[e[:2]] = d.get(e[:2], 0) + 1
        return max(d.values(), default=1)

    def fresh(s, f, r=None, c=None, square=False, canon=False, cap=None, zeros=None, dup=None):
        if r is None:
            r, c = s.shape(square)
        es = s.entries(r, c, canon=canon, cap=cap, zeros=zeros, dup=dup)
        if canon and f == "csc":
            es = sorted(es, key=lambda e: (e[1], e[0]))
        return s.put(f, r, c, es, canon)

    def dense(s, r, c, p=None):
        if s.special:
            p = 0
        p = s.rng.choice([0, 0.3, 0.5, 0.9]) if p is None else p
        return [[s.rv() if s.rng.random() < p else s.zero() for _ in range(c)] for _ in range(r)]


def forms(h):
    return h.rng.randint(0, 3)


# ---------------------------------------------------------------- families
# Each family makes one segment: family(h) emits calls on history h.

def f_conv(h):
    """C01: conversions along chains, kernels and dense forms included."""
    f = h.rng.choice(["coo", "coo", "csr", "csr", "csc", "csc", "dok"])
    m = h.fresh(f)
    start = m
    for _ in range(h.rng.randint(2, 6)):
        m = conv_step(h, m)
    for x in (start, m):
        conv_reads(h, x)


def conv_step(h, m):
    o = {"coo": ["coo_to_csr", "coo_to_csc", "k_coo_tocsr"],
         "csr": ["csr_to_csc", "csr_to_coo", "k_csr_tocsc", "k_csr_tocoo"],
         "csc": ["csc_to_csr", "csc_to_coo", "k_csc_tocsr"],
         "dok": ["dok_to_csr", "dok_to_csc", "dok_to_coo"]}[m.f]
    op = h.rng.choice(o)
    t = {"csr": "csr", "csc": "csc", "coo": "coo", "tocsr": "csr", "tocsc": "csc", "tocoo": "coo"}[op.split("_")[-1]]
    return h.make(op, [m], t, m.r, m.c, m.n, m.bound, canon=op in ("coo_to_csr", "coo_to_csc", "dok_to_csr", "dok_to_csc"))


def conv_reads(h, m):
    r = h.rng
    if m.f in ("coo", "csc", "dok"):
        h.emit(m.f + "_to_dense", [m])
    if m.f == "csr":
        if r.random() < 0.6:
            h.emit("k_csr_todense", [m], D=h.dense(m.r, m.c))
    if m.f in ("csr", "csc") and r.random() < 0.5:
        h.emit("k_expandptr", [m])
    if m.f == "coo" and r.random() < 0.7:
        for fo in (False, True):
            h.emit("k_coo_todense", [m], y=h.vec(m.r * m.c, 0.5), fortran=fo)


def f_canon(h):
    """C03: sum_duplicates, sort_indexes, canonicalising conversions."""
    f = h.rng.choice(["csr", "csc", "csr", "csc", "coo"])
    m = h.fresh(f, dup=h.rng.choice([0, 0.3, 0.6, 1.0]))
    if f == "coo":
        m = h.make("coo_to_csr" if h.rng.random() < 0.5 else "coo_to_csc", [m], "csr", m.r, m.c, m.n, m.bound)
        m.f = h.cmds[-1]["op"][-3:]
    ops = [m.f + "_sort", m.f + "_sumdup", m.f + "_sort", m.f + "_sumdup"]
    if m.f == "csr" and h.rng.random() < 0.4:
        ops = ["k_sort", "k_sumdup", "k_sumdup"] if h.rng.random() < 0.5 else ["csr_sort", "k_sumdup", "csr_sumdup"]
    else:
        h.rng.shuffle(ops)
        ops = ops[:h.rng.randint(1, 4)]
    for o in ops:
        h.emit(o, [m])
    if m.f == "csc" and h.rng.random() < 0.4:
        h.emit("csc_prune", [m])
    h.emit(m.f + "_canon", [m])


def f_pred(h):
    """C04: format predicates on every kind of structure."""
    r = h.rng
    f = r.choice(["csr", "csc"])
    kind = r.choice(["any", "canon", "near", "emptyrows", "dup1", "swap1", "full", "row"])
    nr, nc = h.shape()
    if kind == "row":
        # a long row that is in order but for one place
        n = r.choice([17, 18, 20, 33, 40, 65, 70, 129])
        n = min(n, h.maxi - 1)
        w = r.randint(n, min(2 * n, h.maxi + 1))
        js = sorted(r.sample(range(w), n))
        k = r.choice([0, 1, n - 2, n - 2, r.randrange(n - 1), r.randrange(n - 1)])
        t = r.random()
        if t < 0.35:
            js[k + 1] = js[k]
        elif t < 0.7:
            js[k], js[k + 1] = js[k + 1], js[k]
        es = [(1, j, h.rv()) for j in js]
        if r.random() < 0.3:
            es.insert(0, (0, r.randrange(w), h.rv()))
        kind = "done"
        if f == "csr":
            m = h.put(f, 3, w, es)
        else:
            m = h.put(f, w, 3, [(j, i, v) for i, j, v in es])
    if kind == "done":
        pass
    elif kind == "any":
        m = h.fresh(f, nr, nc)
    elif kind == "canon":
        m = h.fresh(f, nr, nc, canon=True)
    elif kind == "full" and h.maxi < 1000:
        # exactly as many entries as the index type can count
        nc2 = 16
        nr2 = h.maxi // nc2 + 1
        P = [(i, j) for i in range(nr2) for j in range(nc2)][:h.maxi]
        tail = r.randint(0, 2)
        if f == "csr":
            m = h.put(f, nr2 + tail, nc2, [(i, j, h.rv()) for i, j in P])
        else:
            m = h.put(f, nc2, nr2 + tail, [(j, i, h.rv()) for i, j in P])
    else:
        es = h.entries(nr, nc, canon=True)
        key = (lambda e: (e[0], e[1])) if f == "csr" else (lambda e: (e[1], e[0]))
        es.sort(key=key)
        if es and kind == "dup1" and len(es) < h.maxi:
            k = r.choice([0, len(es) - 1, r.randrange(len(es))])
            es.insert(k, es[k])
        elif es and kind == "swap1":
            k = r.choice([0, max(0, len(es) - 2), r.randrange(len(es))])
            if k + 1 < len(es):
                es[k], es[k + 1] = es[k + 1], es[k]
        m = h.put(f, nr, nc, es)
    for o in (f + "_sorted", f + "_canon", "k_sorted", "k_canon"):
        h.emit(o, [m])
    if r.random() < 0.4:
        h.emit(f + "_sort", [m])
        for o in (f + "_sorted", f + "_canon"):
            h.emit(o, [m])


def resembling(h, f, nr, nc, ea, canon):
    r = h.rng
    csc = f == "csc"
    rows = {}
    for i, j, v in ea:
        i, j = (j, i) if csc else (i, j)
        rows.setdefault(i, []).append(j)
    n, m = (nc, nr) if csc else (nr, nc)
    seq = [sorted(rows.get(i, [])) if canon else rows.get(i, []) for i in range(n)]
    how = r.random()
    if how < 0.5 and n:
        flat = [j for q in seq for j in q]
        must = [k for k in range(1, len(flat)) if canon and flat[k] <= flat[k - 1]]
        cuts = must + [r.randint(0, len(flat)) for _ in range(n - 1 - len(must))] if len(must) < n else None
        if cuts is not None:
            cuts = [0] + sorted(cuts) + [len(flat)]
            seq = [flat[cuts[k]:cuts[k + 1]] for k in range(n)]
    elif how < 0.75:
        seq = [r.sample(range(m), len(q)) if len(set(q)) == len(q) else [r.randrange(m) for _ in q] for q in seq]
        if canon:
            seq = [sorted(q) for q in seq]
    eb = [(i, j, h.rv(0.1)) for i, q in enumerate(seq) for j in q]
    return [(j, i, v) for i, j, v in eb] if csc else eb


def pair(h, f, canon=None):
    """Two matrices of one shape whose patterns overlap in interesting ways."""
    r = h.rng
    nr, nc = h.shape()
    canon = r.random() < 0.5 if canon is None else canon
    cap = max(0, (h.maxi // 2) if h.maxi < 1000 else 200)
    ea = h.entries(nr, nc, canon=canon, cap=cap)
    t = r.random()
    if t < 0.3:
        eb = h.entries(nr, nc, canon=canon, cap=cap)
    elif t < 0.45:
        # the same arrays but for one: the minor indices cut into rows elsewhere,
        # the same pattern with other values, rows as long with other indices
        eb = resembling(h, f, nr, nc, ea, canon)
    else:
        # same pattern, partly shifted or cancelling
        eb = []
        for (i, j, v) in ea:
            u = r.random()
            if u < 0.15:
                continue
            w = v if u < 0.4 else h.neg(v) if u < 0.65 and not h.unsigned else h.rv(0.2)
            eb.append((i, j, w))
        eb += [(i, j, h.rv(0.2)) for (i, j) in h.positions(nr, nc, 4)]
        eb = eb[:cap]
        if canon:
            eb = [(i, j, v) for (i, j), v in sorted({(i, j): v for i, j, v in eb}.items())]
        elif r.random() < 0.5:
            r.shuffle(eb)
    if canon and f == "csc":
        ea.sort(key=lambda e: (e[1], e[0]))
        eb.sort(key=lambda e: (e[1], e[0]))
    return h.put(f, nr, nc, ea, canon), h.put(f, nr, nc, eb, canon and r.random() < 1)


def f_addsub(h):
    """C05."""
    r = h.rng
    f = r.choice(["csr", "csr", "csc", "csc", "coo"])
    a, b = pair(h, f)
    if f == "coo":
        ops = ["coo_add"]
    else:
        ops = [f + "_add", f + "_sub"] if not h.unsigned else [f + "_add"]
        if f == "csc":
            ops += ["csc_add_m"] + (["csc_sub_m"] if not h.unsigned else [])
    for o in ops:
        kw = {} if o.endswith("_m") else {"form": forms(h)}
        t = "csr" if f == "coo" else f
        x, y = (a, b) if r.random() < 0.8 or h.unsigned else (b, a)
        m = h.make(o, [x, y], t, a.r, a.c, a.n + b.n, a.bound + b.bound, **kw)
        if f != "coo" and r.random() < 0.3 and h.maxi > 1000:
            h.make(f + "_add", [m, a], f, a.r, a.c, 0, 0, form=forms(h))
    if r.random() < 0.2:
        h.make(ops[-1], [a, a], "csr" if f == "coo" else f, a.r, a.c, a.n, a.bound)


FN_ALL = ["add", "sub", "mul", "ne", "eq"]
FN_ORD = ["lt", "le", "gt", "ge", "max", "min"]


def f_binop(h):
    """C06: element-wise routines, named, general and canonical."""
    r = h.rng
    canon = r.random() < 0.6
    a, b = pair(h, "csr", canon)
    fns = list(FN_ALL)
    if not h.cx:
        fns += FN_ORD
    if h.unsigned:
        fns.remove("sub")
    r.shuffle(fns)
    for fn in fns[:r.randint(3, len(fns))]:
        ws = ["named", "general", "auto"] + (["canonical"] if canon else [])
        ws = ["named"] + r.sample(ws[1:], r.randint(1, len(ws) - 1))
        for w in ws:
            h.make("k_bin", [a, b], "csr", a.r, a.c, 0, 0, fn=fn, which=w)


def f_div(h):
    """C06: quotients; the sums of the divisor divide those of the dividend."""
    r = h.rng
    h.cmds[0].pop("nz", None)       # they tell the zeros apart
    nr, nc = h.shape()
    P = sorted(set(h.positions(nr, nc, 60)))
    ea, eb = [], []
    canon = r.random() < 0.5
    free = h.ty in FLOATS
    for (i, j) in P:
        u = r.random()
        den = r.choice([1, 2, 3, 4, 6]) * (1 if h.unsigned else r.choice([1, -1]))
        num = 12 * r.randint(1, 5) * (1 if h.unsigned else r.choice([1, -1]))
        if h.cx:
            den = r.choice([[1, 0], [-1, 0], [0, 1], [0, -2], [1, 1], [2, 0], [1, -1]])
            num = [12 * r.randint(-3, 3), 12 * r.randint(-3, 3)]
        if free and u < 0.2:
            ea.append((i, j, num))
        elif free and u < 0.4:
            eb.append((i, j, den))
        elif free and u < 0.5:
            ea.append((i, j, num)); eb.append((i, j, 0))
        elif u < 0.6 and u > 0.5:
            eb.append((i, j, den))
            if r.random() < 0.5:
                ea.append((i, j, h.zero()))
        else:
            if not canon and r.random() < 0.3 and not h.cx:
                ea += [(i, j, num // 2), (i, j, num // 2)]
                if not h.unsigned:
                    eb += [(i, j, den + 5), (i, j, -5)]
                else:
                    eb.append((i, j, den))
            else:
                ea.append((i, j, num)); eb.append((i, j, den))
    if not canon:
        r.shuffle(ea); r.shuffle(eb)
    a, b = h.put("csr", nr, nc, ea, canon), h.put("csr", nr, nc, eb, canon)
    for w in ["named", "general", "auto"] + (["canonical"] if canon else []):
        h.make("k_bin", [a, b], "csr", nr, nc, 0, 0, fn="div", which=w)


def f_matmat(h):
    """C07."""
    r = h.rng
    n, k, m = h.dim(), h.dim(), h.dim()
    if h.big:
        n, k, m = min(n, 40), min(k, 40), min(m, 40)
    if h.long:
        n, k, m = [(h.length(), 2, r.randint(1, 3)), (2, h.length(), 2), (r.randint(1, 3), 2, h.length())][r.randrange(3)]
    cap = 330 if h.long else 30 if h.big else 20
    if h.maxi < 1000:
        cap = min(cap, 12)
        n, m = min(n, 11), min(m, 11)
        t = r.random()
        if t < 0.06:
            # one dimension at the end of the index type's range
            n, k, m = [(h.maxi + 1, 2, 2), (2, h.maxi + 1, 3), (2, 3, h.maxi + 1)][int(t * 50)]
            cap = 9
            h.vmode = "small"
    f = r.choice(["csr", "csr", "csc", "csc", "mix"])
    A = h.fresh("csr" if f == "csr" else "csc", n, k, cap=cap, canon=r.random() < 0.3)
    t = r.random()
    B = h.fresh("csr" if f in ("csr", "mix") else "csc", k, m, cap=cap, canon=r.random() < 0.3)
    if t < 0.35 and A.es is not None and k == m and not h.unsigned:
        pass
    bound = A.bound * B.bound * 30 + 1
    if f == "mix":
        h.make("csc_mul_csr", [A, B], "csc", n, m, 0, bound, form=forms(h))
        return
    C = h.make(f + "_matmat", [A, B], f, n, m, 0, bound)
    h.make(f + "_mul", [A, B], f, n, m, 0, bound, form=forms(h))
    h.emit("k_%s_maxnnz" % f, [A, B])
    if r.random() < 0.6:
        h.make("k_%s_matmat" % f, [A, B], f, n, m, 0, bound)
    if n == k and r.random() < 0.4:
        h.make(f + "_matmat", [A, A], f, n, k, 0, A.bound * A.bound * 30)
    if bound < 10 ** 4 and h.maxi > 1000 and h.maxv > 10 ** 7:
        D = h.fresh(f, m, h.dim(), cap=cap)
        h.make(f + "_matmat", [C, D], f, n, D.c, 0, 0)


def f_cancel_matmat(h):
    """C07: products whose terms cancel, in every combination."""
    r = h.rng
    if h.unsigned:
        return f_matmat(h)
    n, m = r.randint(1, 4), r.randint(1, 5)
    f = r.choice(["csr", "csc"])
    # A = [X X], B = [Y; -Y + Z]: most products vanish
    X = [(i, j, h.rv()) for i in range(n) for j in range(2) if r.random() < 0.8]
    ea = X + [(i, j + 2, v) for i, j, v in X]
    Y = [(i, j, h.rv()) for i in range(2) for j in range(m) if r.random() < 0.7]
    eb = Y + [(i + 2, j, h.neg(v)) for i, j, v in Y]
    if r.random() < 0.5:
        eb += [(r.randrange(4), r.randrange(m), h.rv())]
    r.shuffle(ea); r.shuffle(eb)
    A, B = h.put(f, n, 4, ea), h.put(f, 4, m, eb)
    h.make(f + "_matmat", [A, B], f, n, m, 0, 0)
    h.make("k_%s_matmat" % f, [A, B], f, n, m, 0, 0)
    h.emit("k_%s_maxnnz" % f, [A, B])


def f_tall_matmat(h):
    """C07: very tall or very wide products with few entries."""
    r = h.rng
    n = min(r.choice([129, 200, 256, 257, 258, 260, 300, 300]), h.maxi + 1)
    k, m = r.randint(1, 3), r.randint(1, 4)
    spots = [t for t in (0, 1, 2, 3, 63, 64, 127, 128, 129, 254, 255, 256, 257, n - 2, n - 1) if t < n]
    t0 = r.choice(spots)
    spots += [t for t in (t0, t0 + 128, t0 + 256, t0 - 128, t0 - 256) if 0 <= t < n] * 4
    ea = [(r.choice(spots), r.randrange(k), h.rv()) for _ in range(r.randint(1, 6))]
    eb = [(i, (i + d) % m, h.rv()) for i in range(k) for d in range(r.randint(1, 2))]
    f = r.choice(["csr", "csc"])
    if f == "csr":
        A, B = h.put(f, n, k, ea), h.put(f, k, m, eb)
        h.make("csr_matmat", [A, B], f, n, m, 0, 0)
    else:
        A, B = h.put(f, m, k, [(j, i, v) for i, j, v in eb]), h.put(f, k, n, [(j, i, v) for i, j, v in ea])
        h.make("csc_matmat", [A, B], f, m, n, 0, 0)
    h.emit("k_%s_maxnnz" % f, [A, B])


def f_matvec(h):
    """C08."""
    r = h.rng
    f = r.choice(["csr", "csr", "csc", "csc", "coo"])
    m = h.fresh(f, cap=60)
    if f != "coo":
        h.emit(f + "_matvec", [m], x=h.vec(m.c))
        h.emit(f + "_mulvec", [m], x=h.vec(m.c), form=forms(h), rk=r.choice(["slice", "vec"]))
        h.emit("k_%s_matvec" % f, [m], x=h.vec(m.c), y=h.vec(m.r))
        for nv in r.sample([0, 1, 2, 3, 5, 4 + r.randrange(16), 7], 2) if m.r + m.c < 40 else [r.randrange(4)]:
            h.emit("k_%s_matvecs" % f, [m], nv=nv, x=h.vec(m.c * nv), y=h.vec(m.r * nv))
    else:
        h.emit("k_coo_matvec", [m], x=h.vec(m.c), y=h.vec(m.r))


def f_transpose(h):
    """C09."""
    r = h.rng
    m = h.fresh(r.choice(["coo", "csr", "csc"]))
    for _ in range(r.randint(2, 5)):
        op = m.f + r.choice(["_t", "_transpose"])
        t = {"coo": "coo", "csr": "csc", "csc": "csr"}[m.f]
        m = h.make(op, [m], t, m.c, m.r, m.n, m.bound)


def f_scale(h):
    """C10."""
    r = h.rng
    f = r.choice(["coo", "csr", "csr", "csc", "csc"])
    m = h.fresh(f)
    if not h.unsigned:
        h.make(f + "_neg", [m], f, m.r, m.c, m.n, m.bound)
    if f != "coo":
        for _ in range(2):
            h.make(f + "_scale", [m], f, m.r, m.c, m.n, m.bound * 40, s=h.rv(0.2), form=r.randint(0, 1))
        if h.T == "c64":
            h.make(f + "_lscale", [m], f, m.r, m.c, m.n, m.bound * 40, s=h.rv(0.2), form=r.randint(0, 1))
    if f == "csr":
        both = h.T not in ("i16", "u16")
        if both or r.random() < 0.5:
            h.emit("k_scale_rows", [m], s=h.vec(m.r))
        else:
            both = True
        if both:
            h.emit("k_scale_cols", [m], s=h.vec(m.c))


def f_complex(h):
    """C11."""
    r = h.rng
    m = h.fresh(r.choice(["coo", "csr", "csc"]))
    ops = [m.f + "_" + o for o in ("conj", "real", "imag", "h")]
    r.shuffle(ops)
    for o in ops:
        t = {"coo": "coo", "csr": "csc", "csc": "csr"}[m.f] if o.endswith("_h") else m.f
        rr, cc = (m.c, m.r) if o.endswith("_h") else (m.r, m.c)
        q = h.make(o, [m], t, rr, cc, m.n, m.bound, real=o.endswith("real") or o.endswith("imag"))
        if q.real and q.f == "csr":
            h.make("csr_with_" + r.choice(["real", "imag"]), [q], "csr", m.r, m.c, m.n, m.bound)
        elif r.random() < 0.3:
            h.make(q.f + "_conj", [q], q.f, q.r, q.c, q.n, q.bound)
        elif r.random() < 0.3:
            h.make(q.f + "_h", [q], {"coo": "coo", "csr": "csc", "csc": "csr"}[q.f], q.c, q.r, q.n, q.bound)


def blockdims(h, k):
    if h.maxi < 1000 and not h.big and k > 1 and h.rng.random() < 0.06:
        # together at the end of the index type's range
        t = h.rng.choice([h.maxi, h.maxi + 1, h.maxi + 1])
        cuts = sorted(h.rng.choice([0, 0, 1, t - 1, t, t, h.rng.randint(0, t)]) for _ in range(k - 1))
        return [b - a for a, b in zip([0] + cuts, cuts + [t])]
    return [h.rng.choice([0, 1, 1, 2, 2, 3, 4]) if not h.big else h.rng.choice([5, 9, 14]) for _ in range(k)]


def f_blocks(h):
    """C12."""
    r = h.rng
    kind = r.choice(["h2", "v2", "csr", "h3", "v3", "c2", "c3", "csc", "ragged", "ragged3"])
    cap = 8 if h.maxi < 1000 else 40
    mk = lambda f, a, b: h.fresh(f, a, b, cap=cap)
    if kind in ("h2", "csr", "h3"):
        n = 3 if kind == "h3" else 2
        rr = blockdims(h, 1)[0]
        cs = blockdims(h, n)
        f = "csr" if kind == "csr" else "coo"
        ms = [mk(f, rr, c) for c in cs]
        if n == 2 and r.random() < 0.15 and cs[0] == cs[1]:
            ms[1] = ms[0]
        h.make({"h2": "coo_h_stack", "csr": "csr_h_stack", "h3": "coo_h_stack3"}[kind], ms, f, rr, sum(cs), 0, 0)
    elif kind in ("v2", "v3"):
        n = 3 if kind == "v3" else 2
        cc = blockdims(h, 1)[0]
        rs = blockdims(h, n)
        ms = [mk("coo", x, cc) for x in rs]
        h.make("coo_v_stack" + ("3" if n == 3 else ""), ms, "coo", sum(rs), cc, 0, 0)
    elif kind in ("c2", "csc", "c3"):
        n = 3 if kind == "c3" else 2
        rs, cs = blockdims(h, n), blockdims(h, n)
        f = "csc" if kind == "csc" else "coo"
        ms = [mk(f, rs[i], cs[j]) for i in range(n) for j in range(n)]
        h.make({"c2": "coo_compose", "csc": "csc_compose", "c3": "coo_compose3"}[kind], ms, f, sum(rs), sum(cs), 0, 0)
    else:
        # block rows split at different columns: still conforming
        n = 3 if kind == "ragged3" else 2
        total = r.randint(0, 6)
        rs = blockdims(h, n)
        ms = []
        for i in range(n):
            cuts = sorted(r.randint(0, total) for _ in range(n - 1))
            ws = [b - a for a, b in zip([0] + cuts, cuts + [total])]
            ms += [mk("coo", rs[i], w) for w in ws]
        h.make("coo_compose3" if n == 3 else "coo_compose", ms, "coo", sum(rs), total, 0, 0)


def idxlist(h, n, maxlen=None):
    r = h.rng
    if n == 0:
        return []
    k = r.choice(["empty", "one", "inc", "perm", "rep", "rev", "all", "long", "sortrep", "same"])
    if k == "empty":
        return []
    if k == "one":
        return [r.randrange(n)]
    if k == "inc":
        return sorted(r.sample(range(n), r.randint(1, n)))
    if k == "perm":
        q = list(range(n)); r.shuffle(q); return q
    if k == "rev":
        return list(reversed(range(n)))
    if k == "all":
        return list(range(n))
    if k == "sortrep":
        return sorted(r.randrange(n) for _ in range(r.randint(1, n + 6)))
    if k == "same":
        return [r.randrange(n)] * r.randint(2, n + 6)
    if k == "long":
        return [r.randrange(n) for _ in range(n + 3)]
    return [r.randrange(n) for _ in range(r.randint(1, n + 2))]


def f_select(h):
    """C13."""
    r = h.rng
    f = r.choice(["csr", "csc"])
    m = h.fresh(f, canon=True, cap=20 if h.maxi < 1000 else 60)
    for _ in range(r.randint(1, 3)):
        kw = {}
        lim = 10 if h.maxi < 1000 else 10 ** 6
        if r.random() < 0.75:
            kw["rows"] = idxlist(h, m.r)[:lim]
        if r.random() < 0.75:
            kw["cols"] = idxlist(h, m.c)[:lim]
        if f == "csr" and r.random() < 0.3:
            kw = {"rows": idxlist(h, m.r)[:lim], "cols": idxlist(h, m.c)[:lim]}
            h.make("k_select", [m], f, len(kw["rows"]), len(kw["cols"]), 0, m.bound, **kw)
            continue
        s = h.make(f + "_select", [m], f, len(kw["rows"]) if "rows" in kw else m.r,
                   len(kw["cols"]) if "cols" in kw else m.c, 0, m.bound, **kw)
        if r.random() < 0.3:
            kw = {}
            if r.random() < 0.75:
                kw["rows"] = idxlist(h, s.r)[:lim]
            if r.random() < 0.75:
                kw["cols"] = idxlist(h, s.c)[:lim]
            # the result need not be canonical: a rejection is then due
            h.make(f + "_select", [s], f, 0, 0, 0, m.bound, **kw)


def f_slice(h):
    """C14."""
    r = h.rng
    m = h.fresh("csr", cap=20 if h.maxi < 1000 else 80)
    for _ in range(r.randint(2, 5)):
        o = r.choice(["sub", "sub", "row", "slice", "col", "col"])
        if o == "sub":
            R, C = min(m.r, h.maxi), min(m.c, h.maxi)
            r0, r1 = sorted((r.randint(0, R), r.randint(0, R)))
            c0, c1 = sorted((r.randint(0, C), r.randint(0, C)))
            h.make("k_submatrix", [m], "csr", r1 - r0, c1 - c0, 0, m.bound, r0=r0, r1=r1, c0=c0, c1=c1)
        elif o == "row":
            h.emit("k_row_index", [m], idx=idxlist(h, m.r)[:20])
        elif o == "slice":
            a, b = r.randint(0, m.r), r.randint(0, m.r)
            h.emit("k_row_slice", [m], start=a, stop=b, step=r.choice([1, 1, 2, 3, 7]))
        else:
            ix = idxlist(h, m.c)[:10 if h.maxi < 1000 else 50]
            h.make("k_col_index", [m], "csr", m.r, len(ix), 0, m.bound, idx=ix)


def f_diag(h):
    """C15."""
    r = h.rng
    f = r.choice(["coo", "coo", "csr", "csr", "csc", "dok"])
    m = h.fresh(f)
    if f != "dok":
        h.emit(f + "_diagonal", [m])
    if f in ("csr", "csc"):
        for k in {-m.r, m.c, 0, 1, -1, r.randint(-m.r, m.c), r.randint(-m.r, m.c)}:
            if -m.r <= k <= m.c:
                h.emit("k_%s_diagonal" % f, [m], k=k)
    if f == "coo":
        lo = -m.r if h.signed_i else 0
        hi = m.c + 1
        if h.maxi < 1000:
            hi = min(hi, h.maxi)
            lo = max(lo, -100)
        for k in {0, 1, -1, r.randint(lo, hi), r.randint(lo, hi), hi}:
            if lo <= k <= hi:
                h.make("coo_upper", [m], "coo", m.r, m.c, 0, m.bound, k=k)
    if f in ("csr", "dok") and m.r and m.c:
        P = [e[:2] for e in (m.es or [])]
        for _ in range(4):
            i, j = r.choice(P) if P and r.random() < 0.6 else (r.randrange(m.r), r.randrange(m.c))
            h.emit(f + "_get", [m], i=i, j=j)
    if f == "csr":
        h.emit("k_count_diag", [m])


def f_reject(h):
    """C16: operands at and around the boundary of fitting."""
    r = h.rng
    off = lambda: r.choice([-2, -1, -1, 0, 0, 1, 1, 2])
    near = lambda n: max(0, n + off())
    k = r.choice(["new", "new", "add", "add", "mul", "mul", "vec", "vec", "stack", "compose", "select", "dok",
                  "graph", "stack3", "compose3"])
    R, C = r.randint(0, 4), r.randint(0, 4)
    if k == "new":
        f = r.choice(["coo", "csr", "csc"])
        es = h.entries(R, C, cap=8)
        if f == "coo":
            i, j, x = [e[0] for e in es], [e[1] for e in es], [e[2] for e in es]
            for arr, lim in ((i, R), (j, C)):
                if r.random() < 0.4:
                    o = off()
                    if o < 0:
                        del arr[max(0, len(arr) + o):]
                    elif lim:
                        arr += [0] * o
            if r.random() < 0.4:
                o = off()
                x = x[:max(0, len(x) + o)] if o < 0 else x + [h.rv() for _ in range(o)]
            h.emit("coo_new", [], h.new(), r=R, c=C, i=i, j=j, x=x)
        else:
            p, j, x = h.pack(f, R, C, es)
            minor = C if f == "csr" else R
            which = r.choice(["p", "j", "x", "jx", "none", "swap", "last"])
            o = r.choice([-2, -1, 1, 2])
            if which == "p":
                p = p[:len(p) + o] if o < 0 else p + [p[-1]] * o
            elif which in ("j", "jx"):
                j = j[:max(0, len(j) - abs(o))]
            if which in ("x", "jx"):
                x = x[:max(0, len(x) - abs(o))]
            if which == "last" and p:
                p[-1] += abs(o)
            if which == "swap":
                p, j = j, p
            if p == [] or all(0 <= t < max(1, minor) for t in j[:p[-1]]):
                if which != "swap" or len(p) != (R if f == "csr" else C) + 1:
                    h.emit(f + "_new", [], h.new(), r=R, c=C, p=p, j=j, x=x)
        return
    mk = lambda f, a, b, **q: h.fresh(f, a, b, cap=8, **q)
    if k == "add":
        f = r.choice(["coo", "csr", "csc"])
        a = mk(f, R, C)
        t = r.random()
        b = mk(f, near(R) if t < 0.7 else R, near(C) if t > 0.3 else C) if t < 0.9 else mk(f, C, R)
        ops = {"coo": ["coo_add"], "csr": ["csr_add", "csr_sub"], "csc": ["csc_add", "csc_sub", "csc_add_m", "csc_sub_m"]}[f]
        for o in ops:
            if h.unsigned and "sub" in o:
                continue
            h.make(o, [a, b], f, R, C, 0, 0, form=forms(h))
    elif k == "mul":
        f = r.choice(["csr", "csc", "mix"])
        a = mk("csr" if f == "csr" else "csc", R, C)
        b = mk("csr" if f != "csc" else "csc", near(C), r.randint(0, 4))
        for o in {"csr": ["csr_matmat", "csr_mul"], "csc": ["csc_matmat", "csc_mul"], "mix": ["csc_mul_csr"]}[f]:
            h.make(o, [a, b], f, R, b.c, 0, 0, form=forms(h))
    elif k == "vec":
        f = r.choice(["csr", "csc"])
        a = mk(f, R, C)
        for n in {near(C), C, R}:
            h.emit(f + "_matvec", [a], x=h.vec(n))
            h.emit(f + "_mulvec", [a], x=h.vec(n), form=forms(h), rk=r.choice(["slice", "vec"]))
    elif k in ("stack", "stack3"):
        n = 3 if k == "stack3" else 2
        hz = r.random() < 0.5
        dims = [(near(R) if r.random() < 0.5 else R, r.randint(0, 3)) for _ in range(n)]
        ms = [mk("coo", *(d if hz else d[::-1])) for d in dims]
        h.make(("coo_h_stack" if hz else "coo_v_stack") + ("3" if n == 3 else ""), ms, "coo", 0, 0, 0, 0)
        if n == 2 and hz:
            ms = [mk("csr", *d) for d in dims]
            h.make("csr_h_stack", ms, "csr", 0, 0, 0, 0)
    elif k in ("compose", "compose3"):
        n = 3 if k == "compose3" else 2
        rs, cs = blockdims(h, n), blockdims(h, n)
        if sum(rs) + 2 > h.maxi or sum(cs) + 2 > h.maxi:
            # the widened block must still be within the range of the indices
            rs, cs = [x % 9 for x in rs], [x % 9 for x in cs]
        D = [[rs[i], cs[j]] for i in range(n) for j in range(n)]
        if r.random() < 0.7:
            D[r.randrange(n * n)][r.randint(0, 1)] += r.choice([1, 1, 2])
        f = "csc" if n == 2 and r.random() < 0.5 else "coo"
        ms = [mk(f, *d) for d in D]
        h.make({("coo", 2): "coo_compose", ("coo", 3): "coo_compose3", ("csc", 2): "csc_compose"}[f, n], ms, f, 0, 0, 0, 0)
    elif k == "select":
        f = r.choice(["csr", "csc"])
        m = mk(f, R, C, canon=r.random() < 0.7)
        bad = lambda n: r.choice([n, n, n + 1, n + 5] + ([-1, -1, -2] if h.signed_i else []))
        for _ in range(3):
            kw = {}
            for key, n in (("rows", R), ("cols", C)):
                t = r.random()
                if t < 0.8:
                    kw[key] = idxlist(h, n)[:6]
                if t < 0.35:
                    kw[key].insert(r.randint(0, len(kw[key])), bad(n))
            h.make(f + "_select", [m], f, 0, 0, 0, 0, **kw)
    elif k == "dok":
        m = h.fresh("dok", R, C, cap=4)
        for _ in range(5):
            lo = -2 if h.signed_i else 0
            h.emit(r.choice(["dok_set", "dok_add"] + ([] if h.unsigned else ["dok_sub"])), [m],
                   i=max(lo, r.choice([R, R + 1, -1, 0, max(0, R - 1)])),
                   j=max(lo, r.choice([C, C + 1, -1, 0, max(0, C - 1)])), x=h.rv(0.2))
        h.emit("dok_to_dense", [m])
    else:
        rr, cc = (R, near(R))
        if r.random() < 0.4:
            es = h.entries(rr, rr, cap=5)
            es = es + [(j, i, v) for i, j, v in es]
            m = h.put("csr", rr, rr, es)
        else:
            m = mk("csr", rr, cc)
        h.emit("g_cc", [m], directed=r.random() < 0.5, conn=r.choice(["weak", "strong"]))
        if m.r != m.c or m.r > 0:
            h.emit("g_dfs", [m], directed=r.random() < 0.5, start=0)
        if m.r != m.c:
            h.emit("csr_cc", [m], F="i32")


def f_dok(h):
    """C17: histories of a dictionary matrix."""
    r = h.rng
    R, C = r.randint(1, 4), r.randint(1, 4)
    if r.random() < 0.2:
        m = Mat(h.new(), "dok", R, C, 0, 1)
        h.emit("dok_from_dense", [], m.name, D=h.dense(R, C))
    elif r.random() < 0.3:
        m = Mat(h.new(), "dok", R, C, 0, 1)
        h.emit("dok_with_capacity", [], m.name, r=R, c=C, k=r.choice([0, 1, 10]))
    else:
        m = h.put("dok", R, C, [])
    h.vmode = "small"
    lo = -1 if h.signed_i else 0
    hot = [(r.randrange(R), r.randrange(C)) for _ in range(2)]
    low = {}     # lower bound per position, so that unsigned elements never underflow
    first = h.cmds[-1]
    if first["op"] == "dok_from_dense":
        for i, row in enumerate(first["D"]):
            for j, v in enumerate(row):
                low[i, j] = v
    for _ in range(r.randint(6, 16)):
        u = r.random()
        i, j = r.choice(hot) if u < 0.6 else (r.randint(lo, R), r.randint(lo, C)) if u < 0.75 else (r.randrange(R), r.randrange(C))
        x = h.rv(0.2)
        op = r.choice(["dok_set", "dok_add", "dok_add", "dok_sub", "dok_sub"])
        if h.unsigned:
            cur = low.get((i, j), 0)
            if op == "dok_sub":
                x = r.choice([cur, min(cur, x)])
            low[i, j] = x if op == "dok_set" else cur + x if op == "dok_add" else cur - x
        h.emit(op, [m], i=i, j=j, x=x)
        if r.random() < 0.5:
            h.emit("dok_get", [m], i=max(0, i), j=max(0, j))
    h.emit("dok_to_dense", [m])
    h.emit("dok_to_coo", [m], h.new())
    if r.random() < 0.3 and not h.e and "nz" not in h.cmds[0]:
        h.emit("dok_to_string", [m])
    if r.random() < 0.4:
        h.emit(r.choice(["dok_to_csr", "dok_to_csc"]), [m], h.new())


def f_ctor(h):
    """C18: constructors and builders."""
    r = h.rng
    k = r.choice(["dense", "dense", "diag", "id", "size", "arrays", "build", "build", "setval"])
    if k == "dense":
        R, C = h.shape()
        if h.maxi < 1000:
            R, C = min(R, 10), min(C, 10)
        D = h.dense(R, C)
        for f in ("coo", "csr", "csc", "dok"):
            h.emit(f + "_from_dense", [], h.new(), D=D)
    elif k == "diag":
        x = h.vec(min(h.dim(), 100), r.choice([0, 0.3, 1]))
        for f in ("coo", "csr", "csc"):
            h.emit(f + "_with_diagonal", [], h.new(), x=x)
    elif k == "id":
        h.emit("coo_identity", [], h.new(), n=h.dim())
    elif k == "size":
        R, C = h.shape()
        m = h.new()
        h.emit("coo_with_size", [], m, r=R, c=C)
        h.emit("coo_with_capacity", [], h.new(), r=R, c=C, k=r.choice([0, 3, 50]))
        h.emit("csr_with_size", [], h.new(), r=R, c=C)
        h.emit("dok_new", [], h.new(), r=R, c=C)
        h.emit("dok_with_capacity", [], h.new(), r=R, c=C, k=3)
    elif k == "arrays":
        f = r.choice(["coo", "csr", "csc"])
        m = h.fresh(f)
        if f != "csc":
            h.make(f + "_clone", [m], f, m.r, m.c, m.n, m.bound)
        if f == "csc":
            h.emit("csc_shape", [m])
    elif k == "build":
        R, C = r.randint(1, 5), r.randint(1, 5)
        m = h.put("coo", R, C, h.entries(R, C, cap=3)) if r.random() < 0.5 else None
        if m is None:
            m = Mat(h.new(), "coo", R, C, 0, 1, es=[])
            if r.random() < 0.5:
                h.emit("coo_with_size", [], m.name, r=R, c=C)
            else:
                h.emit("coo_with_capacity", [], m.name, r=R, c=C, k=r.choice([0, 2]))
        n = len(m.es)
        for _ in range(r.randint(2, 8)):
            t = r.random()
            if t < 0.55:
                h.emit("coo_push", [m], i=r.randrange(R), j=r.randrange(C), x=h.rv(0.15)); n += 1
            elif t < 0.85:
                es = h.entries(R, C, cap=4)
                h.emit("coo_extend", [m], i=[e[0] for e in es], j=[e[1] for e in es], x=[e[2] for e in es]); n += len(es)
            elif n:
                h.emit("coo_set_val", [m], k=r.randrange(n), x=h.rv(0.2))
        h.emit("coo_to_dense", [m])
        h.emit(r.choice(["coo_to_csr", "coo_to_csc"]), [m], h.new())
    else:
        m = h.fresh(r.choice(["coo", "csr", "csc"]))
        for _ in range(3):
            if m.n:
                h.emit(m.f + "_set_val", [m], k=r.randrange(m.n), x=h.rv(0.2))


def graph(h, sym=False):
    """A square CSR matrix read as a graph."""
    r = h.rng
    n = r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 12]) if not h.big else r.choice([20, 30, 45, 60])
    n = min(n, 100)
    if h.long:
        n = h.length(r.choice([70, 130]))
    if h.maxi < 1000 and r.random() < 0.04:
        n = r.choice([h.maxi, h.maxi + 1])
    k = r.choice(["rand", "rand", "sparse", "cycle", "path", "clusters", "tree", "dense", "empty", "dag",
                  "lolly", "bip", "rpath", "star", "nested"])
    E = []
    perm = list(range(n)); r.shuffle(perm)
    P = lambda i: perm[i]
    if n == 0 or k == "empty":
        E = []
    elif k in ("rand", "sparse"):
        m = r.randint(0, 3 * n) if k == "rand" else r.randint(0, n)
        E = [(r.randrange(n), r.randrange(n)) for _ in range(m)]
    elif k == "cycle":
        E = [(P(i), P((i + 1) % n)) for i in range(n)] + [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 2))]
        if r.random() < 0.5:
            E.pop(r.randrange(len(E)))
    elif k in ("path", "rpath"):
        E = [(P(i), P(i + 1)) for i in range(n - 1)]
        if k == "rpath":
            E = [(b, a) if r.random() < 0.4 else (a, b) for a, b in E]
        E += [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 2))]
    elif k == "clusters":
        q = max(1, n // r.randint(1, 4))
        for b in range(0, n, q):
            g = [P(i) for i in range(b, min(n, b + q))]
            E += [(g[i], g[(i + 1) % len(g)]) for i in range(len(g))]
            E += [(r.choice(g), r.choice(g)) for _ in range(r.randint(0, 2))]
        E += [(P(i), P(j)) for i, j in [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 3))] if i // q < j // q]
    elif k == "tree":
        E = [(P(r.randrange(i)), P(i)) for i in range(1, n)]
        E += [(r.randrange(n), r.randrange(n)) for _ in range(r.randint(0, 2))]
    elif k == "dense":
        E = [(i, j) for i in range(n) for j in range(n) if r.random() < 0.5][:200]
    elif k == "dag":
        E = [(P(i), P(j)) for i in range(n) for j in range(i + 1, n) if r.random() < 0.4][:150]
    elif k == "lolly":
        m = r.randint(1, n)
        E = [(P(i), P((i + 1) % m)) for i in range(m)] + [(P(i), P(i + 1)) for i in range(m - 1, n - 1)]
    elif k == "bip":
        E = [(P(i), P(j)) for i in range(n // 2) for j in range(n // 2, n) if r.random() < 0.4][:150]
        if r.random() < 0.5:
            E += [(b, a) for a, b in E if r.random() < 0.3]
    elif k == "star":
        E = [(P(0), P(i)) if r.random() < 0.5 else (P(i), P(0)) for i in range(1, n)]
    elif k == "nested":
        # nested cycles: back edges to several ancestors
        E = [(P(i), P(i + 1)) for i in range(n - 1)]
        for _ in range(r.randint(1, 3)):
            i = r.randrange(n); j = r.randint(0, i)
            E.append((P(i), P(j)))
    if r.random() < 0.25 and n:
        E += [(i, i) for i in range(n) if r.random() < 0.3]
    if sym:
        iso = [i for i in range(n) if r.random() < r.choice([0, 0.2, 0.6])]
        E = [e for e in E if e[0] not in iso and e[1] not in iso]
        E = E + [(b, a) for a, b in E if a != b]
    if r.random() < 0.3:
        E += [e for e in E if r.random() < 0.3]
    t = r.random()
    if t < 0.5:
        r.shuffle(E)
    elif t < 0.75:
        E.sort()
    else:
        E.sort(reverse=True)
    E = E[:h.maxi] if h.maxi < 1000 and not sym else E
    if h.maxi < 1000 and len(E) > h.maxi:
        E = sorted(set(E))
        if len(E) > h.maxi:
            E = []
    h.vmode = r.choice(["unit", "small"])
    return h.put("csr", n, n, [(i, j, h.rv(0.15 if r.random() < 0.3 else 0)) for i, j in E]), E


def f_scc(h):
    """C19."""
    m, _ = graph(h)
    h.emit("g_cc", [m], directed=True, conn="strong")
    if h.rng.random() < 0.3:
        # a canonical copy with its edges in order
        h.emit("csr_sumdup", [m])
        h.emit("g_cc", [m], directed=True, conn="strong")


def f_weak(h):
    """C20."""
    m, _ = graph(h)
    for d, c in ((True, "weak"), (False, "weak"), (False, "strong")):
        h.emit("g_cc", [m], directed=d, conn=c)


def f_dfs(h):
    """C21."""
    m, _ = graph(h)
    if m.r == 0:
        return
    starts = {h.rng.randrange(m.r) for _ in range(3)} | {0}
    for s in starts:
        for d in (True, False):
            h.emit("g_dfs", [m], directed=d, start=s)


def f_gcomp(h):
    """C22."""
    m, _ = graph(h, sym=True)
    F = h.rng.choice(["i8", "i32", "i64", "isize"])
    h.emit("csr_cc", [m], F=F)
    h.emit("k_gcomp", [m], F=F)


def f_elim(h):
    """C23."""
    r = h.rng
    m = h.fresh("csr", zeros=r.choice([0.2, 0.5, 0.8, 1.0]))
    h.emit("k_elim", [m])
    if r.random() < 0.5:
        if m.n and r.random() < 0.5:
            h.emit("csr_to_coo", [m], h.new())
        h.emit("k_elim", [m])


def f_text(h):
    """C24."""
    r = h.rng
    f = r.choice(["coo", "csr", "csc", "dok", "table", "table"])
    h.vmode = r.choice(["small", "distinct", "mid"])
    kw = {}
    if h.T[0] in "fc" and r.random() < 0.6:
        # fractions: the text shows the numbers themselves, so the call says 2^q
        kw["q"] = r.randint(1, 3)
        h.e = -kw["q"]
    if f == "table":
        R, C = (r.randint(0, 6), r.randint(0, 6))
        es = h.entries(R, C, canon=True)
        if h.T in ("f64", "i64", "i128", "f32") and r.random() < 0.3:
            # the table shows large floats in exponent form: stay below
            es = [(i, j, v if h.cx else v // abs(v) * r.randint(1, 999) if v else 0) for i, j, v in es]
        m = h.put("csr", R, C, sorted(es), True)
        h.emit("csr_to_table", [m], **kw)
    else:
        m = h.fresh(f)
        h.emit(f + "_to_string", [m], **kw)


def f_forms(h):
    """C25: operator forms, aliasing, repetition."""
    r = h.rng
    k = r.choice(["bin", "bin", "mul", "scale", "vec", "repeat", "alias"])
    sub = not h.unsigned

    def same(ms):
        for x in ms[1:]:
            h.emit("same", [ms[0], x])
    if k == "bin":
        f = r.choice(["csr", "csc", "coo"])
        a, b = pair(h, f)
        for o in (["coo_add"] if f == "coo" else [f + "_add"] + ([f + "_sub"] if sub else [])):
            ms = [h.make(o, [a, b], f, a.r, a.c, 0, 0, form=q) for q in range(4)]
            if f == "csc":
                ms.append(h.make(o + "_m", [a, b], f, a.r, a.c, 0, 0))
            same(ms)
    elif k == "mul":
        f = r.choice(["csr", "csc", "mix"])
        n, q, m = r.randint(0, 4), r.randint(0, 4), r.randint(0, 4)
        a = h.fresh("csr" if f == "csr" else "csc", n, q, cap=12)
        b = h.fresh("csc" if f == "csc" else "csr", q, m, cap=12)
        o = {"csr": "csr_mul", "csc": "csc_mul", "mix": "csc_mul_csr"}[f]
        ms = [h.make(o, [a, b], f, n, m, 0, 0, form=x) for x in range(4)]
        if f != "mix":
            ms.append(h.make(f + "_matmat", [a, b], f, n, m, 0, 0))
        same(ms)
    elif k == "scale":
        f = r.choice(["csr", "csc"])
        a = h.fresh(f)
        s = h.rv(0.2)
        ms = [h.make(f + "_scale", [a], f, a.r, a.c, 0, 0, s=s, form=x) for x in range(2)]
        if h.T == "c64":
            ms += [h.make(f + "_lscale", [a], f, a.r, a.c, 0, 0, s=s, form=x) for x in range(2)]
        same(ms)
    elif k == "vec":
        f = r.choice(["csr", "csc"])
        a = h.fresh(f)
        x = h.vec(a.c)
        for rk in ("slice", "vec"):
            for q in range(4):
                h.emit(f + "_mulvec", [a], x=x, form=q, rk=rk)
    elif k == "alias":
        f = r.choice(["csr", "csc", "coo"])
        R = r.randint(0, 5)
        a = h.fresh(f, R, R, cap=15)
        b = h.put(f, R, R, a.es)
        ops = {"coo": ["coo_add", "coo_h_stack", "coo_v_stack"],
               "csr": ["csr_add", "csr_mul", "csr_matmat", "csr_h_stack"] + (["csr_sub"] if sub else []),
               "csc": ["csc_add", "csc_mul", "csc_matmat", "csc_add_m"] + (["csc_sub", "csc_sub_m"] if sub else [])}[f]
        for o in ops:
            same([h.make(o, [a, a], f, R, R, 0, 0), h.make(o, [a, b], f, R, R, 0, 0)])
        if f != "csc":
            same([h.make(f + "_clone", [a], f, R, R, 0, 0), b])
    else:
        a = h.fresh(r.choice(["coo", "csr", "csc"]))
        ops = {"coo": ["to_csr", "to_csc", "t", "transpose"], "csr": ["to_csc", "to_coo", "t", "transpose"],
               "csc": ["to_csr", "to_coo", "t", "transpose"]}[a.f]
        if not h.unsigned:
            ops += ["neg"]
        if h.cx:
            ops += ["conj", "h", "real", "imag"]
        for o in r.sample(ops, 3):
            same([h.make(a.f + "_" + o, [a], a.f, a.r, a.c, 0, 0) for _ in range(2)])
        if a.f == "csr":
            for _ in range(2):
                h.emit("csr_diagonal", [a])


def f_history(h):
    """C02 (and every operation in context): long mixed histories in which
    every call may work on the results of earlier ones."""
    r = h.rng
    n = r.choice([2, 3, 3, 4])
    small = h.maxi < 1000
    pool = []
    dirty = set()
    vlim = min(h.maxv, 10 ** 6)
    nlim = 60 if small else 400

    def add(m):
        if m.n <= nlim and m.bound <= vlim:
            pool.append(m)
        if len(pool) > 7:
            pool.pop(r.randrange(len(pool) - 3))

    for f in r.sample(["coo", "csr", "csc", "dok", "csr", "csc"], 3):
        es = h.entries(n, n, cap=8)
        pool.append(h.put(f, n, n, es, slack=(f in ("csr", "csc") and r.random() < 0.4)))
    for _ in range(r.randint(10, 26)):
        m = r.choice(pool)
        mates = [x for x in pool if x.f == m.f]
        b = r.choice(mates)
        t = r.random()
        sameshape = (m.r, m.c) == (b.r, b.c)
        if t < 0.22:
            add(conv_step(h, m))
        elif t < 0.42 and m.f in ("csr", "csc", "coo") and sameshape:
            o = m.f + "_add"
            if m.f != "coo" and not h.unsigned and r.random() < 0.55:
                o = m.f + "_sub"
            if m.f == "csc" and r.random() < 0.4:
                o += "_m"
            f2 = "csr" if m.f == "coo" else m.f
            add(h.make(o, [m, b], f2, m.r, m.c, m.n + b.n, m.bound + b.bound, form=forms(h)))
        elif t < 0.52 and m.f in ("csr", "csc") and m.c == b.r:
            bd = m.bound * b.bound * max(1, m.c) * 2 + 1
            if bd <= vlim and m.n * max(1, b.c) <= nlim * 3:
                o = m.f + r.choice(["_matmat", "_mul"])
                add(h.make(o, [m, b], m.f, m.r, b.c, min(m.r * b.c, m.n * max(1, b.c)), bd, form=forms(h)))
        elif t < 0.60 and m.f != "dok":
            f2 = {"coo": "coo", "csr": "csc", "csc": "csr"}[m.f]
            add(h.make(m.f + r.choice(["_t", "_transpose"]), [m], f2, m.c, m.r, m.n, m.bound))
        elif t < 0.66 and m.f != "dok":
            if m.f == "coo" or r.random() < 0.4:
                if not h.unsigned:
                    add(h.make(m.f + "_neg", [m], m.f, m.r, m.c, m.n, m.bound))
            else:
                s = r.choice([h.one(), h.zero(), h.rv()])
                if m.bound * (h.vb([s]) + 1) <= vlim:
                    add(h.make(m.f + "_scale", [m], m.f, m.r, m.c, m.n, m.bound * (h.vb([s]) + 1), s=s, form=r.randint(0, 1)))
        elif t < 0.76:
            if m.f in ("csr", "csc"):
                h.emit(m.f + r.choice(["_sort", "_sumdup", "_sumdup"]), [m])
            elif m.f == "coo" and m.r and m.c and m.n < 40:
                h.emit("coo_push", [m], i=r.randrange(m.r), j=r.randrange(m.c), x=h.rv(0.2))
                m.n += 1
                m.bound += 200
            elif m.f == "dok" and m.r and m.c:
                h.emit("dok_add" if h.unsigned else r.choice(["dok_add", "dok_sub", "dok_set"]), [m],
                       i=r.randrange(m.r), j=r.randrange(m.c), x=h.rv(0.2))
                m.bound += 200
                m.n += 1
        elif t < 0.82 and m.f == "csr":
            o = r.choice(["k_elim", "sub", "col", "bin"])
            if o == "k_elim":
                h.emit("k_elim", [m])
            elif o == "sub":
                r0, r1 = sorted((r.randint(0, m.r), r.randint(0, m.r)))
                c0, c1 = sorted((r.randint(0, m.c), r.randint(0, m.c)))
                add(h.make("k_submatrix", [m], "csr", r1 - r0, c1 - c0, m.n, m.bound, r0=r0, r1=r1, c0=c0, c1=c1))
            elif o == "col" and m.n < 30:
                ix = idxlist(h, m.c)[:4]
                add(h.make("k_col_index", [m], "csr", m.r, len(ix), m.n * max(1, len(ix)), m.bound, idx=ix))
            elif sameshape:
                fn = r.choice(["mul", "ne", "eq"] + ([] if h.cx else FN_ORD))
                bd = max(m.bound * b.bound, m.bound, b.bound, 1)
                if bd <= vlim:
                    add(h.make("k_bin", [m, b], "csr", m.r, m.c, m.n + b.n, bd, fn=fn, which=r.choice(["named", "general", "auto"])))
        elif t < 0.86 and m.f in ("csr", "csc"):
            h.emit(m.f + "_sumdup", [m])
            kw = {}
            if r.random() < 0.7 and m.r:
                kw["rows"] = [r.randrange(m.r) for _ in range(r.randint(0, 4))]
            if r.random() < 0.7 and m.c:
                kw["cols"] = [r.randrange(m.c) for _ in range(r.randint(0, 4))]
            nr, nc = len(kw["rows"]) if "rows" in kw else m.r, len(kw["cols"]) if "cols" in kw else m.c
            add(h.make(m.f + "_select", [m], m.f, nr, nc, nr * nc, m.bound, **kw))
        elif t < 0.90 and m.f == "coo":
            o = r.choice(["h", "v", "upper"])
            if o == "upper":
                add(h.make("coo_upper", [m], "coo", m.r, m.c, m.n, m.bound, k=r.randint(0, 2)))
            elif o == "h" and m.r == b.r and m.c + b.c < 16:
                add(h.make("coo_h_stack", [m, b], "coo", m.r, m.c + b.c, m.n + b.n, max(m.bound, b.bound)))
            elif o == "v" and m.c == b.c and m.r + b.r < 16:
                add(h.make("coo_v_stack", [m, b], "coo", m.r + b.r, m.c, m.n + b.n, max(m.bound, b.bound)))
        elif t < 0.93 and h.cx and m.f != "dok":
            o = r.choice(["conj", "real", "imag", "h"])
            f2 = {"coo": "coo", "csr": "csc", "csc": "csr"}[m.f] if o == "h" else m.f
            rr, cc = (m.c, m.r) if o == "h" else (m.r, m.c)
            add(h.make(m.f + "_" + o, [m], f2, rr, cc, m.n, m.bound))
        else:
            reads(h, m)
    for m in pool:
        reads(h, m)
        if m.f != "dok" and r.random() < 0.6:
            conv_step(h, m)


def reads(h, m):
    r = h.rng
    if m.f == "coo":
        h.emit(r.choice(["coo_to_dense", "coo_diagonal"]), [m])
    elif m.f == "csc":
        h.emit(r.choice(["csc_to_dense", "csc_diagonal", "csc_sorted", "csc_canon", "csc_shape"]), [m])
    elif m.f == "dok":
        h.emit("dok_to_dense", [m])
    else:
        o = r.choice(["csr_diagonal", "csr_sorted", "csr_canon", "k_expandptr", "k_count_diag", "get", "g"])
        if o == "get":
            if m.r and m.c:
                h.emit("csr_get", [m], i=r.randrange(m.r), j=r.randrange(m.c))
        elif o == "g":
            if m.r == m.c:
                h.emit("g_cc", [m], directed=True, conn=r.choice(["strong", "weak"]))
        else:
            h.emit(o, [m])


# property -> [(family, weight)], which element types, how often large
FAMILIES = {
    "C01": [(f_conv, 1)], "C02": [(f_history, 1)], "C03": [(f_canon, 1)], "C04": [(f_pred, 1)],
    "C05": [(f_addsub, 1)], "C06": [(f_binop, 3), (f_div, 1)], "C07": [(f_matmat, 6), (f_cancel_matmat, 2), (f_tall_matmat, 1)],
    "C08": [(f_matvec, 1)], "C09": [(f_transpose, 1)], "C10": [(f_scale, 1)], "C11": [(f_complex, 1)],
    "C12": [(f_blocks, 1)], "C13": [(f_select, 1)], "C14": [(f_slice, 1)], "C15": [(f_diag, 1)],
    "C16": [(f_reject, 1)], "C17": [(f_dok, 1)], "C18": [(f_ctor, 1)], "C19": [(f_scc, 1)],
    "C20": [(f_weak, 1)], "C21": [(f_dfs, 1)], "C22": [(f_gcomp, 1)], "C23": [(f_elim, 1)],
    "C24": [(f_text, 1)], "C25": [(f_forms, 3), (f_history, 1)],
}
BIG = {p: 0.04 for p in FAMILIES if p not in ("C02", "C16", "C17", "C18", "C24", "C25")}
BIG.update(C07=0.06, C19=0.06, C21=0.05, C22=0.06, C05=0.06, C13=0.06, C03=0.05)


QUICK = {"C06": 2500}
LINEAR = (f_conv, f_canon, f_addsub, f_transpose, f_blocks, f_select, f_slice, f_diag, f_elim, f_dok)
COPIES = (f_conv, f_pred, f_transpose, f_blocks, f_select, f_slice, f_elim)
# families whose calls mix scalars that do not share a unit, or print them
UNIT_ONE = (f_history, f_text)
DEGREE = {f_binop: 2, f_div: 2, f_matmat: 3, f_cancel_matmat: 3, f_tall_matmat: 3, f_forms: 2, f_reject: 2}


def segments(prop, seed, count):
    rng = random.Random("%s/%s" % (prop, seed))
    fams = FAMILIES[prop]
    for k in range(count):
        fam = rng.choices([f for f, _ in fams], [w for _, w in fams])[0]
        tys = CPLX if prop == "C11" else REAL + CPLX
        # spread over the element types, complex ones a little more often
        ty = rng.choice(tys)
        if fam is f_div and ty not in FLOATS and rng.random() < 0.4:
            ty = rng.choice(sorted(FLOATS))
        h = Hist(random.Random(rng.random()), ty, big=rng.random() < BIG.get(prop, 0))
        if fam not in UNIT_ONE:
            h.units(DEGREE.get(fam, 1), fam in LINEAR, fam in COPIES)
        fam(h)
        if len(h.cmds) > 1:
            yield h.cmds

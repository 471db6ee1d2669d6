"""Histories on matrices with tens of thousands of rows or columns and few
entries, and on graphs with long paths: sizes beyond what 16 bits hold, and
depths beyond what a recursion would survive."""
import random

import gen
from gen import Mat, forms

# around multiples of powers of two, where blocked loops begin and end
EDGES = sorted({m * 2 ** k + d for k in range(3, 10) for m in (1, 2, 3) for d in (-1, 0, 1) if m * 2 ** k + d < 530})

WIDE = [t for t in gen.REAL + gen.CPLX if t.split(",")[0] not in ("u8", "i8", "u16", "i16")]
NARROW = ["u16,i128", "i16,i32", "i16,c32"]
TOP = {"u16": 65536, "i16": 32768}


class Big:
    """Shapes and entries of one such history."""
    def __init__(s, h):
        s.h, s.r = h, h.rng
        top = TOP.get(h.I)
        s.N = s.r.choice([top, top, top - 1] if top else [32769, 33000, 65537, 65600, 66000])
        s.top = top
        h.vmode = s.r.choice(["small", "distinct"])

    def spots(s, n):
        q = [t for t in (0, 1, 2, 40, 127, 128, 255, 256, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537,
                         n - 2, n - 1) if 0 <= t < n]
        if n < 20:
            return list(range(n))
        # some that agree modulo powers of two
        b = s.r.randrange(min(n, 400))
        return q + [t for w in (256, 32768, 65536) for t in (b, b + w) if t < n] * 2

    def es(s, R, C, k=None, dup=0.3, zeros=0.15):
        r, h = s.r, s.h
        a, b = s.spots(R), s.spots(C)
        if not a or not b:
            return []
        out = [(r.choice(a), r.choice(b), h.rv(zeros)) for _ in range(r.randint(3, 25) if k is None else k)]
        out += [(i, j, h.neg(v) if r.random() < 0.5 and not h.unsigned else h.rv(zeros))
                for i, j, v in out if r.random() < dup]
        if R > 20 and r.random() < 0.3:
            # a long full column or row now and then
            j = r.choice(b)
            t = r.choice(a)
            out += [(i, j, h.rv()) for i in range(t, min(R, t + 300))]
        r.shuffle(out)
        return out

    def shape(s, both=0.15):
        u = s.r.random()
        if u < both:
            return s.N, s.N
        d = s.N, s.r.choice([1, 2, 3, 5])
        return d if u < (1 + both) / 2 else d[::-1]

    def put(s, f, R, C, es=None, canon=False, **kw):
        es = s.es(R, C, **kw) if es is None else es
        if canon:
            es = sorted({(i, j): v for i, j, v in es}.items(), key=lambda e: e[0] if f != "csc" else e[0][::-1])
            es = [(i, j, v) for (i, j), v in es]
        return s.h.put(f, R, C, es, canon)

    def fresh(s, f, **kw):
        return s.put(f, *s.shape(), **kw)

    def idx(s, n):
        """A list of rows or columns to take."""
        r = s.r
        q = [r.choice(s.spots(n)) for _ in range(r.randint(0, 14))] if n else []
        u = r.random()
        if u < 0.25:
            q.sort()
        elif u < 0.35:
            q.sort(reverse=True)
        elif q and u < 0.5:
            # one of them over and over
            q += [r.choice(q)] * r.choice([127, 128, 255, 256, 257, 300])
            if r.random() < 0.5:
                q.sort()
        elif n < 600 and u < 0.7:
            q = sorted(list(range(n)) + [t for t in range(n) if r.random() < 0.1])
        return q


class Runs(Big):
    """A few rows (or columns) whose numbers of entries lie around multiples
    of powers of two."""
    edges = EDGES
    def __init__(s, h):
        super().__init__(h)
        s.N = s.r.choice(s.edges) + s.r.choice([0, 0, 1, 40])
        h.vmode = s.r.choice(["small", "distinct"])

    def shape(s, both=0.0):
        d = s.N, s.r.choice([1, 1, 2, 3])
        return d if s.r.random() < 0.5 else d[::-1]

    def es(s, R, C, k=None, dup=0.3, zeros=0.15):
        r, h = s.r, s.h
        if R == 0 or C == 0:
            return []
        out = []
        flip = R > C
        for i in range(min(R, C, 4)):
            n = max(R, C)
            m = r.choice([t for t in s.edges if t <= (n if r.random() < 0.8 else 2 * n)] or [n])
            if m <= n and r.random() < 0.7:
                b = r.randrange(n - m + 1)
                js = list(range(b, b + m)) if r.random() < 0.5 else sorted(r.sample(range(n), m))
            else:
                js = [r.randrange(n) for _ in range(m)]
            if r.random() < 0.3:
                r.shuffle(js)
            out += [(j, i, h.rv(zeros)) if flip else (i, j, h.rv(zeros)) for j in js]
        if r.random() < 0.3:
            r.shuffle(out)
        return out


class Long(Runs):
    """The same with a thousand entries and more."""
    def __init__(s, h, slow):
        s.edges = [999, 1000, 1001, 1023, 1024, 1025] + ([] if slow else [2000, 2048, 2049, 4096, 4097])
        super().__init__(h)


class Looks(Big):
    """Matrices of a special form (a diagonal, a permutation, a band, full or
    contiguous rows, a triangle) in all places but a few, which lie away from
    the ends of rows and of the list."""
    def __init__(s, h):
        super().__init__(h)
        s.N = s.r.choice([8, 9, 10, 12, 16, 17, 20, 24, 31, 32, 33, 40, 48, 65, 80])
        h.vmode = s.r.choice(["small", "distinct"])

    def shape(s, both=0.0):
        return (s.N, s.N) if s.r.random() < 0.75 else (s.N, s.r.choice([s.N + 1, s.N + 7, 40]))

    def spots(s, n):
        return sorted({0, n - 1} | set(s.r.sample(range(n), min(n, 10)))) if n else []

    def rows(s, R, C, kind=None):
        """Columns of the entries of every row, in order."""
        r = s.r
        n = min(R, C)
        kind = kind or r.choice(["diag", "perm", "perm", "band", "full", "runs", "runs", "tri", "long", "long"])
        if kind == "diag":
            return [[i] if i < n else [] for i in range(R)]
        if kind == "perm":
            q = r.sample(range(C), n)
            return [[q[i]] if i < n else [] for i in range(R)]
        if kind == "band":
            lo, hi = r.choice([(1, 1), (0, 1), (1, 0), (2, 2)])
            return [[j for j in range(i - lo, i + hi + 1) if 0 <= j < C] for i in range(R)]
        full = R if R * C < 700 else r.randint(2, 6)
        if kind == "full":
            return [list(range(C)) if i < full else [] for i in range(R)]
        if kind == "tri":
            return [list(range(min(i, C) + 1 if R * C < 700 else min(i, C, 6))) [:C] for i in range(R)]
        if kind == "runs":
            out = []
            for i in range(R):
                m = r.choice([0, 1, 4, 5, 6, 8, 12]) if i >= full else r.randint(min(8, C), C)
                b = r.randrange(max(1, C - m + 1))
                out.append(list(range(b, min(C, b + m))))
            return out
        # long rows, increasing, with gaps
        return [sorted(r.sample(range(C), min(C, r.choice([6, 7, 8, 16, 17, 24, 32])))) if i < 8 or r.random() < 0.3
                else sorted(r.sample(range(C), r.randint(0, min(C, 3)))) for i in range(R)]

    def bend(s, rows, C):
        """One departure from the form."""
        r = s.r
        at = [i for i, q in enumerate(rows) if len(q) > 3]
        one = [i for i, q in enumerate(rows) if len(q) == 1]
        o = r.choice(["swap", "out", "twice", "twice", "sum", "drop", "last"])
        if len(one) > 4 and (o == "sum" or r.random() < 0.5):
            # columns 2a+1 and 2b become 2a and 2b+1: the same sum and parity
            odd, even = [i for i in one if rows[i][0] % 2], [i for i in one if rows[i][0] % 2 == 0 and rows[i][0] + 1 < C]
            if odd and even:
                a, b = r.choice(odd), r.choice(even)
                rows[a][0] -= 1
                rows[b][0] += 1
        elif not at:
            if one:
                i = r.choice(one)
                rows[i] = r.choice([rows[i] * 2, [r.randrange(C)], [], rows[i] + [r.randrange(C)]])
        else:
            i = r.choice(at)
            q = rows[i]
            k = r.randrange(1, len(q) - 1)
            if o == "swap":
                m = r.randrange(1, len(q) - 1)
                q[k], q[m] = q[m], q[k]
            elif o == "out":
                q[k] = r.choice([0, C - 1, r.randrange(C)])
            elif o == "twice":
                q[k:k] = [q[k]] * r.choice([1, 1, 2, 3, 4])
            elif o == "drop":
                del q[k]
            elif o == "last":
                rows[-1 if r.random() < 0.5 else i].append(r.randrange(C))
            else:
                m = r.randrange(1, len(q) - 1)
                if q[k] + 1 < C and q[m] > 0:
                    q[k] += 1
                    q[m] -= 1

    def es(s, R, C, k=None, dup=0.3, zeros=0.15, kind=None, bends=None):
        r, h = s.r, s.h
        if R == 0 or C == 0:
            return []
        flip = r.random() < 0.35
        if flip:
            R, C = C, R
        rows = s.rows(R, C, kind)
        for _ in range(r.choice([0, 1, 1, 1, 2, 3]) if bends is None else bends):
            s.bend(rows, C)
        same = h.rv() if r.random() < 0.2 else None
        out = [(i, j, h.rv(zeros if r.random() < 0.3 else 0) if same is None else same) for i, q in enumerate(rows) for j in q]
        for _ in range(r.choice([0, 0, 1, 2])):
            # two neighbours of the list trade places
            if len(out) > 4:
                k = r.randrange(1, len(out) - 2)
                out[k], out[k + 1] = out[k + 1], out[k]
        if flip:
            out = [(j, i, v) for i, j, v in out]
        return out

    def idx(s, n):
        """All in order, but for a place or two."""
        r = s.r
        q = list(range(n))
        u = r.random()
        if u < 0.2:
            b = r.randrange(n)
            q = q[b:b + r.randint(1, n)]
        elif u < 0.3:
            q.reverse()
        elif u < 0.4:
            q = q[::r.choice([2, 3])]
        elif u < 0.5:
            q = [r.randrange(n)] * r.randint(2, 9)
        for _ in range(r.choice([0, 1, 1, 2])):
            if len(q) > 3:
                a, b = r.randrange(1, len(q) - 1), r.randrange(1, len(q) - 1)
                if r.random() < 0.5:
                    q[a], q[b] = q[b], q[a]
                else:
                    q[a] = q[b]
        return q


class Lists(Looks):
    """Lists of entries with a pattern in their order: every entry followed by
    its mirror image, the list twice over, column by column, backwards, one
    place over and over, all in one row; sometimes with one exception."""
    def __init__(s, h):
        super().__init__(h)
        s.N = s.r.choice([2, 3, 4, 5, 8, 9, 16, 20])

    def es(s, R, C, k=None, dup=0.3, zeros=0.15, kind=None, bends=None):
        r, h = s.r, s.h
        if R == 0 or C == 0:
            return []
        n = r.choice([2, 3, 4, 6, 8, 12, 32])
        at = [(r.randrange(R), r.randrange(C)) for _ in range(n)]
        o = r.choice(["mirror", "mirror", "mirror", "twice", "cols", "back", "place", "row", "col", "zip"])
        if o == "mirror":
            m = min(R, C)
            at = [q for i, j in at for q in ((i % m, j % m), (j % m, i % m))]
        elif o == "twice":
            at = at * 2
        elif o == "cols":
            at = sorted(at, key=lambda q: q[::-1])
        elif o == "back":
            at = sorted(at, reverse=True)
        elif o == "place":
            at = at[:1] * n
        elif o == "row":
            at = [(at[0][0], j) for _, j in at]
        elif o == "col":
            at = [(i, at[0][1]) for i, _ in at]
        else:
            at = [q for q in at for _ in range(2)]
        if r.random() < 0.3:
            at[r.randrange(len(at))] = (r.randrange(R), r.randrange(C))
        return [(i, j, h.rv(zeros if r.random() < 0.3 else 0)) for i, j in at]


def z_conv(h, g):
    m = g.fresh(h.rng.choice(["coo", "coo", "csr", "csc", "dok"]))
    for _ in range(3):
        m = gen.conv_step(h, m)
    if m.f in ("csr", "csc"):
        h.emit("k_expandptr", [m])


def z_canon(h, g):
    f = h.rng.choice(["csr", "csc", "coo"])
    m = g.fresh(f, dup=0.6)
    if f == "coo":
        f = h.rng.choice(["csr", "csc"])
        h.make("coo_to_" + f, [m], f, m.r, m.c, m.n, 0)
        return
    for o in h.rng.choice([["sort", "sumdup"], ["sumdup"], ["sumdup", "sort"]]):
        h.emit("%s_%s" % (f, o), [m])
        h.emit(f + "_canon", [m])


def z_pred(h, g):
    f = h.rng.choice(["csr", "csc"])
    m = g.fresh(f, canon=h.rng.random() < 0.5)
    for o in ("_sorted", "_canon"):
        h.emit(f + o, [m])
    h.emit("k_sorted", [m])
    h.emit("k_canon", [m])


def twins(h, g, f, canon=False):
    R, C = g.shape()
    ea = g.es(R, C)
    eb = [(i, j, h.rv(0.2)) for i, j, _ in ea if h.rng.random() < 0.6] + g.es(R, C, k=5)
    return g.put(f, R, C, ea, canon), g.put(f, R, C, eb, canon)


def z_addsub(h, g):
    f = h.rng.choice(["csr", "csc", "coo"])
    a, b = twins(h, g, f, h.rng.random() < 0.4)
    if f == "coo":
        h.make("coo_add", [a, b], "csr", a.r, a.c, 0, 0, form=forms(h))
        return
    h.make(f + "_add", [a, b], f, a.r, a.c, 0, 0, form=forms(h))
    if not h.unsigned:
        h.make(f + "_sub", [a, b], f, a.r, a.c, 0, 0, form=forms(h))


def z_binop(h, g):
    canon = h.rng.random() < 0.6
    a, b = twins(h, g, "csr", canon)
    fns = ["add", "mul", "ne"] + ([] if h.cx else ["max", "lt"])
    for fn in h.rng.sample(fns, 2):
        h.make("k_bin", [a, b], "csr", a.r, a.c, 0, 0, fn=fn, which="named")
        h.make("k_bin", [a, b], "csr", a.r, a.c, 0, 0, fn=fn, which=h.rng.choice(["general", "auto"] + (["canonical"] if canon else [])))


def z_matmat(h, g):
    r = h.rng
    n, k, m = r.choice([(g.N, 3, 2), (2, g.N, 3), (3, 2, g.N), (2, g.N, 2)])
    h.vmode = "small"
    f = r.choice(["csr", "csc", "mix"])
    kw = [dict(k=r.randint(4, 12), dup=0.2)] * 2
    if isinstance(g, Looks):
        n, k, m = g.N, g.N, r.choice([g.N, g.N, 3, 12])
        kw = [dict(kind=r.choice(["diag", "diag", "perm", "band", "band"]), bends=r.choice([0, 0, 1])),
              dict(kind=r.choice(["diag", "perm", "band", "long"]), bends=r.choice([0, 1, 3, 9]))]
        if r.random() < 0.4:
            n, m, kw = m, n, kw[::-1]
    A = g.put("csr" if f == "csr" else "csc", n, k, **kw[0])
    B = g.put("csc" if f == "csc" else "csr", k, m, **kw[1])
    if f == "mix":
        h.make("csc_mul_csr", [A, B], "csc", n, m, 0, 0, form=forms(h))
        return
    h.make(f + "_matmat", [A, B], f, n, m, 0, 0)
    h.emit("k_%s_maxnnz" % f, [A, B])


def z_matvec(h, g):
    for _ in range(1 if type(g) is Big else 4):
        matvec(h, g, h.rng.choice(["csr", "csr", "csc", "csc", "coo"]))


def matvec(h, g, f):
    m = g.fresh(f)
    if m.r == m.c > 2000:
        m = g.put(f, g.N, 3)
    z = 0.6 if m.c > 2000 else h.rng.choice([0.6, 0.1])
    x = h.vec(m.c, z)
    if f == "coo":
        h.emit("k_coo_matvec", [m], x=x, y=h.vec(m.r, 0.6))
    else:
        h.emit(f + "_matvec", [m], x=x)
        if m.c <= 2000:
            h.emit("k_%s_matvec" % f, [m], x=h.vec(m.c, z), y=h.vec(m.r, 0.6))
        if h.rng.random() < 0.5:
            nv = 2 if g.N > 2000 else h.rng.choice([1, 2, 3, 4, 5, 8, 9, 17])
            h.emit("k_%s_matvecs" % f, [m], nv=nv, x=h.vec(m.c * nv, 0.6), y=h.vec(m.r * nv, 0.6))


def z_transpose(h, g):
    if isinstance(g, Lists):
        for f in ("coo", "coo", h.rng.choice(["coo", "csr", "csc"])):
            m = g.fresh(f)
            for o in ("_t", "_transpose"):
                h.make(f + o, [m], {"coo": "coo", "csr": "csc", "csc": "csr"}[f], m.c, m.r, m.n, m.bound)
        return
    m = g.fresh(h.rng.choice(["coo", "csr", "csc"]))
    for _ in range(2):
        t = {"coo": "coo", "csr": "csc", "csc": "csr"}[m.f]
        m = h.make(m.f + h.rng.choice(["_t", "_transpose"]), [m], t, m.c, m.r, m.n, m.bound)


def z_scale(h, g):
    f = h.rng.choice(["coo", "csr", "csc"])
    m = g.fresh(f)
    if not h.unsigned:
        h.make(f + "_neg", [m], f, m.r, m.c, m.n, m.bound)
    if f != "coo":
        h.make(f + "_scale", [m], f, m.r, m.c, m.n, m.bound, s=h.rv(), form=0)
    if f == "csr" and (m.r != m.c or m.r < 2000):
        h.emit("k_scale_rows", [m], s=h.vec(m.r, 0.5))
        h.emit("k_scale_cols", [m], s=h.vec(m.c, 0.5))


def z_complex(h, g):
    m = g.fresh(h.rng.choice(["coo", "csr", "csc"]))
    for o in h.rng.sample(["conj", "real", "imag", "h"], 2):
        t = {"coo": "coo", "csr": "csc", "csc": "csr"}[m.f] if o == "h" else m.f
        h.make(m.f + "_" + o, [m], t, m.r, m.c, m.n, m.bound)


def z_blocks(h, g):
    r = h.rng
    k = r.choice(["h2", "v2", "csr", "h3", "v3", "c2", "c3", "csc"])
    n = 3 if k.endswith("3") else 2
    small = lambda: r.choice([1, 2, 3])
    # together within the range of the index type
    split = lambda: r.choice([[1] * (n - 1) + [g.N - n + 1], [g.N - n + 1] + [1] * (n - 1),
                              [g.N // n] * (n - 1) + [g.N - (n - 1) * (g.N // n)]])
    wide = r.random() < 0.5
    cs = split() if wide else [small() for _ in range(n)]
    rs = [small() for _ in range(n)] if wide else split()
    f = "csr" if k == "csr" else "csc" if k == "csc" else "coo"
    if k in ("h2", "h3", "csr"):
        R = r.choice([small(), small(), g.N]) if not wide else small()
        ms = [g.put(f, R, c, k=6) for c in cs]
        op = {"h2": "coo_h_stack", "h3": "coo_h_stack3", "csr": "csr_h_stack"}[k]
    elif k in ("v2", "v3"):
        C = small() if not wide else g.N
        ms = [g.put(f, x, C, k=6) for x in rs]
        op = "coo_v_stack" + ("3" if n == 3 else "")
    else:
        ms = [g.put(f, x, c, k=4) for x in rs for c in cs]
        op = {"c2": "coo_compose", "c3": "coo_compose3", "csc": "csc_compose"}[k]
    h.make(op, ms, f, 0, 0, 0, 0)


def z_select(h, g):
    r = h.rng
    f = r.choice(["csr", "csc"])
    m = g.fresh(f, canon=True)
    for _ in range(2):
        kw = {}
        if r.random() < 0.85:
            kw["rows"] = g.idx(m.r)
        if r.random() < 0.85 or (not kw and m.r > 1000):
            kw["cols"] = g.idx(m.c)
        lim = 100 if isinstance(g, Looks) else 20
        if kw and len(kw.get("rows", [0] * m.r)) > lim and len(kw.get("cols", [0] * m.c)) > lim:
            o = r.choice(sorted(kw))
            kw[o] = kw[o][:20]
        h.make(f + "_select", [m], f, 0, 0, 0, m.bound, **kw)


def z_slice(h, g):
    r = h.rng
    if isinstance(g, Looks):
        R, C = g.shape()
        es = g.es(R, C)
        m = g.put("csr", R, C, es)
        rows = [[j for i, j, _ in es if i == t] for t in range(R)]
        todo = ["sub"] * 6
    else:
        m, todo = g.fresh("csr"), []
    lim = (g.top or 10 ** 6) - 1
    R, C = min(m.r, lim), min(m.c, lim)
    for o in todo + r.sample(["sub", "row", "slice", "col"], 3):
        if o == "sub":
            r0, r1 = sorted((r.choice(g.spots(R)), r.choice(g.spots(R) + [R])))
            c0, c1 = sorted((r.choice(g.spots(C)), r.choice(g.spots(C) + [C])))
            if isinstance(g, Looks) and r.random() < 0.7:
                # from the first to the last entry of a row, more or less
                i = r.choice([t for t in range(m.r) if rows[t]] or [None])
                if i is not None:
                    c0, c1 = sorted((rows[i][0], rows[i][-1]))
                    c0, c1 = max(0, c0 - r.choice([0, 0, 1])), min(C, c1 + r.choice([0, 1, 1, 2]))
                    r0, r1 = r.choice([0, r.randint(0, i)]), r.choice([R, i + 1])
            h.make("k_submatrix", [m], "csr", r1 - r0, c1 - c0, 0, m.bound, r0=r0, r1=r1, c0=c0, c1=c1)
        elif o == "row":
            ix = g.idx(m.r)
            if len(ix) > 20 and m.r < 20:
                ix = ix[:20]
            h.emit("k_row_index", [m], idx=ix)
        elif o == "slice":
            h.emit("k_row_slice", [m], start=r.choice(g.spots(m.r)), stop=r.choice([m.r, r.choice(g.spots(m.r))]),
                   step=r.choice([1, 3, 127, 32767]))
        else:
            ix = g.idx(m.c)
            if m.c < 20 < len(ix) and m.r > 40:
                # not so many copies of a full column
                m = g.put("csr", m.r, m.c, k=12, dup=0.1) if not isinstance(g, Runs) else \
                    h.put("csr", m.r, m.c, [(i, r.randrange(m.c), h.rv()) for i in g.spots(m.r)])
            h.make("k_col_index", [m], "csr", m.r, len(ix), 0, m.bound, idx=ix)


def z_diag(h, g):
    r = h.rng
    f = r.choice(["coo", "csr", "csc", "dok"])
    sq = r.random() < 0.5
    R, C = (g.N, g.N) if sq else g.shape()
    # entries on and near a few diagonals
    ks = [0, 0, 1, -1, R - C, 5]
    kw = {}
    if isinstance(g, Looks) and r.random() < 0.5:
        # where it is worth while to search
        f, kw = "csr", dict(kind=r.choice(["long", "full", "runs"]), bends=r.randint(1, 6))
    es = g.es(R, C, **kw)
    for i in g.spots(R) if not isinstance(g, Looks) or r.random() < 0.2 else []:
        j = i + r.choice(ks)
        if 0 <= j < C:
            es.append((i, j, h.rv()))
    es = es or [(0, 0, h.rv())]
    m = g.put(f, R, C, es)
    if f != "dok":
        h.emit(f + "_diagonal", [m])
    if f in ("csr", "csc"):
        for k in {0, r.choice([-R, C, 1, -1]), r.choice(g.spots(C)), -r.choice(g.spots(R))}:
            if -R <= k <= C:
                h.emit("k_%s_diagonal" % f, [m], k=k)
    if f == "coo":
        lo = -R if h.signed_i else 0
        lim = (g.top or 10 ** 6) - 1
        for k in {0, r.choice(g.spots(C)), -r.choice(g.spots(R)), C}:
            if max(lo, -lim) <= k <= min(C, lim):
                h.make("coo_upper", [m], "coo", R, C, 0, m.bound, k=k)
    if f in ("csr", "dok"):
        for _ in range(4):
            i, j, _v = r.choice(es)
            h.emit(f + "_get", [m], i=i, j=j)
            if isinstance(g, Looks):
                many = [e[:2] for e in es if es.count(e) > 1 or sum(e[:2] == q[:2] for q in es) > 1] or [(i, j)]
                for _ in range(4):
                    i, j = r.choice(many)
                    h.emit(f + "_get", [m], i=i, j=j)
            h.emit(f + "_get", [m], i=i % 65536 if i % 65536 < R else i, j=r.choice(g.spots(C)))
    if f == "csr":
        h.emit("k_count_diag", [m])


def z_reject(h, g):
    """Shapes that agree modulo a power of two do not fit."""
    r = h.rng
    w = r.choice([256, 32768, 65536])
    small = r.randint(0, 4)
    big = small + w
    o = r.randint(1, 3)
    if g.top and big > g.top:
        small, big = 3, 3 + 256
    f = r.choice(["csr", "csc", "coo", "mix", "vec", "stack", "graph", "new"])
    tall = r.random() < 0.5
    S = lambda n: (n, o) if tall else (o, n)
    if f in ("csr", "csc", "coo"):
        a, b = g.put(f, *S(big), k=4), g.put(f, *S(small), k=2)
        if r.random() < 0.5:
            a, b = b, a
        for q in [f + "_add"] + ([f + "_sub"] if f != "coo" and not h.unsigned else []):
            h.make(q, [a, b], f, 0, 0, 0, 0, form=forms(h))
        a, b = g.put("csr", o, big, k=4), g.put("csr", small, o, k=2)
        h.make("csr_matmat", [a, b], "csr", 0, 0, 0, 0)
    elif f == "mix":
        a, b = g.put("csc", o, small, k=4), g.put("csc", big, o, k=2)
        h.make("csc_matmat", [a, b], "csc", 0, 0, 0, 0)
        h.make("csc_mul", [a, b], "csc", 0, 0, 0, 0, form=forms(h))
        b = g.put("csr", big, o, k=2)
        h.make("csc_mul_csr", [a, b], "csc", 0, 0, 0, 0, form=forms(h))
    elif f == "vec":
        q = r.choice(["csr", "csc"])
        a = g.put(q, o, big, k=4)
        h.emit(q + "_matvec", [a], x=h.vec(small))
        h.emit(q + "_mulvec", [a], x=h.vec(small), form=forms(h), rk=r.choice(["slice", "vec"]))
    elif f == "stack":
        a, b, c = g.put("coo", big, o, k=3), g.put("coo", small, o, k=3), g.put("coo", big, 1, k=1)
        h.make("coo_h_stack", [a, b], "coo", 0, 0, 0, 0)
        h.make("coo_h_stack3", [a, c, b], "coo", 0, 0, 0, 0)
        a, b = g.put("csr", big, o, k=3), g.put("csr", small, o, k=3)
        h.make("csr_h_stack", [a, b], "csr", 0, 0, 0, 0)
        a, b = g.put("coo", o, big, k=3), g.put("coo", o, small, k=3)
        h.make("coo_v_stack", [b, a], "coo", 0, 0, 0, 0)
    elif f == "graph":
        m = g.put("csr", small, big, k=3)
        h.emit("g_cc", [m], directed=True, conn=r.choice(["weak", "strong"]))
        h.emit("csr_cc", [m], F="i64")
        m = g.put("csr", big, max(1, small), k=3)
        h.emit("g_dfs", [m], directed=True, start=0)
    else:
        p, j, x = h.pack("csr", small, o, [(0, 0, h.one())] if small else [])
        h.emit("csr_new", [], h.new(), r=big, c=o, p=p, j=j, x=x)
        h.emit("csc_new", [], h.new(), r=o, c=big, p=p, j=j, x=x)
        m = g.put("dok", big, o, k=3)
        lim = (g.top or 10 ** 7) - 1
        h.emit("dok_set", [m], i=min(lim, big + w), j=0, x=h.rv())
        h.emit("dok_set", [m], i=0, j=min(lim, o + w), x=h.rv())


def z_dok(h, g):
    r = h.rng
    R, C = g.shape()
    m = h.put("dok", R, C, [])
    b = g.spots(R), g.spots(C)
    for _ in range(12):
        i, j = r.choice(b[0]), r.choice(b[1])
        h.emit(r.choice(["dok_set", "dok_add"]), [m], i=i, j=j, x=h.rv(0.2))
        h.emit("dok_get", [m], i=r.choice(b[0]), j=r.choice(b[1]))
        if r.random() < 0.3:
            h.emit("dok_get", [m], i=i, j=j)
    h.emit("dok_to_coo", [m], h.new())
    h.emit(r.choice(["dok_to_csr", "dok_to_csc"]), [m], h.new())


def z_ctor(h, g):
    r = h.rng
    k = r.choice(["size", "diag", "id", "arrays", "build"])
    R, C = g.shape()
    if k == "size":
        h.emit("coo_with_size", [], h.new(), r=R, c=C)
        h.emit("csr_with_size", [], h.new(), r=R, c=C)
        h.emit("dok_new", [], h.new(), r=R, c=C)
    elif k == "diag":
        n = min(g.N, r.choice([3000, 3000, 33000])) - 1
        h.emit(r.choice(["coo", "csr", "csc"]) + "_with_diagonal", [], h.new(), x=h.vec(n, 0.9))
    elif k == "id":
        h.emit("coo_identity", [], h.new(), n=min(g.N, r.choice([3000, 3000, 33000])) - 1)
    elif k == "arrays":
        m = g.fresh(r.choice(["csr", "coo"]))
        h.make(m.f + "_clone", [m], m.f, R, C, m.n, m.bound)
    else:
        m = h.put("coo", R, C, [])
        for _ in range(6):
            h.emit("coo_push", [m], i=r.choice(g.spots(R)), j=r.choice(g.spots(C)), x=h.rv())
        es = g.es(R, C)
        h.emit("coo_extend", [m], i=[e[0] for e in es], j=[e[1] for e in es], x=[e[2] for e in es])
        h.emit("coo_set_val", [m], k=r.randrange(6), x=h.rv())


def z_elim(h, g):
    h.emit("k_elim", [g.fresh("csr", zeros=0.5)])


def z_text(h, g):
    f = h.rng.choice(["coo", "csr", "csc", "dok"])
    h.emit(f + "_to_string", [g.fresh(f)])
    if type(g) is not Big:
        # lines of given lengths, in every compressed form
        f = h.rng.choice(["csr", "csc"])
        es = []
        for i in range(4):
            m = h.rng.choice([8, 10, 16, 31, 32, 33, 50, 63, 64, 65, 96, 100, 128])
            es += [(i, j, h.rv(0.1)) for j in h.rng.sample(range(130), m)]
        if f == "csc":
            es = [(j, i, v) for i, j, v in es]
        h.emit(f + "_to_string", [h.put(f, *((5, 130) if f == "csr" else (130, 5)), es)])


def z_forms(h, g):
    f = h.rng.choice(["csr", "csc"])
    a, b = twins(h, g, f)
    ms = [h.make(f + "_add", [a, b], f, a.r, a.c, 0, 0, form=q) for q in h.rng.sample(range(4), 2)]
    h.emit("same", ms)


# ------------------------------------------------------------------- graphs

def deep(h, g, sym=False):
    """Long paths, cycles, combs, trees and stars; many components; levels of
    given widths below a root."""
    r = h.rng
    top = TOP.get(h.I, 10 ** 6) - 1
    n = min(r.choice([3000, 6000, 9000, 12000]), top)
    k = r.choice(["path", "path", "cycle", "rings", "comb", "tree", "star", "dag", "zigzag", "levels"])
    if r.random() < 0.2:
        # more components than 15 or 16 bits number
        k, n = "few", min(r.choice([33000, 66000]), top + 1)
    if isinstance(g, Runs):
        k = "levels"
    if k == "levels":
        ws = [1] + [r.choice([1, 2, 16, 64, 127, 128, 255, 256, 256, 257, 512]) for _ in range(r.randint(2, 5))]
        n = min(sum(ws), top)
    p = list(range(n))
    if r.random() < (0.6 if k != "levels" else 0.2):
        r.shuffle(p)
    E = [(i, i + 1) for i in range(n - 1)] if k in ("path", "zigzag", "cycle") else []
    if k == "cycle":
        E.append((n - 1, 0))
    elif k == "rings":
        q = r.choice([2, 3, 50, n // 3])
        E = [(i, i + 1 if (i + 1) % q and i + 1 < n else i - i % q) for i in range(n)]
        E += [(i, i + q) for i in range(0, n - q, q) if r.random() < 0.8]
    elif k == "comb":
        E = [(i, i + 2) for i in range(0, n - 2, 2)] + [(i, i + 1) for i in range(0, n - 1, 2)]
    elif k == "tree":
        E = [(r.randrange(max(0, i - 40), i), i) for i in range(1, n)]
    elif k == "star":
        n = min(n, 3000)
        p = [i for i in p if i < n]
        E = [(0, i) if r.random() < 0.7 else (i, 0) for i in range(1, n)]
    elif k == "dag":
        E = [(i, j) for i in range(n) for j in (i + 1, i + r.randint(2, 9)) if j < n]
    elif k == "levels":
        at = 0
        for a, b in zip(ws, ws[1:]):
            low = range(at + a, min(n, at + a + b))
            E += [(at + (i % a if r.random() < 0.8 else r.randrange(a)), j) for i, j in enumerate(low)]
            at += a
        E += [(r.randrange(n), r.randrange(n)) for _ in range(r.choice([0, 0, 3]))]
    elif k == "few":
        E = [(r.randrange(n), r.randrange(n)) for _ in range(12)]
        E += [(i, n - 1 - i) for i in range(5)]
    if k == "zigzag":
        E = [e if r.random() < 0.5 else e[::-1] for e in E]
    if k in ("path", "tree", "comb", "dag") and r.random() < 0.3:
        E = [e[::-1] for e in E]
    if k in ("path", "tree", "comb") and r.random() < 0.4:
        # one edge back over most of it
        E.append((n - 1 - r.randrange(5), r.randrange(5)))
    start = p[0] if k != "star" else p[r.choice([0, 0, 5])]
    E = [(p[a], p[b]) for a, b in E][:top]
    if sym:
        E = E[:top // 2]
        E += [(b, a) for a, b in E]
    if r.random() < 0.5:
        r.shuffle(E)
    h.vmode = "unit"
    return h.put("csr", n, n, [(i, j, 1 if not h.cx else [1, 0]) for i, j in E]), start


def z_scc(h, g):
    m, _ = deep(h, g)
    h.emit("g_cc", [m], directed=True, conn="strong")


def z_weak(h, g):
    m, _ = deep(h, g)
    d, c = h.rng.choice([(True, "weak"), (False, "weak"), (False, "strong")])
    h.emit("g_cc", [m], directed=d, conn=c)


def z_dfs(h, g):
    m, s = deep(h, g)
    h.emit("g_dfs", [m], directed=h.rng.random() < 0.6, start=s)


def z_gcomp(h, g):
    m, _ = deep(h, g, sym=True)
    # the labels must fit
    F = h.rng.choice(["i32", "i64", "isize"])
    h.emit("csr_cc", [m], F=F)


# ------------------------------------------------ indices beyond 32 bits

# Coordinate and dictionary matrices take no memory by their shape.  Indices
# and dimensions of these histories are multiples of an odd or even number so
# large that nothing but a full index or usize holds them.
UNITS = {32: [65537, 2 ** 16, 2 ** 24 + 1, 2 ** 24],
         64: [2 ** 24 + 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32, 2 ** 32 + 1, 2 ** 40, 2 ** 53 + 1]}
VAST_T = [t for t in gen.REAL + gen.CPLX if t.split(",")[0] in ("i32", "u32", "i64", "u64", "isize", "usize", "i128", "u128")]


def vast(h, prop):
    r = h.rng
    u = r.choice(UNITS[32 if h.I in ("i32", "u32") else 64])
    if prop != "C24":
        h.cmds[0]["iu"] = str(u)
        D = lambda: r.choice([1, 2, 3, 5, 17, 40])
        at = lambda n: r.randrange(n)
    else:
        D = lambda: r.choice([1, 9, 10, 11, 10 ** 6, 2 ** 24 + 2, 10 ** 9])
        at = lambda n: r.choice([t for t in (0, 9, 10, 99, 100, 9999, 10 ** 5, 999999, 2 ** 24 + 1, 10 ** 9 - 1) if t < n])
    h.vmode = r.choice(["small", "distinct"])

    def es(R, C, k=None):
        q = [(at(R), at(C), h.rv(0.15)) for _ in range(r.randint(0, 9) if k is None else k)]
        if prop not in ("C17", "C24"):
            q += [(i, j, h.rv(0.15)) for i, j, _ in q if r.random() < 0.2]
        r.shuffle(q)
        return q

    def coo(R=None, C=None):
        R, C = R or D(), C or D()
        return h.put("coo", R, C, es(R, C))

    def dok():
        R, C = D(), D()
        m = h.put("dok", R, C, [])
        for i, j, x in es(R, C):
            h.emit("dok_set", [m], i=i, j=j, x=x)
        return m

    def un(*ops):
        m = coo()
        for o in ops:
            h.make(o, [m], "coo", m.r, m.c, m.n, m.bound)

    if prop == "C01":
        h.emit("dok_to_coo", [dok()], h.new())
    elif prop == "C09":
        un("coo_t", "coo_transpose", "coo_clone")
    elif prop == "C10":
        un("coo_clone") if h.unsigned else un("coo_neg")
    elif prop == "C11":
        un("coo_conj", "coo_h", r.choice(["coo_real", "coo_imag"]))
    elif prop == "C12":
        k = r.choice(["h", "v", "h3", "v3", "q", "q3"])
        n = {"h": 2, "v": 2, "h3": 3, "v3": 3, "q": 2, "q3": 3}[k]
        rs, cs = [D() for _ in range(n)], [D() for _ in range(n)]
        if k[0] == "q":
            h.make("coo_compose" + k[1:], [coo(a, b) for a in rs for b in cs], "coo", 0, 0, 0, 0)
        else:
            ms = [coo(rs[0], c) if k[0] == "h" else coo(c, cs[0]) for c in cs]
            h.make("coo_%s_stack%s" % (k[0], k[1:]), ms, "coo", 0, 0, 0, 0)
    elif prop == "C15":
        m = coo()
        for _ in range(3):
            h.make("coo_upper", [m], "coo", m.r, m.c, 0, m.bound, k=r.randint(-m.r if h.signed_i else 0, m.c))
    elif prop == "C16":
        a, b = coo(), coo()
        if a.r != b.r and a.c != b.c:
            h.make("coo_h_stack", [a, b], "coo", 0, 0, 0, 0)
            h.make("coo_v_stack", [a, b], "coo", 0, 0, 0, 0)
        m = dok()
        for i, j in ((m.r, 0), (0, m.c), (m.r + 1, m.c), (m.r - 1, m.c - 1)):
            h.emit("dok_set", [m], i=i, j=j, x=h.rv())
    elif prop == "C17":
        m = dok()
        for _ in range(8):
            i, j = at(m.r), at(m.c)
            h.emit(r.choice(["dok_set", "dok_add"]), [m], i=i, j=j, x=h.rv(0.2))
            h.emit("dok_get", [m], i=at(m.r), j=at(m.c))
            h.emit("dok_get", [m], i=i, j=j)
        h.emit("dok_to_coo", [m], h.new())
    elif prop == "C18":
        h.emit("coo_with_size", [], h.new(), r=D(), c=D())
        h.emit("dok_new", [], h.new(), r=D(), c=D())
        m = coo()
        for _ in range(4):
            h.emit("coo_push", [m], i=at(m.r), j=at(m.c), x=h.rv())
        q = es(m.r, m.c)
        h.emit("coo_extend", [m], i=[e[0] for e in q], j=[e[1] for e in q], x=[e[2] for e in q])
        h.make("coo_clone", [m], "coo", m.r, m.c, 0, 0)
    elif prop == "C24":
        m = coo() if r.random() < 0.7 else dok()
        h.emit(m.f + "_to_string", [m])


VAST = {"C01": 6, "C09": 12, "C10": 6, "C11": 12, "C12": 30, "C15": 16, "C16": 12, "C17": 16, "C18": 12, "C24": 16}

MAKE = {
    "C01": z_conv, "C02": z_conv, "C03": z_canon, "C04": z_pred, "C05": z_addsub, "C06": z_binop, "C07": z_matmat,
    "C08": z_matvec, "C09": z_transpose, "C10": z_scale, "C11": z_complex, "C12": z_blocks, "C13": z_select,
    "C14": z_slice, "C15": z_diag, "C16": z_reject, "C17": z_dok, "C18": z_ctor, "C19": z_scc, "C20": z_weak,
    "C21": z_dfs, "C22": z_gcomp, "C23": z_elim, "C24": z_text, "C25": z_forms,
}
GRAPH = ("C19", "C20", "C21", "C22")
MIXED = [z_conv, z_canon, z_addsub, z_matmat, z_transpose, z_blocks, z_select, z_slice, z_diag, z_elim]
QUICK = {"C06": 12, "C08": 8, "C16": 40, "C17": 24, "C18": 6, "C19": 12, "C20": 12, "C21": 10, "C22": 12}
RUNS = {"C08": 60, "C16": 0, "C22": 24}


LOOKS = {p: 40 for p in MAKE if p not in GRAPH + ("C16", "C18")}
LOOKS.update({"C01": 120, "C14": 48, "C15": 60})
LONG = {"C15": 1, "C24": 2, "C19": 2, "C20": 2, "C21": 2, "C22": 2}
LISTS = {"C09": 120, "C11": 60}


def segments(prop, seed, count, runs):
    """count histories on huge shapes, then runs on rows of critical lengths."""
    rng = random.Random("huge/%s/%s" % (prop, seed))
    for k in range(count + runs):
        fam = rng.choice(MIXED) if prop == "C02" else MAKE[prop]
        narrow = rng.random() < 0.2
        ty = rng.choice([t for t in (NARROW if narrow else WIDE) if prop != "C11" or t in gen.CPLX])
        h = gen.Hist(random.Random(rng.random()), ty)
        fam(h, Big(h) if k < count else Runs(h))
        if len(h.cmds) > 1:
            yield h.cmds
    for _ in range(VAST.get(prop, 0) * (count // 16 or 1)):
        h = gen.Hist(random.Random(rng.random()), rng.choice([t for t in VAST_T if prop != "C11" or t in gen.CPLX]))
        vast(h, prop)
        yield h.cmds
    looks = LOOKS.get(prop, 0) * max(1, count // 16) if runs else 0
    lists = LISTS.get(prop, 30) if looks else 0
    for k in range(looks + lists + (LONG.get(prop, 6) if runs else 0)):
        fam = rng.choice(MIXED) if prop == "C02" else MAKE[prop]
        h = gen.Hist(random.Random(rng.random()), rng.choice([t for t in WIDE + NARROW if prop != "C11" or t in gen.CPLX]))
        fam(h, Looks(h) if k < looks else Lists(h) if k < looks + lists else Long(h, prop in ("C01", "C02", "C08", "C15", "C24")))
        if len(h.cmds) > 1:
            yield h.cmds

"""The TLA+ models: which ones decide a property, exploring them with TLC, and
turning the behaviours TLC prints into calls on the real library."""
import json, os, random, re, shutil, tempfile

import gen
from run_trace import SPEC, ToolError

KDIR = os.path.join(SPEC, "kernels")

# property -> models: a kernel module, or a family of Hist.tla
MODELS = {
    "C01": ["KCooCsr", "KTocsc", "Hist:conv"],
    "C02": ["Hist:mixed", "KSelect", "KTocsc"],
    "C03": ["KCooCsr", "KCompress", "KPred"],
    "C04": ["KPred"],
    "C05": ["KBinop", "Hist:laws"],
    "C06": ["KBinop"],
    "C07": ["KMatMat", "Hist:laws"],
    "C08": ["KMatVec"],
    "C09": ["KTocsc", "Hist:trans", "Hist:laws"],
    "C10": ["Hist:scale", "Hist:parts"],
    "C11": ["Hist:parts", "Hist:claws"],
    "C12": ["Hist:stack", "Hist:stack3", "Hist:compose"],
    "C13": ["KSelect"],
    "C14": ["KSlice"],
    "C15": ["KDiag", "Hist:read"],
    "C16": ["Hist:misfit", "Hist:badarg", "Hist:badnew"],
    "C17": ["Hist:dok"],
    "C18": ["Hist:ctor", "Hist:coo"],
    "C19": ["KScc", "KScan", "Hist:graphs"],
    "C20": ["KWeak", "KScan", "Hist:graphs"],
    "C21": ["KDfs", "KScan", "Hist:graphs"],
    "C22": ["KGComp", "KScan", "Hist:graphs"],
    "C23": ["KCompress"],
    "C24": ["Hist:text"],
    "C25": ["Hist:forms", "Hist:mixed"],
}
# calls replayed on the library per model
QUICK_CALLS = 14000
THOROUGH_CALLS = 500000

GAUSS = {"parts", "claws"}
HELPERS = {"Chain", "Mirror"}


class Model:
    def __init__(s, prop, name, tier, seed):
        s.prop, s.name, s.deep = prop, name, tier == "thorough"
        s.kernel, _, s.family = name.partition(":")
        s.ring = "Gauss" if s.family in GAUSS else "Int"
        s.seed = seed


def for_property(prop, tier, seed):
    return [Model(prop, n, tier, seed) for n in MODELS.get(prop, [])]


def ring_constants(ring):
    t = open(os.path.join(SPEC, "Trace%s.cfg" % ring)).read()
    return t[t.index("  VZero"):]


def invariants(kernel):
    s = open(os.path.join(KDIR, kernel + ".tla")).read()
    s = s[s.index("END TRANSLATION"):]
    return [x for x in re.findall(r"^(\w+) *==", s, re.M) if x not in HELPERS]


def config(m):
    deep = "TRUE" if m.deep else "FALSE"
    if m.family:
        extra = {"laws": ["Algebra"], "graphs": ["GraphLaw"], "claws": ["CplxLaw"]}.get(m.family, [])
        return ("SPECIFICATION HSpec\nINVARIANTS AllWellFormed DokNoZeros %s\nCHECK_DEADLOCK FALSE\nCONSTANTS\n"
                "  Deep = %s\n  Family = \"%s\"\n  Vs <- %s\n" % (" ".join(extra), deep, m.family, "GVs" if m.ring == "Gauss" else "IVs")
                ) + ring_constants(m.ring), ["AllWellFormed", "DokNoZeros"] + extra + ["the specification allows the reference outcome"]
    inv = invariants(m.kernel)
    return ("SPECIFICATION Spec\nINVARIANTS %s\nPROPERTY Termination\nCONSTANTS\n  Deep = %s\n" % (" ".join(inv), deep)
            ) + ring_constants(m.ring), inv + ["Termination"]


def explore(m, tlc, stats):
    """Runs TLC on the model; returns (behaviours, generated, distinct, laws)."""
    cfg, laws = config(m)
    d = tempfile.mkdtemp(prefix="model")
    try:
        path = os.path.join(d, "m.cfg")
        with open(path, "w") as f:
            f.write(cfg)
        rc, text = tlc(["-config", path, m.kernel + ".tla"], timeout=700, xmx="6g", workers=8, spec=KDIR,
                       java=["-DTLA-Library=" + SPEC])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if rc != 0 or "Model checking completed. No error has been found." not in text:
        raise ToolError("TLC on model %s:\n%s" % (m.name, "\n".join(x for x in text.split("\n") if not x.startswith('"BEH'))[-2500:]))
    lines = sorted({x for x in text.split("\n") if x.startswith('"BEH')})
    g, n = stats("\n".join(x for x in text.split("\n") if "states generated" in x))
    return lines, g, n, laws


def parse(line):
    return json.loads(json.loads(line)[3:])


# ------------------------------------------------------- from model to calls

class Seg(gen.Hist):
    """Calls of one behaviour, written out on one pair of element types."""
    def __init__(s, rng, ty):
        super().__init__(rng, ty)
        s.cache = {}

    def mat(s, m, f=None):
        """A register holding exactly these arrays, read in format f."""
        f = f or m["f"]
        r, c = m["r"], m["c"]
        if f != m["f"] and "coo" not in (f, m["f"]):
            r, c = c, r
        name = s.new()
        if f == "coo":
            i = m["i"] if m["f"] == "coo" else [t for t in range(len(m["p"]) - 1) for _ in range(m["p"][t + 1] - m["p"][t])]
            s.emit("coo_new", [], name, r=r, c=c, i=i, j=m["j"], x=m["x"])
        else:
            s.emit(f + "_new", [], name, r=r, c=c, p=m["p"], j=m["j"], x=m["x"])
        q = gen.Mat(name, f, r, c, len(m["x"]), 1)
        q.src = m
        return q

    def call(s, op, *a, **kw):
        s.emit(op, list(a), s.new(), **kw)

    def touch(s, op, *a, **kw):
        s.emit(op, list(a), None, **kw)


def is_canon(m):
    p, j = m["p"], m["j"]
    return all(j[k] < j[k + 1] for t in range(len(p) - 1) for k in range(p[t], p[t + 1] - 1))


def x_coocsr(h, b, prop):
    a = h.mat(b["a"][0])
    for o in ("coo_to_csr", "coo_to_csc", "k_coo_tocsr"):
        h.call(o, a)
    if prop != "C03":
        h.call("coo_to_dense", a)


def x_tocsc(h, b, prop):
    m = b["a"][0]
    a, t = h.mat(m), h.mat(m, "csc")
    if prop == "C09":
        for o in ("_t", "_transpose"):
            h.call("csr" + o, a)
            h.call("csc" + o, t)
        c = h.mat(m, "coo")
        h.call("coo_t", c)
        return
    for o in ("csr_to_csc", "csr_to_coo", "k_csr_tocsc", "k_csr_tocoo", "k_expandptr"):
        h.call(o, a)
    for o in ("csc_to_csr", "csc_to_coo", "k_csc_tocsr", "csc_to_dense"):
        h.call(o, t)
    if m["r"]:
        h.call("k_csr_todense", a, D=[[h.rv(0.5) for _ in range(m["c"])] for _ in range(m["r"])])


def x_sumdup(h, b, prop):
    m = b["a"][0]
    if prop == "C23":
        return x_elim(h, b, prop)
    for f in ("csr", "csc"):
        a = h.mat(m, f)
        h.touch(f + "_sumdup", a)
        h.touch(f + "_canon", a)
    a = h.mat(m)
    h.touch("k_sumdup", a)


def x_elim(h, b, prop):
    a = h.mat(b["a"][0])
    if prop == "C03":
        h.touch("csr_sort", a)
        h.touch("csr_sumdup", a)
    else:
        h.touch("k_elim", a)


def x_pred(h, b, prop):
    m = b["a"][0]
    for f in ("csr", "csc"):
        a = h.mat(m, f)
        if prop == "C03":
            h.touch(f + "_sort", a)
            h.touch(f + "_sorted", a)
            h.touch(f + "_sumdup", a)
        for o in ("_sorted", "_canon"):
            h.touch(f + o, a)
        if prop != "C03":
            h.touch("k_sorted", a)
            h.touch("k_canon", a)


def x_binop(h, b, prop):
    A, B = b["a"]
    r = h.rng
    fn = b["c"]["fn"]
    if prop == "C05":
        for f in ("csr", "csc"):
            a, c = h.mat(A, f), h.mat(B, f)
            o = "_sub" if not h.unsigned and (fn == "sub" or r.random() < 0.3) else "_add"
            h.call(f + o, a, c, form=r.randint(0, 3))
            if f == "csc":
                h.call(f + o + "_m", a, c)
        a, c = h.mat(A, "coo"), h.mat(B, "coo")
        h.call("coo_add", a, c, form=0)
        return
    a, c = h.mat(A), h.mat(B)
    fns = gen.FN_ALL + ([] if h.cx else gen.FN_ORD)
    more = [x for x in fns if x != fn and not (h.unsigned and x == "sub")]
    for g in [fn] * (fn in fns and not (h.unsigned and fn == "sub")) + [r.choice(more)]:
        for w in ["named", "general", "auto"] + (["canonical"] if is_canon(A) and is_canon(B) else []):
            h.call("k_bin", a, c, fn=g, which=w)


def x_matmat(h, b, prop):
    A, B = b["a"]
    a, c = h.mat(A), h.mat(B)
    h.call("csr_matmat", a, c)
    h.call("csr_mul", a, c, form=h.rng.randint(0, 3))
    h.call("k_csr_matmat", a, c)
    h.call("k_csr_maxnnz", a, c)
    a, c = h.mat(A, "csc"), h.mat(B, "csc")
    h.call("csc_matmat", c, a)
    h.call("csc_mul", c, a, form=h.rng.randint(0, 3))
    h.call("k_csc_matmat", c, a)
    h.call("k_csc_maxnnz", c, a)


def x_matvec(h, b, prop):
    m, c = b["a"][0], b["c"]
    f, nv = m["f"], c["nv"]
    a = h.mat(m)
    if f == "coo":
        if nv == 1:
            h.call("k_coo_matvec", a, x=c["x"], y=c["y"])
        return
    if nv == 1:
        h.call("k_%s_matvec" % f, a, x=c["x"], y=c["y"])
        h.call(f + "_matvec", a, x=c["x"])
        h.call(f + "_mulvec", a, x=c["x"], form=h.rng.randint(0, 3), rk=h.rng.choice(["slice", "vec"]))
    h.call("k_%s_matvecs" % f, a, nv=nv, x=c["x"], y=c["y"])


def x_diag(h, b, prop):
    m, k = b["a"][0], b["c"]["k"]
    a, t = h.mat(m), h.mat(m, "csc")
    if -m["r"] <= k <= m["c"]:
        h.call("k_csr_diagonal", a, k=k)
        h.call("k_csc_diagonal", t, k=-k)
    if k == 0:
        h.call("csr_diagonal", a)
        h.call("csc_diagonal", t)
        h.call("k_count_diag", a)
        h.call("coo_diagonal", h.mat(m, "coo"))
    elif k > 0 or h.signed_i:
        h.call("coo_upper", h.mat(m, "coo"), k=k)


def x_select(h, b, prop):
    m, c = b["a"][0], b["c"]
    a = h.mat(m)
    h.call("csr_select", a, rows=c["rows"], cols=c["cols"])
    h.call("k_select", a, rows=c["rows"], cols=c["cols"])
    t = h.mat(m, "csc")
    h.call("csc_select", t, rows=c["cols"], cols=c["rows"])
    u = h.rng.random()
    if u < 0.2:
        h.call("csr_select", a, rows=c["rows"])
        h.call("csc_select", t, cols=c["rows"])
    elif u < 0.4:
        h.call("csr_select", a, cols=c["cols"])
        h.call("csc_select", t, rows=c["cols"])


def x_slice(h, b, prop):
    m, c = b["a"][0], dict(b["c"])
    a = h.mat(m)
    w = c.pop("w")
    h.call({"sub": "k_submatrix", "slice": "k_row_slice", "row": "k_row_index", "col": "k_col_index"}[w], a, **c)


def x_scc(h, b, prop):
    h.call("g_cc", h.mat(b["a"][0]), directed=True, conn="strong")


def x_weak(h, b, prop):
    a = h.mat(b["a"][0])
    for d, c in ((True, "weak"), (False, "weak"), (False, "strong")):
        h.call("g_cc", a, directed=d, conn=c)


def x_dfs(h, b, prop):
    h.call("g_dfs", h.mat(b["a"][0]), **b["c"])


def x_gcomp(h, b, prop):
    a = h.mat(b["a"][0])
    F = h.rng.choice(["i8", "i32", "i64", "isize"])
    h.call("csr_cc", a, F=F)
    h.call("k_gcomp", a, F=F)


EXPAND = {"coocsr": x_coocsr, "tocsc": x_tocsc, "sumdup": x_sumdup, "elim": x_elim, "pred": x_pred, "binop": x_binop,
          "matmat": x_matmat, "matvec": x_matvec, "diag": x_diag, "select": x_select, "slice": x_slice,
          "scc": x_scc, "weak": x_weak, "dfs": x_dfs, "gcomp": x_gcomp}


# --------------------------------------------------- choice of element types

def any_neg(v):
    if isinstance(v, list):
        return any(any_neg(x) for x in v)
    return isinstance(v, int) and not isinstance(v, bool) and v < 0


def minus(v):
    return [minus(x) for x in v] if isinstance(v, list) else -v


def scaled(v, f):
    """Multiplies every scalar of a nest by f (an int or a Gaussian integer)."""
    if isinstance(v, list):
        return [scaled(x, f) for x in v]
    return [v * f[0], v * f[1]] if isinstance(f, list) else v * f


def scaled_g(v, f):
    if isinstance(v, list) and len(v) == 2 and all(isinstance(t, int) for t in v):
        return [v[0] * f[0] - v[1] * f[1], v[0] * f[1] + v[1] * f[0]]
    return [scaled_g(x, f) for x in v]


UNSIGNED_I = {"usize", "u8", "u16", "u32", "u64", "u128"}


def types_for(rng, gauss, negx, negi, sub, lscale, complex_ok=True, wide=False):
    if gauss:
        return rng.choice([t for t in gen.CPLX if not lscale or t.endswith("c64")])
    pool = [t for t in gen.REAL if not ((negx or sub) and t in gen.UNSIGNED_T)]
    if complex_ok and rng.random() < 0.2:
        pool = gen.CPLX
    pool = [t for t in pool if not (negi and t not in gen.SIGNED_I) and not (wide and t.endswith(("i16", "u16")))]
    return rng.choice(pool)


FACTORS = [1, 1, 2, 3, 5]
GFACTORS = [[1, 0], [0, 1], [1, -1], [2, 1], [-1, 0]]


def expand_kernel(b, prop, rng):
    negx = any(any_neg(m.get("x", [])) for m in b["a"])
    ordered = b["k"] == "binop" and b["c"]["fn"] in gen.FN_ORD
    sub = b["k"] == "binop" and b["c"]["fn"] == "sub" and prop == "C05"
    ty = types_for(rng, False, negx, False, sub, False, complex_ok=not ordered)
    h = Seg(rng, ty)
    h.units(2)
    if b["k"] == "binop":
        h.cmds[0].pop("nz", None)       # quotients tell the zeros apart
    f = rng.choice(FACTORS) * (-1 if not h.unsigned and rng.random() < 0.4 else 1)
    if h.unsigned:
        f = abs(f)
    if h.cx:
        f = rng.choice(GFACTORS)
    a = [dict(m, x=scaled(m["x"], f)) for m in b["a"]]
    c = dict(b["c"])
    for k in ("x", "y"):
        if k in c:
            c[k] = scaled(c[k], f)
    EXPAND[b["k"]](h, dict(b, a=a, c=c), prop)
    return h.cmds


VALUE_KEYS = ("x", "D", "y", "s")


def expand_hist(b, m, rng):
    cmds = b["o"]
    gauss = m.ring == "Gauss"
    ops = {c["op"] for c in cmds}
    negx = any(any_neg(c[k]) for c in cmds for k in VALUE_KEYS if k in c)
    negi = any(c["op"] == "coo_upper" and c["k"] < 0 for c in cmds)
    sub = any(o.endswith(("_sub", "_sub_m", "_neg")) for o in ops)
    lscale = any(o.endswith("_lscale") for o in ops)
    ty = types_for(rng, gauss, negx, negi, sub, lscale)
    cx = ty in gen.CPLX
    powers = m.family in ("mixed", "forms", "laws", "claws")
    if gauss:
        # with_real and with_imag take matrices that are real
        f = rng.choice([[1, 0], [-1, 0], [3, 0]] if any("_with_" in o for o in ops) else GFACTORS)
        g = scaled_g
    elif cx:
        f, g = rng.choice(GFACTORS[:2] if powers else GFACTORS), scaled
    else:
        f, g = (1 if powers else rng.choice(FACTORS)), scaled
    u = Seg(rng, ty)
    if not powers and m.family != "text":
        u.units(3)
    out = [u.cmds[0]]
    for c in cmds:
        c = dict(c)
        if u.e and not c["a"] and c["op"] != "coo_identity":
            c["e"] = u.e
        if c["op"] == "csr_cc":
            c["F"] = rng.choice(["i8", "i32", "i64", "isize"])
        for k in VALUE_KEYS:
            if k in c:
                c[k] = g(c[k], f)
        out.append(c)
    return out


def run(m, tlc, stats):
    lines, g, n, laws = explore(m, tlc, stats)
    rng = random.Random("%s/%s/%s" % (m.name, m.prop, m.seed))
    total = len(lines)
    order = list(range(total))
    rng.shuffle(order)
    cap = THOROUGH_CALLS if m.deep else QUICK_CALLS
    segs = []
    calls = 0
    for k in order:
        b = parse(lines[k])
        s = expand_hist(b, m, rng) if m.family else expand_kernel(b, m.prop, rng)
        if len(s) < 2:
            continue
        segs.append(s)
        calls += len(s) - 1
        if calls >= cap:
            break
    return dict(model=m.name, states=n, transitions=g, inputs=total, exhaustive=True,
                bounds="%s scopes of %s; %d of its %d finished behaviours replayed on the library (%d calls); checked: %s" % (
                    "deep" if m.deep else "quick", m.kernel + (" family " + m.family if m.family else ""),
                    len(segs), total, calls, ", ".join(laws)),
                segments=segs)

-------------------------------- MODULE Hist ---------------------------------
(***************************************************************************)
(* Histories of public calls, explored on the specification itself with    *)
(* the reference outcomes of SparseRef.  A family fixes the matrices a     *)
(* history starts from and the calls it is made of; TLC explores every     *)
(* history of the family, checks that the specification allows every       *)
(* reference outcome and that the laws below hold, and prints each         *)
(* finished history for replay on the real code.                           *)
(***************************************************************************)
EXTENDS Scopes, SparseRef, GaussRing

CONSTANTS Family,
          Vs          \* a few scalars of the ring: zero, one and others

VARIABLES hist, left

hvars == <<reg, hist, left>>

IVs == {0, 1, -1}
GVs == {<<0, 0>>, <<1, 0>>, <<0, -1>>, <<-1, 2>>}

MinusOne == VNeg(VOne)
Two == VAdd(VOne, VOne)
VV == {VZero, VOne, MinusOne}

(* -------- matrices to start from ---------------------------------------- *)
X1(n) == {[k \in 1 .. n |-> CASE k % 3 = 1 -> VOne [] k % 3 = 2 -> Two [] OTHER -> VAdd(Two, VOne)]}
XZ(n) == {[k \in 1 .. n |-> IF k = z THEN VZero ELSE IF k % 2 = 0 THEN MinusOne ELSE VOne] : z \in 0 .. n}
XV(n) == Seqs(Vs, n)
Cs(f, shapes, n, X(_)) == UNION {Comp(f, s[1], s[2], t, X) : s \in shapes, t \in 0 .. n}
Comps(shapes, n, X(_)) == Cs("csr", shapes, n, X) \cup Cs("csc", shapes, n, X)
OneEach(S1) == {<<m>> : m \in S1}
Dok(r, c) == [f |-> "dok", r |-> r, c |-> c, n |-> 0, i |-> <<>>, j |-> <<>>, x |-> <<>>]
Sh == {<<1, 2>>, <<2, 1>>, <<2, 2>>}
Sh0 == {<<0, 0>>, <<0, 2>>, <<2, 0>>}
DN2 == IF Deep THEN 3 ELSE 2

(* one representative of each shape for calls about shapes only             *)
Rep(f, r, c) ==
  LET es == IF r > 0 /\ c > 0 THEN <<<<r - 1, 0, VOne>>, <<0, c - 1, Two>>>> ELSE <<>>
  IN  IF f = "coo" THEN CooOf(r, c, es) ELSE Canon(f, r, c, es)
Small == IF Deep THEN 0 .. 3 ELSE 0 .. 2
Reps(f) == {Rep(f, r, c) : r \in Small, c \in Small}
(* blocks told apart by their values                                        *)
Blk(r, c, v) ==
  LET P == RowMajor((0 .. r - 1) \X (0 .. c - 1))
  IN  CooOf(r, c, [k \in DOMAIN P |-> <<P[k][1], P[k][2], v>>])
Blks(v) == {Blk(r, c, v) : r \in Small, c \in Small}

(* Triples A, B (of one shape), D (conforming with both): entries in every  *)
(* order with repeated positions; the values of A cancel against B's.       *)
Ones1(n) == {[k \in 1 .. n |-> VOne]}
XS(n) == Seqs({VOne, MinusOne}, n)
XM(n) == {[k \in 1 .. n |-> IF k % 2 = 1 THEN MinusOne ELSE VOne]}
LawStarts(f) ==
  LET N == IF Deep THEN 2 ELSE 1
      T(r, c, q, n1, n2) ==
        {<<a, b, d>> : a \in Cs(f, {<<r, c>>}, n1, XS), b \in Cs(f, {<<r, c>>}, n2, XM) \cup {Rep(f, r, c)},
                       d \in {Rep(f, c, q), Pack(f, c, q, IF c > 0 /\ q > 0 THEN <<<<c - 1, q - 1, VOne>>, <<0, 0, Two>>, <<c - 1, q - 1, MinusOne>>>> ELSE <<>>)}}
  IN  T(2, 2, 2, 2, N) \cup T(1, 2, 2, 2, N) \cup T(2, 1, 1, 2, N) \cup T(0, 2, 1, 0, 0) \cup T(2, 0, 2, 0, 0)
      \cup T(0, 0, 0, 0, 0) \cup (IF Deep THEN T(2, 3, 1, 2, 1) \cup T(2, 2, 3, 3, 1) ELSE {})

Starts ==
  CASE Family = "dok"   -> {<<Dok(2, 2)>>} \cup (IF Deep THEN {<<Dok(1, 2)>>, <<Dok(2, 1)>>} ELSE {})
    [] Family = "coo"   -> {<<CooOf(2, 2, <<>>)>>, <<CooOf(2, 2, <<<<1, 0, VOne>>>>)>>}
    [] Family = "ctor"  -> {<<>>}
    [] Family = "badnew" -> {<<>>}
    [] Family = "conv"  -> OneEach(CooUpTo(Sh0, 0, X1) \cup CooUpTo(Sh, DN2, XZ) \cup Comps(Sh0, 0, X1) \cup Comps(Sh, DN2, XZ))
    [] Family = "trans" -> OneEach(CooUpTo(Sh, DN2, XZ) \cup Comps(Sh0, 0, X1) \cup Comps(Sh, DN2, XZ) \cup Comps({<<2, 3>>}, DN2, X1))
    [] Family = "scale" -> OneEach(CooUpTo(Sh, 2, XZ) \cup Comps(Sh0, 0, X1) \cup Comps(Sh, DN2, XZ))
    [] Family = "parts" -> OneEach(CooUpTo({<<1, 2>>, <<2, 2>>}, 1, XV) \cup Comps(Sh0, 0, X1) \cup Comps({<<1, 2>>, <<2, 2>>}, 1, XV)
                                \cup Comps({<<1, 2>>, <<2, 1>>}, 2, XV))
    [] Family = "text"  -> OneEach(CooUpTo(Sh0, 0, X1) \cup CooUpTo(Sh, DN2, XV) \cup Comps(Sh0, 0, X1) \cup Comps(Sh, DN2, XV))
    [] Family = "read"  -> OneEach(CooUpTo(Sh, DN2, XZ) \cup Comps(Sh0, 0, X1) \cup Comps(Sh \cup {<<2, 3>>}, DN2, XZ))
    [] Family = "stack" -> {<<a, b>> : a \in Blks(VOne), b \in Blks(Two)} \cup {<<a, b>> : a \in Reps("csr"), b \in Reps("csr")}
    [] Family = "stack3" -> {<<a, b, c>> \in Blks(VOne) \X Blks(Two) \X Blks(MinusOne) : a.r = b.r \/ a.c = b.c}
    [] Family = "compose" ->
         {<<Blk(r1, c1, VOne), Blk(r1, c2, Two), Blk(r2, c1, MinusOne), Blk(r2, c2, VAdd(Two, VOne))>> :
            r1 \in Small, r2 \in Small, c1 \in Small, c2 \in Small}
         \cup {<<Blk(r1, c1, VOne), Blk(r2, c2, Two), Blk(1, c3, MinusOne), Blk(r3, 1, Two)>> :
            r1 \in 1 .. 2, r2 \in 1 .. 2, r3 \in 1 .. 2, c1 \in 1 .. 2, c2 \in 1 .. 2, c3 \in 1 .. 2}
    [] Family = "misfit" -> UNION {{<<a, b>> : a \in Reps(f[1]), b \in Reps(f[2])} :
                              f \in {<<"coo", "coo">>, <<"csr", "csr">>, <<"csc", "csc">>, <<"csc", "csr">>}}
    [] Family = "badarg" -> OneEach(Reps("csr") \cup Reps("csc") \cup Comps({<<1, 2>>, <<2, 1>>}, 2, X1)
                                  \cup {Dok(r, c) : r \in Small, c \in Small})
    [] Family = "forms" -> {<<a, b>> : a \in Cs("csr", {<<2, 2>>}, 2, X1), b \in {Rep("csr", 2, 2), Pack("csr", 2, 2, <<<<1, 1, VOne>>, <<1, 0, Two>>, <<1, 1, Two>>>>)}}
                           \cup {<<a, b>> : a \in Cs("csc", {<<2, 2>>}, 2, X1), b \in {Rep("csc", 2, 2), Pack("csc", 2, 2, <<<<1, 1, VOne>>, <<0, 1, Two>>, <<1, 1, Two>>>>)}}
                           \cup {<<a, b>> : a \in CooUpTo({<<2, 2>>}, 2, X1), b \in {Rep("coo", 2, 2)}}
    [] Family = "laws" -> LawStarts("csr") \cup LawStarts("csc")
    [] Family = "claws" -> OneEach(Comps({<<2, 2>>, <<1, 2>>, <<2, 1>>}, 2, XV) \cup Comps(Sh0, 0, X1) \cup (IF Deep THEN Comps({<<2, 2>>}, 3, XV) ELSE {}))
    [] Family = "graphs" -> OneEach(Cs("csr", {<<2, 2>>}, DN2, Ones1) \cup Digraphs(3, AllPairs(3), IF Deep THEN 9 ELSE 4))
    [] Family = "mixed" -> {<<a, b>> : a \in Cs("csr", {<<2, 2>>}, 2, X1), b \in {Rep("csr", 2, 2)}}
                           \cup {<<a, b>> : a \in Cs("csc", {<<2, 2>>}, 2, X1), b \in {Rep("csc", 2, 2)}}

Ramp(n) == [k \in 1 .. n |-> IF k % 2 = 1 THEN VOne ELSE Two]

(* ---- programs whose end states obey the laws of algebra ---------------- *)
O1(op, m, d)     == [op |-> op, a |-> <<m>>, d |-> d]
O2(op, m, k, d) == [op |-> op, a |-> <<m, k>>, d |-> d]
Sel(f, m, cols, d) == [op |-> f \o "_select", a |-> <<m>>, d |-> d, cols |-> cols]
LawProg ==
  LET f == reg["s1"].f  g == Other(f)  c1 == reg["s1"].c IN
  <<O2(f \o "_add", "s1", "s2", "ab"), O1(f \o "_t", "ab", "abT"),
    O1(f \o "_t", "s1", "aT"), O1(f \o "_t", "s2", "bT"), O2(g \o "_add", "aT", "bT", "sT"),
    O2(f \o "_matmat", "ab", "s3", "abD"), O2(f \o "_matmat", "s1", "s3", "aD"), O2(f \o "_matmat", "s2", "s3", "bD"),
    O2(f \o "_add", "aD", "bD", "sD"),
    O1(f \o "_t", "aD", "aDT"), O1(f \o "_t", "s3", "dT"), O2(g \o "_matmat", "dT", "aT", "dTaT"),
    O2(f \o "_sub", "ab", "s2", "a2"), O1(f \o "_neg", "s2", "nB"), O2(f \o "_add", "ab", "nB", "a3"),
    O2(f \o "_add", "s2", "s1", "ba"), O2(f \o "_sub", "s1", "s1", "zero"),
    O1(f \o "_to_coo", "s1", "aC"), [op |-> "coo_upper", a |-> <<"aC">>, d |-> "u", k |-> 0],
    O1("coo_t", "aC", "aCT"), [op |-> "coo_upper", a |-> <<"aCT">>, d |-> "v", k |-> 1],
    O1("coo_t", "v", "vT"), O2("coo_add", "u", "vT", "w"),
    O1(g \o "_to_" \o f, "aT", "aTf"), O2(f \o "_matmat", "aTf", "s1", "aTa"),
    O2(f \o "_matmat", "aTf", "aD", "aT_aD"), O2(f \o "_matmat", "aTa", "s3", "aTa_D"),
    O1(f \o "_to_" \o g, "s1", "g1"), O1(g \o "_to_" \o f, "g1", "g2"), O1("coo_to_" \o f, "aC", "g3"),
    O1(f \o "_neg", "nB", "b2"), O2("coo_h_stack", "aC", "u", "h"), O1("coo_to_" \o f, "h", "hf"),
    Sel(f, "hf", FullIdx(c1), "h1"), Sel(f, "hf", [k \in 1 .. c1 |-> c1 + k - 1], "h2"),
    O2("coo_v_stack", "aC", "vT", "vv"), O1("coo_t", "vv", "vvT"), O2("coo_h_stack", "aCT", "v", "hT"),
    O1(g \o "_sort", "g1", "-"), O1(f \o "_sumdup", "ab", "-"), O1(g \o "_sumdup", "abT", "-")>>

LawPairs ==
  {<<"abT", "sT">>, <<"abD", "sD">>, <<"aDT", "dTaT">>, <<"a2", "s1">>, <<"a3", "s1">>, <<"ba", "ab">>,
   <<"w", "s1">>, <<"aT_aD", "aTa_D">>, <<"g1", "s1">>, <<"g2", "s1">>, <<"g3", "s1">>, <<"aC", "s1">>, <<"b2", "s2">>,
   <<"h1", "s1">>, <<"h2", "u">>, <<"vvT", "hT">>, <<"aTf", "aT">>}
LawsHold ==
  /\ \A q \in LawPairs : /\ reg[q[1]].r = reg[q[2]].r /\ reg[q[1]].c = reg[q[2]].c
                         /\ Den(reg[q[1]]) = Den(reg[q[2]])
  /\ Den(reg["zero"]) = <<>>
  /\ Stored(reg["g2"]) = Stored(reg["s1"]) /\ reg["g2"].n = reg["s1"].n /\ SortedC(reg["g1"])
  /\ CanonicalC(reg["ab"]) /\ CanonicalC(reg["g3"]) /\ CanonicalC(reg["abT"])
  \* products with a vector: (A+B)D y = A(Dy) + B(Dy), and A^T y read row by row
  /\ LET y == Ramp(reg["s3"].c)
         Mv(m, v) == DenMatVec(Den(reg[m]), reg[m].r, v)
         dy == Mv("s3", y)  ady == Mv("s1", dy)  bdy == Mv("s2", dy)  abdy == Mv("abD", y)
     IN  \A k \in 1 .. reg["s1"].r : abdy[k] = VAdd(ady[k], bdy[k])

(* Parts of a complex matrix put together again; the conjugate transpose.   *)
CplxProg ==
  LET f == reg["s1"].f  g == Other(f) IN
  <<O1(f \o "_conj", "s1", "cj"), O1(f \o "_t", "cj", "cjT"), O1(f \o "_t", "s1", "aT"), O1(g \o "_conj", "aT", "aTcj"),
    O1(f \o "_h", "s1", "h"), O1(g \o "_h", "h", "hh"), O1(f \o "_real", "s1", "re"), O1(f \o "_imag", "s1", "im"),
    O1(f \o "_to_coo", "re", "reC"), O1("coo_to_csr", "reC", "reR"),
    O1(f \o "_to_coo", "im", "imC"), O1("coo_to_csr", "imC", "imR"),
    O1("csr_with_real", "reR", "wr"), O1("csr_with_imag", "imR", "wi"), O2("csr_add", "wr", "wi", "sum"), O2("csr_sub", "wr", "wi", "dif"),
    O1(g \o "_to_" \o f, "h", "hf"), O2(f \o "_matmat", "hf", "s1", "n"), O1(f \o "_h", "n", "nh"),
    [op |-> f \o "_scale", a |-> <<"s1">>, d |-> "is", s |-> <<0, 1>>, form |-> 0],
    O1(f \o "_real", "is", "isre"), O1(f \o "_neg", "im", "nim"), O1(f \o "_conj", "cj", "cc")>>
CplxPairs == {<<"cjT", "h">>, <<"aTcj", "h">>, <<"hh", "s1">>, <<"sum", "s1">>, <<"dif", "cj">>, <<"n", "nh">>, <<"isre", "nim">>, <<"cc", "s1">>}
CplxHold ==
  /\ \A q \in CplxPairs : /\ reg[q[1]].r = reg[q[2]].r /\ reg[q[1]].c = reg[q[2]].c
                          /\ Den(reg[q[1]]) = Den(reg[q[2]])
  \* the diagonal of A^H A is real and holds sums of squared absolute values
  /\ \A k \in 0 .. reg["n"].r - 1 : LET v == El(Den(reg["n"]), <<k, k>>) IN VIm(v) = VZero /\ v[1] >= 0

(* A directed graph, its reverse and its canonical form: same components    *)
(* up to the labels; strong ones refine weak ones; every search stays in a  *)
(* weak component and covers the strong one of its start.                   *)
GraphProg ==
  <<O1("csr_t", "s1", "sT"), O1("csc_to_csr", "sT", "rev"), O1("csr_to_coo", "s1", "cG"), O1("coo_to_csr", "cG", "can"),
    O2("csr_add", "s1", "rev", "both")>>
Cc(m, di, co) == [op |-> "g_cc", a |-> <<m>>, d |-> "-", directed |-> di, conn |-> co]
Df(m, di, st) == [op |-> "g_dfs", a |-> <<m>>, d |-> "-", directed |-> di, start |-> st]
GraphReads ==
  LET n == reg["s1"].r IN
  <<Cc("s1", TRUE, "strong"), Cc("rev", TRUE, "strong"), Cc("can", TRUE, "strong"), Cc("both", TRUE, "strong"),
    Cc("s1", TRUE, "weak"), Cc("rev", TRUE, "weak"), Cc("s1", FALSE, "weak"), Cc("both", TRUE, "weak"),
    [op |-> "csr_cc", a |-> <<"both">>, d |-> "-"]>>
  \o [k \in 1 .. n |-> Df("s1", TRUE, k - 1)] \o [k \in 1 .. n |-> Df("s1", FALSE, k - 1)]
  \o [k \in 1 .. n |-> Df("both", TRUE, k - 1)]
GraphsHold ==
  LET n == reg["s1"].r
      N == 1 .. n
      R(c) == RefRead(c, Operands(c))
      Same(c, v, w) == R(c)[2][v] = R(c)[2][w]
      SameCc(c, e) == R(c)[1] = R(e)[1] /\ \A v \in N, w \in N : Same(c, v, w) <=> Same(e, v, w)
      str == Cc("s1", TRUE, "strong")  wk == Cc("s1", TRUE, "weak")
      live(v) == R([op |-> "csr_cc", a |-> <<"both">>, d |-> "-"])[2][v] >= 0
      Seen(c) == Range(R(c)[1])
  IN  /\ \A m \in {"rev", "can"} : SameCc(Cc(m, TRUE, "strong"), str)
      /\ SameCc(Cc("both", TRUE, "strong"), wk) /\ SameCc(Cc("rev", TRUE, "weak"), wk) /\ SameCc(Cc("s1", FALSE, "weak"), wk)
      /\ \A v \in N, w \in N : Same(str, v, w) => Same(wk, v, w)
      /\ \A v \in N, w \in N : live(v) /\ live(w) =>
            (Same(wk, v, w) <=> Same([op |-> "csr_cc", a |-> <<"both">>, d |-> "-"], v, w))
      /\ R([op |-> "csr_cc", a |-> <<"both">>, d |-> "-"])[1] = R(wk)[1] - Cardinality({v \in N : ~live(v)})
      /\ \A v \in N : /\ {w \in N : Same(str, v, w)} \subseteq {u + 1 : u \in Seen(Df("s1", TRUE, v - 1))}
                       /\ {u + 1 : u \in Seen(Df("s1", FALSE, v - 1))} = {w \in N : Same(wk, v, w)}
                       /\ Seen(Df("s1", TRUE, v - 1)) \subseteq Seen(Df("both", TRUE, v - 1))
                       /\ \A w \in N : Same(str, v, w) <=>
                             (w - 1 \in Seen(Df("s1", TRUE, v - 1)) /\ v - 1 \in Seen(Df("s1", TRUE, w - 1)))

Depth ==
  CASE Family = "laws" -> Len(LawProg)
    [] Family = "graphs" -> Len(GraphProg)
    [] Family = "claws" -> Len(CplxProg)
    [] Family = "dok" -> IF Deep THEN 4 ELSE 3
    [] Family = "coo" -> IF Deep THEN 3 ELSE 2
    [] Family \in {"conv", "trans"} -> 2
    [] Family = "mixed" -> IF Deep THEN 3 ELSE 2
    [] OTHER -> 1

RN(k) == "s" \o ToString(k)
NewCall(m, d) ==
  CASE m.f = "coo" -> [op |-> "coo_new", a |-> <<>>, d |-> d, r |-> m.r, c |-> m.c, i |-> m.i, j |-> m.j, x |-> m.x]
    [] m.f = "dok" -> [op |-> "dok_new", a |-> <<>>, d |-> d, r |-> m.r, c |-> m.c]
    [] OTHER -> [op |-> m.f \o "_new", a |-> <<>>, d |-> d, r |-> m.r, c |-> m.c, p |-> m.p, j |-> m.j, x |-> m.x]

Init0 == \E s \in Starts :
          /\ reg = [t \in {RN(k) : k \in DOMAIN s} |-> s[CHOOSE k \in DOMAIN s : RN(k) = t]]
          /\ hist = [k \in DOMAIN s |-> NewCall(s[k], RN(k))]
          /\ left = Depth

DN == "m" \o ToString(Len(hist))
Un(op, m)        == [op |-> op, a |-> <<m>>, d |-> DN]
B2(op, m1, m2)  == [op |-> op, a |-> <<m1, m2>>, d |-> DN]
F4(op, m1, m2)  == {[op |-> op, a |-> <<m1, m2>>, d |-> DN, form |-> fo] : fo \in 0 .. 3}

Do(c) ==
  /\ Valid(c, Operands(c))
  /\ LET o == RefOutcome(c)
     IN  /\ Assert(OutcomeOk(c, o), <<"the specification refuses its reference", c, o>>)
         /\ reg' = After(c, o)
         /\ hist' = Append(hist, c)
         /\ left' = left - 1

LastReg == IF hist[Len(hist)].d \in DOMAIN reg THEN hist[Len(hist)].d ELSE "s1"
L  == reg[LastReg]
S1 == reg["s1"]

ConvOps(f) == CASE f = "coo" -> {"coo_to_csr", "coo_to_csc", "k_coo_tocsr"}
                [] f = "csr" -> {"csr_to_csc", "csr_to_coo", "k_csr_tocsc", "k_csr_tocoo"}
                [] f = "csc" -> {"csc_to_csr", "csc_to_coo", "k_csc_tocsr"}
                [] f = "dok" -> {"dok_to_csr", "dok_to_csc", "dok_to_coo"}
DensePairs == UNION {[1 .. s[1] -> [1 .. s[2] -> VV]] :
                s \in {<<1, 1>>, <<1, 2>>, <<2, 1>>, <<2, 2>>, <<0, 1>>, <<2, 0>>} \cup (IF Deep THEN {<<2, 3>>, <<3, 2>>} ELSE {<<1, 3>>})}
OobR(m) == 0 .. m.r   OobC(m) == 0 .. m.c
VLists(S2, n) == UNION {Seqs(S2, k) : k \in 0 .. n}
Ones(n) == [k \in 1 .. n |-> VOne]

Step ==
  \/ /\ Family \in {"laws", "claws", "graphs"}
     /\ LET P == CASE Family = "laws" -> LawProg [] Family = "claws" -> CplxProg [] OTHER -> GraphProg IN Do(P[Len(P) - left + 1])
  \/ /\ Family = "dok"
     /\ \E op \in {"dok_set", "dok_add", "dok_sub"}, x \in VV,
           q \in (IF Deep THEN {<<0, 0>>, <<S1.r - 1, S1.c - 1>>} ELSE {<<0, 0>>, <<S1.r - 1, S1.c - 1>>, <<0, S1.c>>}) :
           Do([op |-> op, a |-> <<"s1">>, d |-> "-", i |-> q[1], j |-> q[2], x |-> x])
  \/ /\ Family = "coo"
     /\ \/ \E i \in 0 .. 1, j \in 0 .. 1, x \in VV :
             Do([op |-> "coo_push", a |-> <<"s1">>, d |-> "-", i |-> i, j |-> j, x |-> x])
        \/ \E ij \in VLists({<<0, 0>>, <<0, 1>>, <<1, 1>>}, 2), xs \in XV(2) :
             Do([op |-> "coo_extend", a |-> <<"s1">>, d |-> "-", i |-> [k \in DOMAIN ij |-> ij[k][1]],
                 j |-> [k \in DOMAIN ij |-> ij[k][2]], x |-> SubSeq(xs, 1, Len(ij))])
        \/ \E k \in 0 .. S1.n - 1, x \in VV :
             Do([op |-> "coo_set_val", a |-> <<"s1">>, d |-> "-", k |-> k, x |-> x])
  \/ /\ Family = "ctor"
     /\ \/ \E op \in {"coo_from_dense", "csr_from_dense", "csc_from_dense", "dok_from_dense"}, D \in DensePairs :
             Do([op |-> op, a |-> <<>>, d |-> DN, D |-> D])
        \/ \E op \in {"coo_with_diagonal", "csr_with_diagonal", "csc_with_diagonal"}, x \in VLists(Vs, 3) :
             Do([op |-> op, a |-> <<>>, d |-> DN, x |-> x])
        \/ \E n \in 0 .. 4 : Do([op |-> "coo_identity", a |-> <<>>, d |-> DN, n |-> n])
        \/ \E op \in {"coo_with_size", "csr_with_size", "dok_new"}, r \in 0 .. 3, c \in 0 .. 3 :
             Do([op |-> op, a |-> <<>>, d |-> DN, r |-> r, c |-> c])
        \/ \E op \in {"coo_with_capacity", "dok_with_capacity"}, r \in 0 .. 2, c \in 0 .. 2, k \in 0 .. 2 :
             Do([op |-> op, a |-> <<>>, d |-> DN, r |-> r, c |-> c, k |-> k])
        \/ \E op \in {"csr_new", "csc_new"}, p \in Ptrs(2, 2), j \in Seqs(0 .. 1, 3), t \in 2 .. 3, u \in 2 .. 3 :
             Do([op |-> op, a |-> <<>>, d |-> DN, r |-> 2, c |-> 2, p |-> p, j |-> SubSeq(j, 1, t), x |-> Ramp(u)])
  \/ /\ Family = "badnew"
     /\ \/ \E ni \in 0 .. 2, nj \in 0 .. 2, nx \in 0 .. 2, r \in 1 .. 2, c \in 1 .. 2 :
             Do([op |-> "coo_new", a |-> <<>>, d |-> DN, r |-> r, c |-> c, i |-> [k \in 1 .. ni |-> 0],
                 j |-> [k \in 1 .. nj |-> 0], x |-> Ramp(nx)])
        \/ \E op \in {"csr_new", "csc_new"}, r \in 0 .. 2, c \in 0 .. 2, np \in 1 .. 4, n \in 0 .. 2, nj \in 0 .. 3, nx \in 0 .. 3 :
             /\ (r > 0 /\ c > 0) \/ n = 0
             /\ Do([op |-> op, a |-> <<>>, d |-> DN, r |-> r, c |-> c,
                    p |-> [k \in 1 .. np |-> IF k = 1 /\ np > 1 THEN 0 ELSE IF np = 1 THEN 0 ELSE n],
                    j |-> [k \in 1 .. nj |-> 0], x |-> Ramp(nx)])
  \/ /\ Family = "conv"
     /\ \E op \in ConvOps(L.f) : Do(Un(op, LastReg))
  \/ /\ Family = "trans"
     /\ \E w \in {"_t", "_transpose"} : Do(Un(L.f \o w, LastReg))
  \/ /\ Family = "scale"
     /\ \/ Do(Un(S1.f \o "_neg", "s1"))
        \/ /\ S1.f # "coo"
           /\ \E s \in Vs, fo \in 0 .. 1 : Do([op |-> S1.f \o "_scale", a |-> <<"s1">>, d |-> DN, s |-> s, form |-> fo])
        \/ /\ S1.f = "csr"
           /\ \/ \E s \in Seqs(Vs, S1.r) : Do([op |-> "k_scale_rows", a |-> <<"s1">>, d |-> "-", s |-> s])
              \/ \E s \in Seqs(Vs, S1.c) : Do([op |-> "k_scale_cols", a |-> <<"s1">>, d |-> "-", s |-> s])
  \/ /\ Family = "parts"
     /\ \/ \E w \in {"_conj", "_real", "_imag", "_h", "_neg"} : Do(Un(S1.f \o w, "s1"))
        \/ /\ S1.f = "csr"
           /\ \E w \in {"csr_with_real", "csr_with_imag"} : Do(Un(w, "s1"))
        \/ /\ S1.f # "coo"
           /\ \E s \in Vs, w \in {"_scale", "_lscale"}, fo \in 0 .. 1 :
                Do([op |-> S1.f \o w, a |-> <<"s1">>, d |-> DN, s |-> s, form |-> fo])
  \/ /\ Family = "text"
     /\ \/ Do(Un(S1.f \o "_to_string", "s1"))
        \/ S1.f = "csr" /\ Do(Un("csr_to_table", "s1"))
  \/ /\ Family = "read"
     /\ \/ Do(Un(S1.f \o "_diagonal", "s1"))
        \/ /\ S1.f = "coo"
           /\ \E k \in -3 .. 3 : Do([op |-> "coo_upper", a |-> <<"s1">>, d |-> DN, k |-> k])
        \/ /\ S1.f = "csr"
           /\ \E i \in 0 .. S1.r - 1, j \in 0 .. S1.c - 1 : Do([op |-> "csr_get", a |-> <<"s1">>, d |-> DN, i |-> i, j |-> j])
        \/ /\ S1.f = "csr" /\ Do(Un("k_count_diag", "s1"))
        \/ /\ S1.f \in {"csr", "csc"}
           /\ \E k \in -3 .. 3 : Do([op |-> "k_" \o S1.f \o "_diagonal", a |-> <<"s1">>, d |-> DN, k |-> k])
  \/ /\ Family = "stack"
     /\ \/ S1.f = "coo" /\ \E op \in {"coo_h_stack", "coo_v_stack"} : Do(B2(op, "s1", "s2"))
        \/ S1.f = "csr" /\ Do(B2("csr_h_stack", "s1", "s2"))
  \/ /\ Family = "stack3"
     /\ \E op \in {"coo_h_stack3", "coo_v_stack3"} : Do([op |-> op, a |-> <<"s1", "s2", "s3">>, d |-> DN])
  \/ /\ Family = "compose"
     /\ Do([op |-> "coo_compose", a |-> <<"s1", "s2", "s3", "s4">>, d |-> DN])
  \/ /\ Family = "misfit"
     /\ \/ S1.f = "coo" /\ (Do(B2("coo_add", "s1", "s2")) \/ Do(B2("coo_h_stack", "s1", "s2")) \/ Do(B2("coo_v_stack", "s1", "s2")))
        \/ /\ S1.f = "csr"
           /\ \/ \E op \in {"csr_add", "csr_sub", "csr_mul"}, fo \in 0 .. 3 :
                   Do([op |-> op, a |-> <<"s1", "s2">>, d |-> DN, form |-> fo])
              \/ \E op \in {"csr_matmat", "csr_h_stack"} : Do(B2(op, "s1", "s2"))
        \/ /\ S1.f = "csc" /\ reg["s2"].f = "csc"
           /\ \/ \E op \in {"csc_add", "csc_sub", "csc_mul"}, fo \in 0 .. 3 :
                   Do([op |-> op, a |-> <<"s1", "s2">>, d |-> DN, form |-> fo])
              \/ \E op \in {"csc_matmat", "csc_add_m", "csc_sub_m"} : Do(B2(op, "s1", "s2"))
        \/ /\ S1.f = "csc" /\ reg["s2"].f = "csr"
           /\ \E fo \in 0 .. 3 : Do([op |-> "csc_mul_csr", a |-> <<"s1", "s2">>, d |-> DN, form |-> fo])
  \/ /\ Family = "badarg"
     /\ \/ /\ S1.f # "dok"
           /\ \/ \E n \in 0 .. 3 : Do([op |-> S1.f \o "_matvec", a |-> <<"s1">>, d |-> DN, x |-> Ramp(n)])
              \/ \E n \in 0 .. 3, fo \in 0 .. 3, rk \in {"slice", "vec"} :
                    Do([op |-> S1.f \o "_mulvec", a |-> <<"s1">>, d |-> DN, x |-> Ramp(n), form |-> fo, rk |-> rk])
              \/ \E rw \in VLists(0 .. S1.r, 2), cl \in VLists(0 .. S1.c, 2) :
                    Do([op |-> S1.f \o "_select", a |-> <<"s1">>, d |-> DN, rows |-> rw, cols |-> cl])
              \/ \E rw \in VLists(0 .. S1.r, 2) : Do([op |-> S1.f \o "_select", a |-> <<"s1">>, d |-> DN, rows |-> rw])
              \/ \E cl \in VLists(0 .. S1.c, 2) : Do([op |-> S1.f \o "_select", a |-> <<"s1">>, d |-> DN, cols |-> cl])
              \/ Do([op |-> S1.f \o "_select", a |-> <<"s1">>, d |-> DN])
        \/ /\ S1.f = "csr"
           /\ \/ \E di \in BOOLEAN, co \in {"weak", "strong"} : Do([op |-> "g_cc", a |-> <<"s1">>, d |-> DN, directed |-> di, conn |-> co])
              \/ \E di \in BOOLEAN, st \in 0 .. 2 : Do([op |-> "g_dfs", a |-> <<"s1">>, d |-> DN, directed |-> di, start |-> st])
              \/ Do(Un("csr_cc", "s1"))
        \/ /\ S1.f = "dok"
           /\ \/ \E op \in {"dok_set", "dok_add", "dok_sub"}, i \in OobR(S1), j \in OobC(S1), x \in {VZero, VOne} :
                    Do([op |-> op, a |-> <<"s1">>, d |-> "-", i |-> i, j |-> j, x |-> x])
              \/ \E i \in OobR(S1), j \in OobC(S1) : Do([op |-> "dok_get", a |-> <<"s1">>, d |-> DN, i |-> i, j |-> j])
  \/ /\ Family = "forms"
     /\ \/ S1.f = "coo" /\ \E c \in {B2("coo_add", "s1", "s2"), B2("coo_add", "s2", "s1"), B2("coo_add", "s1", "s1")} : Do(c)
        \/ /\ S1.f # "coo"
           /\ \E o \in {"_add", "_sub", "_mul"}, fo \in 0 .. 3, q \in {<<"s1", "s2">>, <<"s2", "s1">>, <<"s1", "s1">>} :
                Do([op |-> S1.f \o o, a |-> q, d |-> DN, form |-> fo])
        \/ /\ S1.f # "coo"
           /\ \E fo \in 0 .. 3, rk \in {"slice", "vec"} :
                Do([op |-> S1.f \o "_mulvec", a |-> <<"s1">>, d |-> DN, x |-> Ramp(2), form |-> fo, rk |-> rk])
        \/ /\ S1.f # "coo"
           /\ \E fo \in 0 .. 1 : Do([op |-> S1.f \o "_scale", a |-> <<"s1">>, d |-> DN, s |-> Two, form |-> fo])
  \/ /\ Family = "mixed"
     /\ \/ \E o \in {"_add", "_sub", "_matmat"}, q \in {<<LastReg, "s2">>, <<"s2", LastReg>>, <<LastReg, LastReg>>} :
             /\ reg[q[1]].f = reg[q[2]].f /\ L.f # "coo"
             /\ Do([op |-> L.f \o o, a |-> q, d |-> DN])
        \/ \E op \in ConvOps(L.f) \cup {L.f \o "_t"} : Do(Un(op, LastReg))
        \/ /\ L.f # "coo"
           /\ \E o \in {"_sort", "_sumdup"} : Do([op |-> L.f \o o, a |-> <<LastReg>>, d |-> "-"])
        \/ L.f = "csr" /\ Do([op |-> "k_elim", a |-> <<LastReg>>, d |-> "-"])
        \/ /\ L.f # "coo"
           /\ \E rw \in {<<>>, <<1>>, <<1, 0>>, <<0, 0>>} : Do([op |-> L.f \o "_select", a |-> <<LastReg>>, d |-> DN, rows |-> rw])
        \/ L.f = "csr" /\ Do(B2("csr_h_stack", LastReg, LastReg))
        \/ L.f = "coo" /\ (Do(B2("coo_v_stack", LastReg, LastReg)) \/ Do(B2("coo_add", LastReg, LastReg)))

(* Reads at the end of a history that show its final state.                 *)
Finals ==
  CASE Family = "dok" ->
        [k \in 1 .. 4 |-> [op |-> "dok_get", a |-> <<"s1">>, d |-> "-", i |-> (k - 1) % 2, j |-> (k - 1) \div 2]]
        \o <<Un("dok_to_dense", "s1"), [op |-> "dok_to_csr", a |-> <<"s1">>, d |-> "fa"],
             [op |-> "dok_to_csc", a |-> <<"s1">>, d |-> "fb"], [op |-> "dok_to_coo", a |-> <<"s1">>, d |-> "fc"]>>
    [] Family = "coo" ->
        <<Un("coo_to_dense", "s1"), [op |-> "coo_to_csr", a |-> <<"s1">>, d |-> "fa"],
          [op |-> "coo_to_csc", a |-> <<"s1">>, d |-> "fb"]>>
    [] Family = "conv" /\ L.f \in {"coo", "csc"} -> <<Un(L.f \o "_to_dense", LastReg)>>
    [] Family = "conv" /\ L.f = "csr" -> <<Un("csr_sorted", LastReg)>>
    [] Family = "graphs" -> GraphReads
    [] OTHER -> <<>>
ReadsOk == \A k \in DOMAIN Finals :
             LET c == Finals[k] IN ~Valid(c, Operands(c)) \/ OutcomeOk(c, RefOutcome(c))

Finish ==
  /\ left = 0
  /\ Assert(ReadsOk, <<"the specification refuses a reference read", hist>>)
  /\ PrintT("BEH" \o ToJson([k |-> "hist", a |-> <<>>, c |-> Nil, o |-> hist \o Finals]))
  /\ left' = -1
  /\ UNCHANGED <<reg, hist>>

(* Invariants                                                               *)
Algebra  == Family = "laws" /\ left = 0 => LawsHold
CplxLaw  == Family = "claws" /\ left = 0 => CplxHold
GraphLaw == Family = "graphs" /\ left = 0 => GraphsHold

HNext == (left > 0 /\ Step) \/ Finish
HSpec == Init0 /\ [][HNext]_hvars
=============================================================================

------------------------------ MODULE GaussRing ------------------------------
(* Scalars of the complex element types: Gaussian integers <<re, im>>.      *)
EXTENDS Integers, Sequences, TLC
LOCAL INSTANCE IntRing
GAbs(a) == IF a < 0 THEN -a ELSE a
GZero == <<0, 0>>
GOne  == <<1, 0>>
GAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
GSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
GMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
GNeg(a) == <<-a[1], -a[2]>>
GConj(a) == <<a[1], -a[2]>>
GRe(a) == <<a[1], 0>>
GIm(a) == <<a[2], 0>>
GI(a)  == <<-a[2], a[1]>>
(* num_complex prints 3-2i, the table form 3-j2; the parts are over 2^q.     *)
GStr(a, q) == IStr(a[1], q) \o (IF a[2] < 0 THEN "-" ELSE "+") \o IDec(GAbs(a[2]), q) \o "i"
GPretty(a, q) == IStr(a[1], q) \o (IF a[2] < 0 THEN "-" ELSE "+") \o "j" \o IDec(GAbs(a[2]), q)
GLt(a, b) == Assert(FALSE, "complex numbers have no order")
(* Exact quotients only.                                                    *)
GDiv(a, b) ==
  LET n == b[1] * b[1] + b[2] * b[2]
      t == GMul(a, GConj(b))
      q(v) == IF v < 0 THEN -((-v) \div n) ELSE v \div n
  IN  <<q(t[1]), q(t[2])>>
=============================================================================

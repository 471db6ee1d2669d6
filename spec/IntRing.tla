------------------------------- MODULE IntRing -------------------------------
(* Scalars of all real element types: integers, plus four codes for float   *)
(* results that are no integers (see DESIGN.md, "Values").                  *)
EXTENDS Integers, Sequences, TLC
NaN    == 1000000001
PosInf == 1000000002
NegInf == 1000000003
Odd    == 1000000009      \* any other non-integral or huge number

IZero == 0
IOne  == 1
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
INeg(a) == -a
IId(a) == a
IZ(a) == 0
IErr(a) == Assert(FALSE, "complex operation on a real scalar")
ILt(a, b) == a < b
IAbs(a) == IF a < 0 THEN -a ELSE a

(* The decimal form of a / 2^q: a / 2^q = a * 5^q / 10^q.                   *)
RECURSIVE Digits(_, _)
Digits(f, q) ==     \* f < 10^q written with q digits, less the trailing zeros
  IF f = 0 THEN "" ELSE ToString(f \div 10^(q - 1)) \o Digits(f % 10^(q - 1), q - 1)
IDec(a, q) ==       \* of a >= 0
  IF a % 2^q = 0 THEN ToString(a \div 2^q)
  ELSE ToString(a \div 2^q) \o "." \o Digits((a % 2^q) * 5^q, q)
IStr(a, q) == IF a < 0 THEN "-" \o IDec(-a, q) ELSE IDec(a, q)
(* Only exact quotients are generated; division by zero follows IEEE 754.   *)
IDiv(a, b) ==
  IF b = 0 THEN (IF a = 0 THEN NaN ELSE IF a > 0 THEN PosInf ELSE NegInf)
  ELSE IF IAbs(a) % IAbs(b) = 0
       THEN (IF (a < 0) = (b < 0) THEN IAbs(a) \div IAbs(b) ELSE -(IAbs(a) \div IAbs(b)))
       ELSE Odd
=============================================================================

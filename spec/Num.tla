-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for the specifications.  scisim's state is a vector of  *)
(* doubles; TLC's integers are 32 bits wide.  A number is carried as a     *)
(* string (decimal, or the exact C "%a" form the drivers write) or as a    *)
(* TLA+ integer, and the operators below are evaluated by java/Num.java    *)
(* with 50 significant digits.  Their definitions here only state which    *)
(* real-number operation each one denotes.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences

LOCAL Undefined == CHOOSE x : FALSE

RAdd(a, b) == Undefined      \* a + b
RSub(a, b) == Undefined      \* a - b
RMul(a, b) == Undefined      \* a * b
RDiv(a, b) == Undefined      \* a / b
RNeg(a)    == Undefined      \* -a
RAbs(a)    == Undefined      \* |a|
RSqrt(a)   == Undefined      \* square root of max(a, 0)
RMin(a, b) == Undefined
RMax(a, b) == Undefined
RLt(a, b)  == Undefined      \* a < b
RLe(a, b)  == Undefined      \* a <= b
REq(a, b)  == Undefined      \* a = b as real numbers (not as strings)
RSign(a)   == Undefined      \* -1, 0, 1 : a TLA+ integer
RFloor(a)  == Undefined
RTrunc(a)  == Undefined
RToInt(a)  == Undefined      \* an integral number as a TLA+ integer
RRound64(a) == Undefined     \* the nearest IEEE double
RCos(a)    == Undefined
RSin(a)    == Undefined
RFinite(a) == Undefined      \* neither a NaN nor an infinity
RDot(a, b) == Undefined      \* inner product of two sequences of equal length
RSumSeq(a) == Undefined
VAdd(a, b) == Undefined      \* componentwise on sequences of equal length
VSub(a, b) == Undefined
VScale(k, a) == Undefined
VInf(a)    == Undefined      \* largest component magnitude

RPi == "3.14159265358979323846264338327950288419716939937510582097494459"
RGt(a, b) == RLt(b, a)
RGe(a, b) == RLe(b, a)
VNeg(a)   == VScale(-1, a)
VNorm2(a) == RDot(a, a)
VNorm(a)  == RSqrt(RDot(a, a))
Cross2(a, b) == RSub(RMul(a[1], b[2]), RMul(a[2], b[1]))
Cross3(a, b) == << RSub(RMul(a[2], b[3]), RMul(a[3], b[2])),
                   RSub(RMul(a[3], b[1]), RMul(a[1], b[3])),
                   RSub(RMul(a[1], b[2]), RMul(a[2], b[1])) >>
Perp(a) == << RNeg(a[2]), a[1] >>                \* a rotated by +90 degrees

\* |a - b| <= tol * max(1, |a|, |b|)
Close(a, b, tol) ==
  RLe(RAbs(RSub(a, b)), RMul(tol, RMax(1, RMax(RAbs(a), RAbs(b)))))
VClose(a, b, tol) ==
  /\ Len(a) = Len(b)
  /\ RLe(VInf(VSub(a, b)), RMul(tol, RMax(1, RMax(VInf(a), VInf(b)))))
VEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : REq(a[i], b[i])
VFinite(a) == \A i \in 1..Len(a) : RFinite(a[i])
=============================================================================

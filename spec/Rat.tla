--------------------------------- MODULE Rat ---------------------------------
(***************************************************************************)
(* Exact rational arithmetic: the time step, simulation end time and       *)
(* output frequency are held as rationals so that "does the time step      *)
(* divide a frame" and "has the end time been reached" are exact.          *)
(***************************************************************************)
EXTENDS Num, Naturals

RMod(a, b) == RSub(a, RMul(b, RTrunc(RDiv(a, b))))
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF RSign(b) = 0 THEN RAbs(a) ELSE Gcd(b, RMod(a, b))

\* the unique representative: lowest terms, sign on the numerator, 0 as 0/1
Norm(n, d) ==
  IF RSign(n) = 0 THEN << "0", "1" >>
  ELSE LET g == Gcd(n, d)
           s == IF RSign(d) < 0 THEN -1 ELSE 1
       IN << RMul(s, RDiv(n, g)), RMul(s, RDiv(d, g)) >>

Same(p, q)  == REq(p[1], q[1]) /\ REq(p[2], q[2])
IsNormal(p) == RSign(p[2]) > 0 /\ (RSign(p[1]) = 0 => REq(p[2], 1)) /\ REq(Gcd(p[1], p[2]), 1)

Plus(p, q)  == Norm(RAdd(RMul(p[1], q[2]), RMul(q[1], p[2])), RMul(p[2], q[2]))
Minus(p, q) == Norm(RSub(RMul(p[1], q[2]), RMul(q[1], p[2])), RMul(p[2], q[2]))
Times(p, q) == Norm(RMul(p[1], q[1]), RMul(p[2], q[2]))
Over(p, q)  == Norm(RMul(p[1], q[2]), RMul(p[2], q[1]))
Lift(k)     == << k, 1 >>

Apply(op, r, x) ==
  CASE op = "set"  -> Norm(x[1], x[2])
    [] op = "add"  -> Plus(r, Norm(x[1], x[2]))
    [] op = "sub"  -> Minus(r, Norm(x[1], x[2]))
    [] op = "mul"  -> Times(r, Norm(x[1], x[2]))
    [] op = "div"  -> Over(r, Norm(x[1], x[2]))
    [] op = "muls" -> Times(r, Lift(x[1]))        \* by an integer, from the right
    [] op = "smul" -> Times(Lift(x[1]), r)        \* by an integer, from the left
    [] op = "divs" -> Over(r, Lift(x[1]))         \* by an integer
    [] op = "sdiv" -> Over(Lift(x[1]), r)         \* integer over rational
Enabled(op, r, x) ==
  CASE op \in {"set"} -> RSign(x[2]) # 0
    [] op \in {"add", "sub", "mul"} -> RSign(x[2]) # 0
    [] op = "div" -> RSign(x[2]) # 0 /\ RSign(x[1]) # 0
    [] op = "divs" -> RSign(x[1]) # 0
    [] op = "sdiv" -> RSign(r[1]) # 0
    [] OTHER -> TRUE
Ops == {"set", "add", "sub", "mul", "div", "muls", "smul", "divs", "sdiv"}
=============================================================================

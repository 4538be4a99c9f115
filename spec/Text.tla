-------------------------------- MODULE Text --------------------------------
(***************************************************************************)
(* The text primitives every scene file, command line and file name goes   *)
(* through, as functions on finite sequences of character codes.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Space == {9, 10, 11, 12, 13, 32}
Zero  == 48
Digits == 48..57

Positions(s, c) == {i \in 1..Len(s) : s[i] = c}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

\* the pieces of s between occurrences of c; the empty string has no pieces
RECURSIVE Pieces(_, _)
Pieces(s, c) ==
  IF Positions(s, c) = {} THEN << s >>
  ELSE LET p == MinOf(Positions(s, c))
       IN  << SubSeq(s, 1, p - 1) >> \o Pieces(SubSeq(s, p + 1, Len(s)), c)
Tokenize(s, c) == IF s = << >> THEN << >> ELSE Pieces(s, c)

RECURSIVE Join(_, _)
Join(ts, c) == IF ts = << >> THEN << >>
               ELSE IF Len(ts) = 1 THEN ts[1]
               ELSE ts[1] \o << c >> \o Join(Tail(ts), c)

SplitLeft(s, c)  == IF Positions(s, c) = {} THEN s ELSE SubSeq(s, 1, MaxOf(Positions(s, c)) - 1)
SplitRight(s, c) == IF Positions(s, c) = {} THEN << >> ELSE SubSeq(s, MaxOf(Positions(s, c)) + 1, Len(s))
NumRight(s, c)   == IF Positions(s, c) = {} THEN 0 ELSE Len(s) - MinOf(Positions(s, c))

NonSpace(s) == {i \in 1..Len(s) : s[i] \notin Space}
TrimFront(s) == IF NonSpace(s) = {} THEN << >> ELSE SubSeq(s, MinOf(NonSpace(s)), Len(s))
TrimBack(s)  == IF NonSpace(s) = {} THEN << >> ELSE SubSeq(s, 1, MaxOf(NonSpace(s)))
Trim(s)      == TrimFront(TrimBack(s))
Squeeze(s)   == SelectSeq(s, LAMBDA c : c \notin Space)
TrimRight(s, c) == LET K == {i \in 1..Len(s) : s[i] # c}
                   IN IF K = {} THEN << >> ELSE SubSeq(s, 1, MaxOf(K))
Pad(s, w) == [i \in 1..(IF Len(s) < w THEN w - Len(s) ELSE 0) |-> Zero] \o s

RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN << Zero + n >> ELSE Decimal(n \div 10) \o << Zero + (n % 10) >>

----------------------------------------------------------------------------
(* Laws, model checked over every string up to a bound (TextMC).           *)
Laws(s, c) ==
  /\ Join(Tokenize(s, c), c) = s
  /\ s # << >> => Len(Tokenize(s, c)) = Cardinality(Positions(s, c)) + 1
  /\ \A i \in 1..Len(Tokenize(s, c)) : Positions(Tokenize(s, c)[i], c) = {}
  /\ Positions(s, c) # {} => SplitLeft(s, c) \o << c >> \o SplitRight(s, c) = s
  /\ Positions(SplitRight(s, c), c) = {}
  /\ Trim(s) = TrimBack(TrimFront(s)) /\ Trim(Trim(s)) = Trim(s)
  /\ Squeeze(Trim(s)) = Squeeze(s)
  /\ Len(Squeeze(s)) = Cardinality(NonSpace(s))
  /\ Len(Pad(s, 5)) = MaxOf({5, Len(s)})
  /\ NumRight(s, c) = Len(s) - Len(IF Positions(s, c) = {} THEN s ELSE SubSeq(s, 1, MinOf(Positions(s, c))))
=============================================================================

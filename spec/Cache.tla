-------------------------------- MODULE Cache --------------------------------
(***************************************************************************)
(* The warm start cache: impulses by contact.  A contact is entered at     *)
(* most once between two clearings; one that was not entered reads as      *)
(* zero; saving and reloading the simulation changes nothing.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES cache                                    \* contact -> impulses
Empty == [k \in {} |-> << >>]
Read(c, k, zero) == IF k \in DOMAIN c THEN c[k] ELSE zero
CanPut(c, k) == k \notin DOMAIN c
Put(c, k, r) == [x \in DOMAIN c \cup {k} |-> IF x = k THEN r ELSE c[x]]
Apply(c, op, k, r) == CASE op = "put" -> Put(c, k, r) [] op = "clear" -> Empty [] op = "save" -> c
=============================================================================

------------------------------- MODULE Sets --------------------------------
(* Bit sets and document-id sets as sets of numbers; iterators as positions   *)
(* in them; priority queues as bags.  Results and next states of every        *)
(* operation are defined here, whatever the representation.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Rng(a, b) == a..(b - 1)                       \* the half-open range every range operation uses
SymD(A, B) == (A \ B) \cup (B \ A)
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
NextIn(S, i) == LET T == {x \in S : x >= i} IN IF T = {} THEN -1 ELSE SetMin(T)
B2I(b) == IF b THEN 1 ELSE 0
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : a < b)

\* what operation f leaves of set S (T: the other set; n: upper bound of the set operated on, for what comes from an iterator)
Next_(f, S, T, i, e) ==
  CASE f = "set" -> S \cup {i}               [] f = "clear" -> S \ {i}
    [] f = "flip" -> SymD(S, {i})         [] f = "getAndSet" -> S \cup {i}
    [] f = "flipAndGet" -> SymD(S, {i})
    [] f = "setR" -> S \cup Rng(i, e)        [] f = "clearR" -> S \ Rng(i, e)
    [] f = "flipR" -> SymD(S, Rng(i, e))
    [] f = "and" -> S \cap T                 [] f = "or" -> S \cup T
    [] f = "xor" -> SymD(S, T)            [] f = "not" -> S \ T
    [] f = "empty" -> {}
    [] f = "orIt" -> S \cup {x \in T : x < e}   [] f = "andIt" -> S \cap T
    [] f = "notIt" -> S \ T                     [] f = "xorIt" -> SymD(S, {x \in T : x < e})
    [] OTHER -> S
\* what it returns
Result(f, S, T, i, e) ==
  CASE f \in {"get", "getAndSet"} -> B2I(i \in S)
    [] f = "flipAndGet" -> B2I(i \notin S)
    [] f = "next" -> NextIn(S, i)
    [] f \in {"card", "saved"} -> Cardinality(S)
    [] f = "subset" -> Cardinality(S \cap Rng(i, e))
    [] f = "intersects" -> B2I(S \cap T # {})
    [] f = "isEmpty" -> B2I(S = {})
    [] f = "andCount" -> Cardinality(S \cap T)   [] f = "orCount" -> Cardinality(S \cup T)
    [] f = "notCount" -> Cardinality(S \ T)      [] f = "xorCount" -> Cardinality(SymD(S, T))
    [] OTHER -> 0
\* equal sets are equal and have equal hash codes (1: equal, 2: hash codes agree)
EqualsOk(S, T, r) == IF S = T THEN r = 3 ELSE r \in {0, 2}

\* the element an iterator at position pos (-1: before the first) delivers next, or at least t
After(S, pos, t) == NextIn(S, IF t < 0 THEN pos + 1 ELSE t)

-----------------------------------------------------------------------------
(* A priority queue: bag of [key, id]; it orders by key only.                 *)
Least(Q, x) == \A y \in Q : x.key <= y.key
\* bounded insertion: what remains after offering x to a full queue loses a least element
OverflowOk(Q, x, max, lost, Q2) ==
  IF Cardinality(Q) < max THEN lost = {} /\ Q2 = Q \cup {x}
  ELSE /\ Q2 = (Q \cup {x}) \ lost
       /\ Cardinality(lost) = 1
       /\ \A y \in lost : Least(Q \cup {x}, y)
=============================================================================

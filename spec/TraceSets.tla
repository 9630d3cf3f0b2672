----------------------------- MODULE TraceSets -----------------------------
(* Recorded calls on real bit sets, id sets, iterators and queues against     *)
(* the sets, positions and bags of module Sets.                               *)
EXTENDS Sets, TraceLib
VARIABLES l, obj, it, pq, sq
vars == <<l, obj, it, pq, sq>>
C(name, c, info) == Chk(l, name, c, <<Trace[l].op, info>>)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
NoPq == [max |-> -1, q |-> {}]
NoSq == [max |-> -1, q |-> {}]

New(e) ==
  LET src == IF e.src \in DOMAIN obj THEN obj[e.src].s ELSE {}
      S == CASE e.how = "empty" -> {} [] e.how = "of" -> ToSet(e.v) [] e.how = "copy" -> src
             [] e.how = "mod" -> {x \in src : x % e.n # 0}
             [] e.how = "below" -> {x \in src : x < e.n}
             [] OTHER -> {}
  IN /\ C("content", e.how = "empty" \/ e.c = Sorted(S), <<e.c, S>>)
     /\ obj' = Put(obj, e.o, [k |-> e.k, s |-> S, n |-> e.n]) /\ UNCHANGED <<it, pq, sq>>
Op(e) ==
  LET x == obj[e.o]
      T == IF e.o2 \in DOMAIN obj THEN obj[e.o2].s ELSE {}
      S2 == Next_(e.f, x.s, T, e.i, e.e)
      outside == x.k = "vec" /\ e.f \in {"set", "getAndSet", "clear"} /\ e.i >= x.n
  IN IF outside THEN C("outOfBounds", e.ex = "IndexOutOfBounds", e) /\ UNCHANGED <<obj, it, pq, sq>>
     ELSE /\ C("noException", e.ex = "", e)
          /\ IF e.f = "equals" THEN C("equals", EqualsOk(x.s, T, e.r), <<e, x.s, T>>)
             ELSE C("result", e.r = Result(e.f, x.s, T, e.i, e.e), <<e, x.s, T, Result(e.f, x.s, T, e.i, e.e)>>)
          /\ IF e.wc THEN C("contentAfter", e.c = Sorted(S2), <<e, Sorted(S2)>>) ELSE TRUE
          /\ IF e.f = "saved" THEN C("savedContent", e.c = Sorted(x.s), <<e, x.s>>) ELSE TRUE
          /\ IF e.f = "subset" THEN C("subsetContent", e.c = Sorted({y - e.i : y \in x.s \cap Rng(e.i, e.e)}), <<e, x.s>>) ELSE TRUE
          /\ obj' = IF e.mut THEN [obj EXCEPT ![e.o].s = S2] ELSE obj
          /\ it' = IF e.mut THEN [j \in {y \in DOMAIN it : it[y].o # e.o} |-> it[j]] ELSE it
          /\ UNCHANGED <<pq, sq>>
It(e) == it' = Put(it, e.it, [o |-> e.o, s |-> obj[e.o].s, p |-> -1]) /\ UNCHANGED <<obj, pq, sq>>
StepIt(e) ==
  LET x == it[e.it] r == After(x.s, x.p, e.t) IN
  /\ C("iteration", e.r = r /\ e.same, <<e, x, r>>)
  /\ it' = IF r = -1 THEN Del(it, e.it) ELSE [it EXCEPT ![e.it].p = r]
  /\ UNCHANGED <<obj, pq, sq>>

Ret(e) == IF e.r = 0 THEN {} ELSE {[key |-> e.rk, id |-> e.r]}
Pq(e) ==
  LET Q == pq.q
      x == [key |-> e.key, id |-> e.id]
      Q2 == CASE e.f = "add" -> Q \cup {x}
              [] e.f = "over" -> (Q \cup {x}) \ Ret(e)
              [] e.f = "pop" -> Q \ Ret(e)
              [] e.f = "update" -> {y \in Q : y.id # e.id} \cup {x}
              [] e.f = "clear" -> {}
              [] OTHER -> Q
      full == e.f = "add" /\ Cardinality(Q) >= pq.max
      top(q) == IF q = {} THEN Ret(e) = {} ELSE \E y \in q : Ret(e) = {y} /\ Least(q, y)
  IN IF full THEN C("full", e.ex = "IndexOutOfBounds", e) /\ pq' = NoPq
     ELSE /\ C("outcome", e.ex = "", e)
          /\ CASE e.f \in {"add", "update"} -> C("top", top(Q2), <<e, Q2>>)
               [] e.f = "over" -> C("overflow", OverflowOk(Q, x, pq.max, Ret(e), Q2), <<e, Q>>)
               [] e.f \in {"pop", "top"} -> C("least", top(Q), <<e, Q>>)
               [] OTHER -> TRUE
          /\ C("size", e.n = Cardinality(Q2), <<e, Q2>>)
          /\ pq' = [pq EXCEPT !.q = Q2]

\* scorers in a queue: [id, v (documents left, first is current)]
Cur(x) == Head(x.v)
SqLeast(Q) == {x \in Q : \A y \in Q : Cur(x) <= Cur(y)}
DropTo(v, t) == SelectSeq(v, LAMBDA d : d >= t)
Sq(e) ==
  LET Q == sq.q
      top == IF sq.top = 0 THEN [id |-> 0, v |-> <<>>] ELSE CHOOSE x \in Q : x.id = sq.top
      x == [id |-> e.id, v |-> e.v]
      moved == [id |-> top.id, v |-> IF e.f = "next" THEN Tail(top.v) ELSE DropTo(top.v, e.t)]
      rest == Q \ {top}
      Q2 == CASE e.f = "put" -> Q \cup {x}
              [] e.f = "insert" -> IF Cardinality(Q) < sq.max THEN Q \cup {x}
                                   ELSE IF e.r = 1 THEN rest \cup {x} ELSE Q
              [] e.f \in {"next", "skip"} -> IF moved.v = <<>> THEN rest ELSE rest \cup {moved}
              [] e.f = "pop" -> rest
              [] e.f = "clear" -> {}
              [] OTHER -> Q
  IN /\ C("insertBetter", e.f # "insert" \/ Cardinality(Q) < sq.max \/ (IF e.r = 1 THEN Cur(x) >= Cur(top) ELSE Cur(x) <= Cur(top)), <<e, Q>>)
     /\ C("insertRoom", e.f # "insert" \/ Cardinality(Q) >= sq.max \/ e.r = 1, e)
     /\ C("moved", e.f \notin {"next", "skip"} \/ e.r = B2I(moved.v # <<>>), <<e, Q>>)
     /\ C("size", e.n = Cardinality(Q2), <<e, Q2>>)
     /\ C("top", IF Q2 = {} THEN e.td = -1 ELSE \E y \in SqLeast(Q2) : y.id = e.ts /\ Cur(y) = e.td, <<e, Q2>>)
     /\ sq' = [sq EXCEPT !.q = Q2, !.top = e.ts]

Step(e) ==
  CASE e.op = "Reset" -> obj' = Empty /\ it' = Empty /\ pq' = NoPq /\ sq' = NoSq
    [] e.op = "New" -> New(e)
    [] e.op = "Drop" -> obj' = Del(obj, e.o) /\ it' = [j \in {y \in DOMAIN it : it[y].o # e.o} |-> it[j]] /\ UNCHANGED <<pq, sq>>
    [] e.op = "Op" -> Op(e)
    [] e.op = "It" -> It(e)
    [] e.op = "Step" -> StepIt(e)
    [] e.op = "PNew" -> pq' = [max |-> e.n, q |-> {}] /\ UNCHANGED <<obj, it, sq>>
    [] e.op = "PQ" -> Pq(e) /\ UNCHANGED <<obj, it, sq>>
    [] e.op = "SNew" -> sq' = [max |-> e.n, q |-> {}, top |-> 0] /\ UNCHANGED <<obj, it, pq>>
    [] e.op = "SQ" -> Sq(e) /\ UNCHANGED <<obj, it, pq>>
    [] OTHER -> C("unexpectedEvent", FALSE, e) /\ UNCHANGED <<obj, it, pq, sq>>
Init == l = 1 /\ obj = Empty /\ it = Empty /\ pq = NoPq /\ sq = NoSq
Next == l <= TraceLen /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================

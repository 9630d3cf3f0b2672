---------------------------- MODULE TraceSearch ----------------------------
(* Recorded searches of the real code against the meaning of the queries.     *)
EXTENDS Search, TraceLib
VARIABLES l, pool, docs, df, q, sc, spq
vars == <<l, pool, docs, df, q, sc, spq>>
C(name, c, info) == Chk(l, name, c, <<Trace[l].op, info>>)
Cx == [pool |-> pool, df |-> df]
Corpus == <<pool, docs, df>>
Eval(x) == [i \in DOMAIN docs |-> IF docs[i].live THEN S(Cx, x, docs[i], 1) ELSE NoMatch]
Accepts(flt) == IF flt.k = "none" THEN {i \in DOMAIN docs : TRUE} ELSE {i \in DOMAIN docs : docs[i].live /\ S(Cx, flt, docs[i], 1) # NoMatch}
\* the hits <<number, score>> of the current query under a filter, by number
Hits(flt) == LET a == TLCEval(Accepts(flt)) m == {i \in DOMAIN docs : sc[i] # NoMatch /\ i \in a}
                 s == SetToSortSeq(m, LAMBDA x, y : x < y) IN [k \in DOMAIN s |-> <<s[k] - 1, sc[s[k]]>>]
EmptyDoc(u) == [u |-> u, f |-> <<<<>>, <<>>, <<>>>>, n |-> <<1, 1, 1>>, live |-> TRUE, i |-> 0, s |-> -1, d |-> 0, hn |-> FALSE, num |-> <<0, 0, 0>>]
Doc(e) == [u |-> e.u, f |-> e.f, n |-> e.n, live |-> TRUE, i |-> e.i, s |-> e.s, d |-> e.d, hn |-> e.hn, num |-> e.num]
Build == df' = TLCEval([f \in 1..3 |-> [t \in 1..Len(pool) |-> Cardinality({i \in DOMAIN docs : \E k \in DOMAIN docs[i].f[f] : docs[i].f[f][k][1] = t - 1})]])

HitsEv(e) ==
  LET want == TLCEval(Hits(e.flt)) IN
  IF e.ooo THEN C("hits", ToSet(e.h) = ToSet(want) /\ Len(e.h) = Len(want), <<e.v, e.how, e.h, want, q>>)
  ELSE C("hitsInOrder", e.h = want, <<e.v, e.how, e.h, want, q>>)
\* the first of the entries lo..hi (by document) at or after a document; hi + 1 when there is none
RECURSIVE FirstAt(_, _, _, _)
FirstAt(s, from, lo, hi) == IF lo > hi THEN lo ELSE LET m == (lo + hi) \div 2 IN IF s[m][1] >= from THEN FirstAt(s, from, lo, m - 1) ELSE FirstAt(s, from, m + 1, hi)
\* a scorer walked by steps <<target or -1, document or -1, score, docID agrees>>
Walk(e) ==
  LET all == TLCEval(SelectSeq(Hits([k |-> "none"]), LAMBDA h : h[1] >= e.base /\ h[1] < e.base + e.n))
      at(i) == IF i = 1 THEN e.base - 1 ELSE e.st[i - 1][2]
      want(i) == LET from == IF e.st[i][1] = -1 THEN at(i) + 1 ELSE e.base + e.st[i][1]
                     k == FirstAt(all, from, 1, Len(all))
                 IN IF k > Len(all) THEN <<-1, 0>> ELSE all[k]
  IN IF e.null THEN C("noScorer", all = <<>>, <<e.v, e.base, all, q>>)
     ELSE \A i \in DOMAIN e.st : C("walk", <<e.st[i][2], e.st[i][3]>> = want(i) /\ e.st[i][4] = 1, <<e.v, e.base, i, e.st, want(i), q>>)
Explain(e) ==
  LET s == sc[e.d + 1] IN
  IF s = 0 THEN TRUE
  ELSE C("explain", e.m = (s # NoMatch) /\ (s # NoMatch => e.val = s), <<e.v, e.d, e.m, e.val, s, q>>)
\* page is what stands at lo + 1, lo + 2, ... when all hits are put in the order better
Ranked(all, page, lo, better(_, _)) ==
  /\ \A i \in DOMAIN page : page[i] \in all
  /\ \A i \in 1..Len(page) - 1 : better(page[i], page[i + 1])
  /\ page # <<>> => /\ Cardinality({x \in all : better(x, page[1])}) = lo
                     /\ Cardinality({x \in all : better(page[Len(page)], x)}) = Cardinality(all) - lo - Len(page)
Top(e) ==
  LET h == TLCEval(Hits(e.flt))
      n == MinI(e.n, Len(h))
      long == MaxI(0, MinI(n, e.start + e.many) - e.start)
  IN /\ C("total", e.total = Len(h) \/ (long = 0 /\ e.how # "search" /\ e.total = 0), <<e.v, e.how, e.total, Len(h), q>>)
     /\ C("top", Len(e.h) = long /\ Ranked(ToSet(h), e.h, e.start, ByScore), <<e.v, e.how, e.n, e.start, e.many, e.h, h, q>>)
     /\ C("maxScore", (long = 0 \/ e.max = FoldLeft(LAMBDA a, x : MaxI(a, x[2]), 0, h)), <<e.v, e.how, e.max, q>>)
Sorted(e) ==
  LET h == TLCEval(Hits(e.flt))
      n == MinI(e.n, Len(h))
      page == TLCEval([i \in DOMAIN e.h |-> <<e.h[i][1], sc[e.h[i][1] + 1]>>])
  IN /\ C("sortedTotal", e.total = Len(h), <<e.v, e.how, e.total, Len(h), q>>)
     /\ C("sorted", Len(e.h) = n /\ Ranked(ToSet(h), page, 0, LAMBDA a, b : SortLess(e.by, docs, a, b, 1)), <<e.v, e.how, e.by, e.h, h, q>>)
     /\ C("sortValues", \A i \in 1..n : IF e.fill THEN e.fv[i] = [k \in DOMAIN e.by |-> SortVal(e.by[k].t, page[i], docs[page[i][1] + 1])] ELSE e.fv[i] = <<>>, <<e.v, e.how, e.by, e.h, e.fv, q>>)
     /\ C("sortScores", \A i \in 1..n : IF e.track THEN e.h[i][2] = page[i][2] ELSE e.h[i][2] \in {-7777, page[i][2]}, <<e.v, e.how, e.by, e.h, page, q>>)
     /\ C("sortMax", ~e.mx \/ h = <<>> \/ e.max = FoldLeft(LAMBDA a, x : MaxI(a, x[2]), 0, h), <<e.v, e.how, e.max, q>>)
Values(e) ==
  LET val(d) == CASE e.kind = "i" -> d.i [] e.kind = "neg" -> -d.i [] e.kind = "d" -> d.d [] e.kind = "s" -> d.s
                  [] OTHER -> IF d.hn THEN d.num ELSE <<0, 0, 0>>
  IN C("cached", \A i \in DOMAIN e.x : docs[e.base + i].live => e.x[i] = val(docs[e.base + i]), <<e.v, e.base, e.kind, e.x>>)
\* how like the sought text a term is: <<shared length - distance, shared length>>
Like(y, t) == LET n == MinI(Len(y.p), Len(t)) IN IF t = y.p THEN <<1, 1>> ELSE <<n - Dist(y.p, t), n>>
\* a multi-term query rewritten over a reader that holds the terms ts, with at most lim clauses
Clauses(e) ==
  LET hit == TLCEval({t \in ToSet(e.ts) : Covers(e.q, pool[t + 1])})
      n == Cardinality(hit)
      got == ToSet(e.cl)
      like == TLCEval([t \in hit |-> Like(e.q, pool[t + 1])])
      under(a, b) == a[1] * b[2] < b[1] * a[2]
  IN IF e.kind \in {"score", "const"} THEN
          /\ C("tooMany", e.out = IF n > e.lim THEN "toomany" ELSE "ok", <<e.v, e.kind, e.q, e.out, e.lim, hit>>)
          /\ C("clauses", e.out # "ok" \/ e.kind # "score" \/ (got = hit /\ Len(e.cl) = n), <<e.v, e.q, e.cl, hit>>)
     ELSE IF e.kind = "top" THEN
          /\ C("bestOut", e.out = "ok", <<e.v, e.q, e.out>>)
          /\ C("bestCount", (e.exact /\ \A t \in hit : pool[t + 1] = e.q.p) \/ (got \subseteq hit /\ Len(e.cl) = MinI(n, e.lim) /\ Cardinality(got) = Len(e.cl)), <<e.v, e.q, e.cl, e.lim, hit>>)
          /\ C("bestTerms", e.exact \/ \A t \in hit \ got : \A u \in got : ~under(like[u], like[t]), <<e.v, e.q, e.cl, e.lim, like>>)
     ELSE C("neverTooMany", e.out = "ok", <<e.v, e.kind, e.q, e.out>>)
\* a filter alone on a reader that was kept open: the documents it has, without those deleted when it was opened
OldEv(e) ==
  LET m == {i \in 1..e.n : ~((i - 1) \in ToSet(e.dead)) /\ S(Cx, e.flt, docs[i], 1) # NoMatch}
      got == {e.h[k][1] + 1 : k \in DOMAIN e.h}
      \* cached field values: only of documents no reader of the segment has seen deleted (see the known findings)
      those(x) == IF e.fc THEN {i \in x : docs[i].live} ELSE x
  IN C("older", those(got) = those(m) /\ \A k \in 1..Len(e.h) - 1 : e.h[k][1] < e.h[k + 1][1], <<e.n, e.dead, e.flt, e.h, m>>)
\* a view's size, the documents in it, and how many documents have a term (deleted ones still count)
StatsEv(e) ==
  LET live == {i \in DOMAIN docs : docs[i].live} IN
  /\ C("viewSize", e.max = Len(docs) /\ e.num \in {-1, Cardinality(live)}, <<e.v, e.max, e.num, Len(docs), Cardinality(live)>>)
  /\ C("viewDocs", \A k \in DOMAIN e.us : docs[e.us[k][1] + 1].u = e.us[k][2], <<e.v, e.us>>)
  /\ C("viewFreqs", \A k \in DOMAIN e.fs : df[e.fs[k][1]][e.fs[k][2] + 1] = e.fs[k][3], <<e.v, e.fs, df>>)
EqualEv(e) == C("equalMeaning", e.hash /\ Eval(e.a) = Eval(e.b), <<e.a, e.b, e.hash>>)
SpansEv(e) ==
  LET all == TLCEval(FoldLeft(LAMBDA a, i : IF docs[i].live /\ i > e.base /\ i <= e.base + e.n
                        THEN LET s == TLCEval(Spans(spq, docs[i])) IN a \o [k \in DOMAIN s |-> <<i - 1, s[k][1], s[k][2]>>] ELSE a,
                      <<>>, [i \in DOMAIN docs |-> i]))
      \* each step goes to the next span, or to the first of a later document
      idx == TLCEval(FoldLeft(LAMBDA a, st : Append(a, IF st[1] = -1 THEN a[Len(a)] + 1
                        ELSE MaxI(a[Len(a)] + 1, FirstAt(all, e.base + st[1], 1, Len(all)))), <<0>>, e.st))
      got == [i \in DOMAIN e.st |-> <<e.st[i][2], e.st[i][3], e.st[i][4]>>]
      want == [i \in DOMAIN e.st |-> IF idx[i + 1] > Len(all) THEN <<-1, 0, 0>> ELSE all[idx[i + 1]]]
  IN C("spans", got = want, <<e.v, e.base, e.st, got, want, spq>>)

Step(e) ==
  CASE e.op = "Reset" -> pool' = e.pool /\ docs' = <<>> /\ df' = <<>> /\ q' = <<>> /\ sc' = <<>> /\ spq' = <<>>
    [] e.op = "Doc" -> docs' = Append(docs, Doc(e)) /\ UNCHANGED <<pool, df, q, sc, spq>>
    [] e.op = "Fill" -> docs' = docs \o [i \in 1..e.n |-> EmptyDoc(Len(docs) + i - 1)] /\ UNCHANGED <<pool, df, q, sc, spq>>
    [] e.op = "Build" -> Build /\ UNCHANGED <<pool, docs, q, sc, spq>>
    [] e.op = "Del" -> docs' = [docs EXCEPT ![e.u + 1].live = FALSE] /\ UNCHANGED <<pool, df, q, sc, spq>>
    [] e.op = "Query" -> q' = e.q /\ sc' = TLCEval(Eval(e.q)) /\ UNCHANGED <<pool, docs, df, spq>>
    [] e.op = "SQuery" -> spq' = e.q /\ UNCHANGED <<pool, docs, df, q, sc>>
    [] OTHER -> /\ CASE e.op = "Hits" -> HitsEv(e)
                     [] e.op = "Walk" -> Walk(e)
                     [] e.op = "Explain" -> Explain(e)
                     [] e.op = "Top" -> Top(e)
                     [] e.op = "Sorted" -> Sorted(e)
                     [] e.op = "Spans" -> SpansEv(e)
                     [] e.op = "Values" -> Values(e)
                     [] e.op = "Clauses" -> Clauses(e)
                     [] e.op = "Finding" -> TRUE
                     [] e.op = "Old" -> OldEv(e)
                     [] e.op = "Equal" -> EqualEv(e)
                     [] e.op = "Stats" -> StatsEv(e)
                     [] e.op = "Same" -> C("cloneEquals", e.eq, q)
                     [] OTHER -> C("unexpectedEvent", FALSE, e)
                /\ UNCHANGED <<pool, docs, df, q, sc, spq>>
Init == l = 1 /\ pool = <<>> /\ docs = <<>> /\ df = <<>> /\ q = <<>> /\ sc = <<>> /\ spq = <<>>
Next == l <= TraceLen /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================

------------------------------- MODULE Search -------------------------------
(* What queries, filters and spans mean: which documents of a corpus match,   *)
(* with which (integer) score, where spans lie, and how hits are ranked.      *)
(* A document is a record: f, the occurrences <<term, position>> per field;   *)
(* n, the norm per field; live; u; and values to sort by.                     *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

\* similarity
Tf(n) == 2 * n - 1
Sloppy(d) == IF d >= 8 THEN 1 ELSE 8 - d
Coord(o, m) == 2 * m - o
NoMatch == -1

\* texts are sequences of code points
RECURSIVE TextLess(_, _, _)
TextLess(a, b, i) == IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE TextLess(a, b, i + 1)
Less(a, b) == TextLess(a, b, 1)
RECURSIVE Wild(_, _, _, _)
Wild(p, i, t, j) ==
  IF i > Len(p) THEN j > Len(t)
  ELSE IF p[i] = 42 THEN Wild(p, i + 1, t, j) \/ (j <= Len(t) /\ Wild(p, i, t, j + 1))
  ELSE j <= Len(t) /\ (p[i] = 63 \/ p[i] = t[j]) /\ Wild(p, i + 1, t, j + 1)
Min3(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c
\* edit distance, row by row
Dist(a, b) ==
  LET row0 == [j \in 1..Len(b) + 1 |-> j - 1]
      next(r, i) == FoldLeft(LAMBDA acc, j : Append(acc, Min3(acc[j] + 1, r[j + 1] + 1, r[j] + (IF a[i] = b[j] THEN 0 ELSE 1))), <<i>>, [j \in 1..Len(b) |-> j])
      last == FoldLeft(LAMBDA r, i : TLCEval(next(r, i)), row0, [i \in 1..Len(a) |-> i])
  IN last[Len(b) + 1]
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
\* does the definition q cover the text t
Covers(q, t) ==
  CASE q.k = "prefix" -> IsPrefix(q.p, t)
    [] q.k = "wild" -> Wild(q.p, 1, t, 1)
    [] q.k = "range" -> /\ (q.hl => (IF q.il THEN ~Less(t, q.lo) ELSE Less(q.lo, t)))
                        /\ (q.hu => (IF q.iu THEN ~Less(q.up, t) ELSE Less(t, q.up)))
    [] q.k = "fuzzy" ->
         \* similarity (1 - distance / shorter length) above ms / 4; the first pl letters must agree
         LET n == MinI(Len(q.p), Len(t)) IN
         /\ Len(t) >= q.pl /\ SubSeq(t, 1, q.pl) = SubSeq(q.p, 1, q.pl)
         /\ (t = q.p \/ (n > 0 /\ 4 * (n - Dist(q.p, t)) > q.ms * n))
Tri(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[3] < b[3])))

Pos(d, f, t) == LET s == SelectSeq(d.f[f], LAMBDA x : x[1] = t) IN [i \in DOMAIN s |-> s[i][2]]
SortNat(q) == SetToSortSeq(ToSet(q), LAMBDA a, b : a < b)

\* ---- phrases: slots are position lists with an offset each
ExactFreq(ps, os) ==      \* how often all slots line up; positions of a slot are distinct
  Cardinality({p \in {ps[1][i] - os[1] : i \in DOMAIN ps[1]} : \A k \in DOMAIN ps : \E i \in DOMAIN ps[k] : ps[k][i] - os[k] = p})
\* sloppy: the windows met when always the slot that is furthest behind moves on
RECURSIVE SloppyRun(_, _, _)
SloppyRun(qs, at, slop) ==      \* qs: shifted positions per slot, at: cursor per slot
  LET cur(k) == qs[k][at[k]]
      K == DOMAIN qs
      end == Max({cur(k) : k \in K})
      lo == Min({cur(k) : k \in K})
      first == CHOOSE k \in K : cur(k) = lo
      nxt == Min({cur(k) : k \in K \ {first}})
      \* the slot behind moves up to the next one's position as long as it can
      run == {i \in at[first]..Len(qs[first]) : qs[first][i] <= nxt}
      lastIn == Max(run)
      f == IF end - qs[first][lastIn] <= slop THEN Sloppy(end - qs[first][lastIn]) ELSE 0
  IN IF lastIn = Len(qs[first]) THEN f ELSE f + SloppyRun(qs, [at EXCEPT ![first] = lastIn + 1], slop)
PhraseFreq(ps, os, slop) ==
  IF \E k \in DOMAIN ps : ps[k] = <<>> THEN 0
  ELSE IF slop = 0 \/ Len(ps) = 1 THEN ExactFreq(ps, os)
  ELSE SloppyRun(TLCEval([k \in DOMAIN ps |-> [i \in DOMAIN ps[k] |-> ps[k][i] - os[k]]]), [k \in DOMAIN ps |-> 1], slop)

\* ---- spans <<start, end>> of a document in their order
SLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
RECURSIVE MergeSpans(_)
MergeSpans(qs) ==
  LET ne == {k \in DOMAIN qs : qs[k] # <<>>} IN
  IF ne = {} THEN <<>>
  ELSE LET k == CHOOSE k \in ne : \A j \in ne : ~SLess(qs[j][1], qs[k][1])
       IN <<qs[k][1]>> \o MergeSpans([qs EXCEPT ![k] = Tail(@)])
RECURSIVE UnorderedRun(_, _, _)
UnorderedRun(qs, at, slop) ==
  LET K == DOMAIN qs
      cur(k) == qs[k][at[k]]
      min == CHOOSE k \in K : \A j \in K : ~SLess(cur(j), cur(k))
      end == Max({cur(k)[2] : k \in K})
      total == FoldSet(LAMBDA k, a : a + cur(k)[2] - cur(k)[1], 0, K)
      hit == end - cur(min)[1] - total <= slop
      m == IF hit THEN <<<<cur(min)[1], end>>>> ELSE <<>>
  IN IF at[min] = Len(qs[min]) THEN m ELSE m \o UnorderedRun(qs, [at EXCEPT ![min] = @ + 1], slop)
\* ordered: every clause moves until it starts after the one before, then the earlier ones as far as they can
RECURSIVE Stretch(_, _, _)
Stretch(qs, at, i) ==        \* at[1] = 0 when a clause runs out
  IF i > Len(qs) THEN at
  ELSE LET js == {j \in at[i]..Len(qs[i]) : SLess(qs[i - 1][at[i - 1]], qs[i][j])}
       IN IF js = {} THEN [at EXCEPT ![1] = 0] ELSE Stretch(qs, [at EXCEPT ![i] = Min(js)], i + 1)
RECURSIVE Shrink(_, _, _, _)
\* from the last clause back: st = <<start of the match, slop, cursors, a clause ran out, span of the clause after>>
Shrink(qs, st, i, dummy) ==
  IF i = 0 THEN st
  ELSE LET at == st.at[i]
           \* the furthest consecutive span still before the one after it
           RECURSIVE Far(_)
           Far(j) == IF j + 1 <= Len(qs[i]) /\ SLess(qs[i][j + 1], st.last) THEN Far(j + 1) ELSE j
           b == Far(at)
           s == qs[i][b]
       IN Shrink(qs, [start |-> s[1], slop |-> st.slop + (IF st.start > s[2] THEN st.start - s[2] ELSE 0),
                      at |-> [st.at EXCEPT ![i] = b + 1], out |-> st.out \/ b = Len(qs[i]), last |-> s, end |-> st.end], i - 1, dummy)
RECURSIVE OrderedRun(_, _, _)
OrderedRun(qs, at, slop) ==
  LET a == Stretch(qs, at, 2) IN
  IF a[1] = 0 THEN <<>>
  ELSE LET n == Len(qs)
           l == qs[n][a[n]]
           r == Shrink(qs, [start |-> l[1], slop |-> 0, at |-> a, out |-> FALSE, last |-> l, end |-> l[2]], n - 1, 0)
           m == IF r.slop <= slop THEN <<<<r.start, r.end>>>> ELSE <<>>
       IN IF r.out THEN m ELSE m \o OrderedRun(qs, r.at, slop)
RECURSIVE Spans(_, _)
Spans(q, d) ==
  CASE q.k = "sterm" -> LET p == Pos(d, q.f, q.t) IN [i \in DOMAIN p |-> <<p[i], p[i] + 1>>]
    [] q.k = "sor" -> MergeSpans([i \in DOMAIN q.c |-> Spans(q.c[i], d)])
    [] q.k = "sfirst" -> SelectSeq(Spans(q.q, d), LAMBDA s : s[2] <= q.e)
    [] q.k = "snot" -> LET x == TLCEval(Spans(q.x, d)) IN
                       SelectSeq(Spans(q.q, d), LAMBDA s : \A i \in DOMAIN x : x[i][2] <= s[1] \/ s[2] <= x[i][1])
    [] q.k = "snear" ->
         LET qs == TLCEval([i \in DOMAIN q.c |-> Spans(q.c[i], d)]) IN
         IF Len(qs) = 1 THEN qs[1]
         ELSE IF \E i \in DOMAIN qs : qs[i] = <<>> THEN <<>>
         ELSE IF q.ord THEN OrderedRun(qs, [i \in DOMAIN qs |-> 1], q.slop)
         ELSE UnorderedRun(qs, [i \in DOMAIN qs |-> 1], q.slop)
RECURSIVE SpanTerms(_)
SpanTerms(q) ==
  CASE q.k = "sterm" -> {q.t}
    [] q.k \in {"sor", "snear"} -> UNION {SpanTerms(q.c[i]) : i \in DOMAIN q.c}
    [] OTHER -> SpanTerms(q.q)
IsSpan(q) == q.k \in {"sterm", "sor", "sfirst", "snot", "snear"}
SumTo(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

\* ---- queries.  cx: pool (texts by term), df (per field, per term)
Idf(cx, f, t) == 1 + (cx.df[f][t + 1] % 2)
Terms(cx, q) == {t \in 0..Len(cx.pool) - 1 : Covers(q, cx.pool[t + 1])}
RECURSIVE S(_, _, _, _)
\* the score of document d for query q under an outer boost nb; NoMatch
S(cx, q, d, nb) ==
  CASE q.k = "term" -> LET n == Len(Pos(d, q.f, q.t)) i == Idf(cx, q.f, q.t) IN
                       IF n = 0 THEN NoMatch ELSE Tf(n) * i * i * q.b * nb * d.n[q.f]
    [] q.k = "all" -> q.b * nb * (IF q.f = 0 THEN 1 ELSE d.n[q.f])
    [] q.k = "bool" ->
         LET s == TLCEval([i \in DOMAIN q.c |-> S(cx, q.c[i].q, d, nb * q.b)])
             I(o) == {i \in DOMAIN q.c : q.c[i].o = o}
             hit == {i \in I("+") \cup I("?") : s[i] # NoMatch}
             opt == Cardinality({i \in I("?") : s[i] # NoMatch})
             least == MaxI(q.min, IF I("+") = {} THEN 1 ELSE 0)
             total == FoldSet(LAMBDA i, a : a + s[i], 0, hit)
         IN IF (\A i \in I("+") : s[i] # NoMatch) /\ (\A i \in I("-") : s[i] = NoMatch) /\ opt >= least
            THEN total * (IF q.dc THEN 1 ELSE Coord(Cardinality(hit), Cardinality(I("+") \cup I("?")))) ELSE NoMatch
    [] q.k = "dismax" ->
         LET s == TLCEval([i \in DOMAIN q.c |-> S(cx, q.c[i], d, nb * q.b)])
             hit == {i \in DOMAIN s : s[i] # NoMatch}
             m == Max({s[i] : i \in hit})
         IN IF hit = {} THEN NoMatch ELSE m + q.tie * (FoldSet(LAMBDA i, a : a + s[i], 0, hit) - m)
    [] q.k = "const" -> IF S(cx, q.flt, d, 1) # NoMatch THEN q.b * nb ELSE NoMatch
    [] q.k = "filtered" -> LET s == S(cx, q.q, d, nb) IN IF s # NoMatch /\ S(cx, q.flt, d, 1) # NoMatch THEN q.b * s ELSE NoMatch
    \* one slot of alternatives is a disjunction of them
    [] q.k = "mphrase" /\ Len(q.t) = 1 ->
         LET sc(t) == LET n == Len(Pos(d, q.f, t)) i == Idf(cx, q.f, t) IN IF n = 0 THEN 0 ELSE Tf(n) * i * i * q.b * nb * d.n[q.f]
             n == SumTo([k \in DOMAIN q.t[1] |-> sc(q.t[1][k])])
         IN IF n = 0 THEN NoMatch ELSE n
    [] q.k \in {"phrase", "mphrase"} ->
         LET alts(i) == IF q.k = "phrase" THEN <<q.t[i]>> ELSE q.t[i]
             ps == TLCEval([i \in DOMAIN q.t |-> SortNat(FoldLeft(LAMBDA a, t : a \o Pos(d, q.f, t), <<>>, alts(i)))])
             idf == SumTo([i \in DOMAIN q.t |-> SumTo([k \in DOMAIN alts(i) |-> Idf(cx, q.f, alts(i)[k])])])
             n == IF q.t = <<>> THEN 0 ELSE PhraseFreq(ps, q.o, q.slop)
         IN IF n = 0 THEN NoMatch ELSE Tf(n) * idf * idf * q.b * nb * d.n[q.f]
    [] IsSpan(q) ->
         LET sp == TLCEval(Spans(q, d))
             n == SumTo([i \in DOMAIN sp |-> Sloppy(sp[i][2] - sp[i][1])])
             idf == FoldSet(LAMBDA t, a : a + Idf(cx, q.f, t), 0, SpanTerms(q))
         IN IF sp = <<>> THEN NoMatch ELSE Tf(n) * idf * idf * q.b * nb * d.n[q.f]
    [] q.k \in {"prefix", "wild", "range", "fuzzy"} ->
         LET ts == {t \in {d.f[q.f][i][1] : i \in DOMAIN d.f[q.f]} : Covers(q, cx.pool[t + 1])}
             sc(t) == LET i == Idf(cx, q.f, t) IN Tf(Len(Pos(d, q.f, t))) * i * i * q.b * nb * d.n[q.f]
         IN IF ts = {} THEN NoMatch ELSE IF q.scoring THEN FoldSet(LAMBDA t, a : a + sc(t), 0, ts) ELSE q.b * nb
    [] q.k = "num" -> IF /\ d.hn
                         /\ (q.hl => (IF q.il THEN ~Tri(d.num, q.lo) ELSE Tri(q.lo, d.num)))
                         /\ (q.hu => (IF q.iu THEN ~Tri(q.up, d.num) ELSE Tri(d.num, q.up)))
                      THEN q.b * nb ELSE NoMatch
    \* filters of their own
    [] q.k = "none" -> 1
    [] q.k = "uids" -> IF d.u \in ToSet(q.u) THEN 1 ELSE NoMatch
    [] q.k = "irange" -> IF (IF q.il THEN d.i >= q.lo ELSE d.i > q.lo) /\ (IF q.iu THEN d.i <= q.up ELSE d.i < q.up) THEN 1 ELSE NoMatch
    [] q.k = "srange" -> IF d.s >= 0 /\ (IF q.il THEN d.s >= q.lo ELSE d.s > q.lo) /\ (IF q.iu THEN d.s <= q.up ELSE d.s < q.up) THEN 1 ELSE NoMatch
    [] q.k = "sterms" -> IF d.s \in ToSet(q.t) THEN 1 ELSE NoMatch

\* ---- ranking.  hits: sequence of <<document number, score>>
ByScore(a, b) == a[2] > b[2] \/ (a[2] = b[2] /\ a[1] < b[1])
SortVal(t, x, d) == CASE t = "score" -> x[2] [] t = "doc" -> x[1] [] t = "i" -> d.i [] t = "s" -> d.s [] t = "d" -> d.d
RECURSIVE SortLess(_, _, _, _, _)
SortLess(by, docs, a, b, k) ==
  IF k > Len(by) THEN a[1] < b[1]
  ELSE LET va == SortVal(by[k].t, a, docs[a[1] + 1]) vb == SortVal(by[k].t, b, docs[b[1] + 1])
           lt == IF by[k].t = "score" THEN va > vb ELSE va < vb
       IN IF va = vb THEN SortLess(by, docs, a, b, k + 1) ELSE IF by[k].r THEN ~lt ELSE lt
=============================================================================

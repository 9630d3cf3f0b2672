----------------------------- MODULE TraceInv -----------------------------
(* What a reader says about documents, against the inversion of what was      *)
(* added.                                                                     *)
EXTENDS Inversion, TraceLib
VARIABLES l, cfg, inv, idx, idx2, rd, dict, cur
vars == <<l, cfg, inv, idx, idx2, rd, dict, cur>>
C(name, c, info) == Chk(l, name, c, <<Trace[l].op, info>>)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
Live(q) == SelectSeq(q, LAMBDA x : ~x.d)
D(i) == inv[rd[i + 1].u]          \* document number i of the reader
UnRead == UNCHANGED <<cfg, inv, idx, idx2, rd, dict>>
Same == UnRead /\ UNCHANGED cur

Add(e) ==
  LET r == TLCEval(Invert(e.fs, e.b, cfg))
      F == {f \in DOMAIN r.f : ~cfg[f].on}
      calls == {<<f, r.f[f].len, r.f[f].ov, r.f[f].pos, r.f[f].off, r.f[f].boost>> : f \in F}
  IN /\ C("normState", ToSet(e.ns) = calls /\ Len(e.ns) = Cardinality(F), <<e.ns, calls>>)
     /\ inv' = Put(inv, e.u, r)
     /\ idx' = IF e.ix = 1 THEN Append(idx, [u |-> e.u, d |-> FALSE]) ELSE idx
     /\ idx2' = IF e.ix = 2 THEN Append(idx2, [u |-> e.u, d |-> FALSE]) ELSE idx2
     /\ UNCHANGED <<cfg, rd, dict, cur>>
Delete(e) == /\ idx' = [i \in DOMAIN idx |-> IF IKey(e.f, e.t) \in inv[idx[i].u].keys THEN [idx[i] EXCEPT !.d = TRUE] ELSE idx[i]]
             /\ UNCHANGED <<cfg, inv, idx2, rd, dict, cur>>
AddIdx(e) == /\ idx' = (IF e.readers THEN Live(idx) ELSE idx) \o idx2
             /\ idx2' = <<>>
             /\ UNCHANGED <<cfg, inv, rd, dict, cur>>
HasOpt(r, f, o) ==
  CASE o = "all" -> f \in r.all [] o = "indexed" -> f \in DOMAIN r.f [] o = "unindexed" -> f \in r.all \ DOMAIN r.f
    [] o = "tv" -> f \in DOMAIN r.f /\ r.f[f].tv
    [] o = "tvpos" -> f \in DOMAIN r.f /\ r.f[f].tvp /\ ~r.f[f].tvo
    [] OTHER -> f \in DOMAIN r.f /\ \E i \in DOMAIN r.f[f].toks : r.f[f].toks[i].y # <<>>
Open(e) ==
  LET K == UNION {inv[idx[i].u].keys : i \in DOMAIN idx}
      df(k) == Cardinality({i \in DOMAIN idx : k \in inv[idx[i].u].keys})
      del == {i - 1 : i \in {j \in DOMAIN idx : idx[j].d}}
      strict == e.opt \in {"all", "indexed", "tv", "payloads"}
      must == {f \in 1..6 : \E i \in DOMAIN idx : ~idx[i].d /\ HasOpt(inv[idx[i].u], f, e.opt)}
      may == {f \in 1..6 : \E u \in DOMAIN inv : HasOpt(inv[u], f, e.opt)}
  IN /\ C("documents", e.m = Len(idx) /\ e.n = Len(Live(idx)), <<e.m, e.n, Len(idx), Len(Live(idx))>>)
     /\ C("deleted", ToSet(e.del) = del /\ e.hd = (del # {}), <<e.del, del>>)
     /\ C("fieldNames", ~strict \/ (must \subseteq ToSet(e.names) /\ ToSet(e.names) \subseteq may), <<e.opt, e.names, must, may>>)
     /\ rd' = idx
     /\ dict' = LET ks == SetToSortSeq(K, LAMBDA a, b : a < b) IN [i \in DOMAIN ks |-> <<KeyF(ks[i]), KeyT(ks[i]), df(ks[i])>>]
     /\ cur' = Empty
     /\ UNCHANGED <<cfg, inv, idx, idx2>>
Terms(e) == C("terms", e.end /\ e.v = dict, <<Len(e.v), Len(dict), SelectInSeq([i \in 1..Len(e.v) |-> i > Len(dict) \/ e.v[i] # dict[i]], LAMBDA b : b)>>) /\ Same
\* a text between two terms is known by the term of the pool just before it
Seek(e) ==
  LET k == IKey(e.f, e.t)
      at == SelectSeq(dict, LAMBDA x : IF e.exact THEN IKey(x[1], x[2]) >= k ELSE IKey(x[1], x[2]) > k)
      want == SubSeq(at, 1, IF Len(at) < e.n THEN Len(at) ELSE e.n)
  IN C("seek", e.v = want, <<e, want>>) /\ Same
DF(e) == LET x == SelectSeq(dict, LAMBDA x : x[1] = e.f /\ x[2] = e.t) IN C("docFreq", e.v = (IF x = <<>> THEN 0 ELSE x[1][3]), <<e, x>>) /\ Same

\* cursors: the documents left, where the cursor stands, occurrences consumed
Postings(k) == SelectSeq([i \in 1..Len(rd) |-> i - 1], LAMBDA i : ~rd[i + 1].d /\ k \in D(i).keys)
AllLive == SelectSeq([i \in 1..Len(rd) |-> i - 1], LAMBDA i : ~rd[i + 1].d)
Freq(c, d) == IF c.all \/ cfg[c.f].tf THEN 1 ELSE Len(Occ(D(d).f[c.f], c.t))
TDNew(e) == cur' = Put(cur, e.c, [all |-> e.all, f |-> e.f, t |-> e.t, q |-> IF e.all THEN AllLive ELSE Postings(IKey(e.f, e.t)), at |-> 0, j |-> 0])
Moved(e, c, at) ==
  IF at > Len(c.q) THEN C("exhausted", ~e.r, <<e, c>>) /\ cur' = Del(cur, e.c)
  ELSE /\ C("moved", e.r /\ e.doc = c.q[at] /\ e.freq = Freq(c, c.q[at]), <<e, c.q[at], Freq(c, c.q[at]), c.at, c.f, c.t>>)
       /\ cur' = [cur EXCEPT ![e.c].at = at, ![e.c].j = 0]
SkipAt(c, t) == LET q == {i \in c.at + 1..Len(c.q) : c.q[i] >= t} IN IF q = {} THEN Len(c.q) + 1 ELSE CHOOSE i \in q : \A k \in q : i <= k
TDRead(e) ==
  LET c == cur[e.c] n == Len(e.docs) IN
  /\ C("bulk", n <= e.n /\ (n = 0) = (c.at = Len(c.q)) /\ c.at + n <= Len(c.q), <<e, c>>)
  /\ C("bulkRead", e.docs = SubSeq(c.q, c.at + 1, c.at + n) /\ e.freqs = [i \in 1..n |-> Freq(c, e.docs[i])], <<e, c>>)
  /\ cur' = IF n = 0 THEN Del(cur, e.c) ELSE [cur EXCEPT ![e.c].at = c.at + n, ![e.c].j = 0]
TDPos(e) ==
  LET c == cur[e.c]
      d == c.q[c.at]
      occ == TLCEval(Occ(D(d).f[c.f], c.t))
      ok(i) == LET g == e.v[i] o == occ[c.j + i] IN
               IF cfg[c.f].tf THEN g[1] = 0 /\ g[2] = <<>>
               ELSE g[1] = o.p /\ (IF o.y = <<>> THEN g[2] = <<>> ELSE g[2] = o.y \/ g[2] = <<-1, Len(o.y)>>)
  IN /\ C("positions", \A i \in 1..Len(e.v) : ok(i), <<e, d, c.j, occ>>)
     /\ cur' = [cur EXCEPT ![e.c].j = @ + Len(e.v)]

\* vectors
VecOk(v, d) ==
  LET r == D(d).f[v.f] ts == TermsOf(r) IN
  /\ v.t = ts
  /\ v.n = [i \in DOMAIN ts |-> Len(Occ(r, ts[i]))]
  /\ v.hp = r.tvp /\ v.ho = r.tvo
  /\ v.p = [i \in DOMAIN ts |-> IF r.tvp THEN [j \in DOMAIN Occ(r, ts[i]) |-> Occ(r, ts[i])[j].p] ELSE <<>>]
  /\ v.o = [i \in DOMAIN ts |-> IF r.tvo THEN [j \in DOMAIN Occ(r, ts[i]) |-> <<Occ(r, ts[i])[j].s, Occ(r, ts[i])[j].e>>] ELSE <<>>]
Vectored(d) == {f \in DOMAIN D(d).f : D(d).f[f].tv /\ D(d).f[f].toks # <<>>}
Index(ts, t) == LET q == {i \in DOMAIN ts : ts[i] = t} IN IF q = {} THEN -1 ELSE (CHOOSE i \in q : TRUE) - 1
MapOk(v, d, e) ==
  LET r == D(d).f[v.f] ts == TermsOf(r) IN
  /\ v.t = ts
  /\ v.n = [i \in DOMAIN ts |-> Len(Occ(r, ts[i]))]
  /\ v.hp = r.tvp /\ v.ho = r.tvo
  /\ v.p = [i \in DOMAIN ts |-> IF r.tvp /\ ~e.ip THEN [j \in DOMAIN Occ(r, ts[i]) |-> Occ(r, ts[i])[j].p] ELSE <<>>]
  /\ v.o = [i \in DOMAIN ts |-> IF r.tvo /\ ~e.io THEN [j \in DOMAIN Occ(r, ts[i]) |-> <<Occ(r, ts[i])[j].s, Occ(r, ts[i])[j].e>>] ELSE <<>>]
Vec(e) ==
  /\ CASE e.how = "all" -> C("vectors", Len(e.v) = Cardinality(Vectored(e.doc)) /\ {e.v[i].f : i \in DOMAIN e.v} = Vectored(e.doc)
                             /\ \A i \in DOMAIN e.v : VecOk(e.v[i], e.doc), <<e, Vectored(e.doc)>>)
       [] e.how = "one" -> C("vector", IF e.f \in Vectored(e.doc)
                             THEN /\ Len(e.v) = 1 /\ e.v[1].f = e.f /\ VecOk(e.v[1], e.doc)
                                  /\ \A i \in DOMAIN e.ix : e.ix[i][2] = Index(TermsOf(D(e.doc).f[e.f]), e.ix[i][1])
                             ELSE e.v = <<>>, <<e, D(e.doc).f>>)
       [] e.how = "map" -> C("mapped", LET F == IF e.f = 0 THEN Vectored(e.doc) ELSE Vectored(e.doc) \cap {e.f} IN
                             {e.v[i].f : i \in DOMAIN e.v} = F /\ Len(e.v) = Cardinality(F) /\ \A i \in DOMAIN e.v : MapOk(e.v[i], e.doc, e), <<e, D(e.doc).f>>)
       [] e.how = "pos" ->
            LET F == {f \in Vectored(e.doc) : D(e.doc).f[f].tvp}
                want == UNION {LET r == D(e.doc).f[f] IN {<<f, r.toks[i].p>> : i \in DOMAIN r.toks} : f \in F}
                at(f, p) == LET ts == TermsOf(D(e.doc).f[f]) IN
                            FoldLeft(LAMBDA a, t : a \o [j \in 1..Len(SelectSeq(Occ(D(e.doc).f[f], t), LAMBDA x : x.p = p)) |-> t], <<>>, ts)
            IN IF \E f \in Vectored(e.doc) : ~D(e.doc).f[f].tvp THEN C("needsPositions", e.ex = "Runtime", e)
               ELSE C("byPosition", e.ex = "" /\ {<<e.v[i][1], e.v[i][2]>> : i \in DOMAIN e.v} = want /\ Len(e.v) = Cardinality(want)
                 /\ \A i \in DOMAIN e.v : e.v[i][3] = at(e.v[i][1], e.v[i][2]), <<e, want>>)
       [] OTHER ->
            LET F == Vectored(e.doc)
                T == UNION {ToSet(TermsOf(D(e.doc).f[f])) : f \in F}
                n(t) == FoldSet(LAMBDA f, a : a + Len(Occ(D(e.doc).f[f], t)), 0, F)
            IN C("byFrequency", {<<e.v[i][1], e.v[i][2]>> : i \in DOMAIN e.v} = {<<t, n(t)>> : t \in T} /\ Len(e.v) = Cardinality(T)
                 /\ (Cardinality(F) > 1 \/ \A i \in 1..Len(e.v) - 1 : e.v[i][2] >= e.v[i + 1][2]), <<e, T>>)
  /\ Same

\* stored values; codes: 1 load, 2 lazily, 3 not, 4 load and stop, 5 size, 6 size and stop
RECURSIVE Sel(_, _, _)
Sel(s, i, code) ==
  IF i > Len(s) THEN <<>>
  ELSE LET k == code[s[i].f] x == [x |-> s[i], size |-> k \in {5, 6}]
       IN IF k = 3 THEN Sel(s, i + 1, code) ELSE IF k \in {4, 6} THEN <<x>> ELSE <<x>> \o Sel(s, i + 1, code)
Hex == <<"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "a", "b", "c", "d", "e", "f">>
HexB(b) == Hex[b \div 16 + 1] \o Hex[(b % 16) + 1]
SizeV(n) == HexB(0) \o HexB(0) \o HexB(n \div 256) \o HexB(n % 256)
StOk(g, w, d) ==
  IF w.size THEN g.f = w.x.f /\ g.bin /\ g.v = SizeV(IF w.x.bin THEN w.x.n ELSE 2 * w.x.n)
  ELSE /\ g.f = w.x.f /\ g.bin = w.x.bin /\ g.v = w.x.v /\ g.st
       /\ (w.x.bin \/ g.tok = (w.x.k = "tok"))
       /\ (w.x.bin \/ w.x.k = "none" \/ g.ix)
Doc(e) ==
  LET want == Sel(D(e.doc).st, 1, e.code)
      str == SelectSeq(want, LAMBDA x : x.x.f = e.gf /\ ~x.x.bin /\ ~x.size)
      bin == SelectSeq(want, LAMBDA x : x.x.f = e.gf /\ (x.x.bin \/ x.size))
  IN /\ C("stored", Len(e.v) = Len(want) /\ \A i \in DOMAIN want : StOk(e.v[i], want[i], e.doc), <<e, want>>)
     /\ C("byName", e.gv = [i \in DOMAIN str |-> str[i].x.v] /\ Len(e.bv) = Len(bin) /\ e.g = (IF str = <<>> THEN "" ELSE str[1].x.v), <<e, str>>)
     /\ Same
Norms(e) ==
  LET want == [i \in 1..Len(rd) |-> IF e.f \in DOMAIN D(i - 1).f THEN NormByte(D(i - 1).f[e.f]) ELSE 124]
      some == \E i \in DOMAIN rd : e.f \in DOMAIN inv[rd[i].u].f
  IN /\ IF cfg[e.f].on THEN C("noNorms", e.null /\ \A i \in DOMAIN e.v2 : e.v2[i] = 124, e)
        ELSE IF some THEN C("norms", e.has /\ e.v = want /\ e.v2 = want, <<e, want>>)
        ELSE C("unusedNorms", \A i \in DOMAIN e.v2 : e.v2[i] = 124, e)
     /\ Same

Step(e) ==
  CASE e.op = "Reset" -> /\ cfg' = [f \in 1..6 |-> [tf |-> e.cfg[f][1] = 1, on |-> e.cfg[f][2] = 1, gap |-> e.cfg[f][3], ogap |-> e.cfg[f][4]]]
                         /\ inv' = Empty /\ idx' = <<>> /\ idx2' = <<>> /\ rd' = <<>> /\ dict' = <<>> /\ cur' = Empty
    [] e.op = "Add" -> Add(e)
    [] e.op = "Del" -> Delete(e)
    [] e.op = "Merge" -> idx' = Live(idx) /\ UNCHANGED <<cfg, inv, idx2, rd, dict, cur>>
    [] e.op = "Merge2" -> idx2' = Live(idx2) /\ UNCHANGED <<cfg, inv, idx, rd, dict, cur>>
    [] e.op = "AddIdx" -> AddIdx(e)
    [] e.op = "Open" -> Open(e)
    [] e.op = "Terms" -> Terms(e)
    [] e.op = "Seek" -> Seek(e)
    [] e.op = "DF" -> DF(e)
    [] e.op = "TDNew" -> TDNew(e) /\ UnRead
    [] e.op = "TDNext" -> Moved(e, cur[e.c], cur[e.c].at + 1) /\ UnRead
    [] e.op = "TDSkip" -> Moved(e, cur[e.c], SkipAt(cur[e.c], e.t)) /\ UnRead
    [] e.op = "TDRead" -> TDRead(e) /\ UnRead
    [] e.op = "TDPos" -> TDPos(e) /\ UnRead
    [] e.op = "Vec" -> Vec(e)
    [] e.op = "Doc" -> Doc(e)
    [] e.op = "Norms" -> Norms(e)
    [] e.op = "Compress" -> C("compression", e.ok /\ e.ok2, e) /\ Same
    [] OTHER -> C("unexpectedEvent", FALSE, e) /\ Same
Init == l = 1 /\ cfg = <<>> /\ inv = Empty /\ idx = <<>> /\ idx2 = <<>> /\ rd = <<>> /\ dict = <<>> /\ cur = Empty
Next == l <= TraceLen /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE TraceIndex -----------------------------
(* Validates recorded executions of the library against LuceneIndex: every    *)
(* event is one public call with its outcome and what could be observed after *)
(* it; it must be the transition the specification prescribes.                *)
EXTENDS LuceneIndex, TraceLib

VARIABLES l, s, cfg
vars == <<l, s, cfg>>

Keys == <<"ka", "kb", "kc", "kd", "ke", "kf", "kg", "kh">>
NoPend == [docs |-> <<>>, ud |-> "", must |-> FALSE, may |-> FALSE, none |-> TRUE]
Pend(p) == [docs |-> p.docs, ud |-> p.ud, must |-> p.must, may |-> p.may, none |-> FALSE]
C(name, c, info) == Chk(l, name, c, <<Trace[l].op, info>>)

---------------------------------------------------------------------------
(* Observations of a reader.                                                *)
KeyOf(st, c) == IF Uid(c) \in DOMAIN st.key THEN st.key[Uid(c)] ELSE "?"
LiveWith(st, sl, k) == Count(sl, LAMBDA c : c # 0 /\ KeyOf(st, c) = k)
Dead(sl) == Count(sl, LAMBDA c : c = 0)
CountsOk(st, e) ==
  LET n == Len(e.df) IN
  /\ C("numDocs", e.nl = Len(Live(e.sl)), e.nl)
  /\ C("hasDeletions", e.hd = (Dead(e.sl) > 0), e.hd)
  /\ C("docsOfTerm", \A i \in 1..n : e.lf[i] = LiveWith(st, e.sl, Keys[i]), <<e.lf, e.sl>>)
  /\ C("docFreq", /\ \A i \in 1..n : e.df[i] >= e.lf[i]
                  /\ Sum(e.df) - Sum(e.lf) <= Dead(e.sl), <<e.df, e.lf>>)
  /\ C("segments", Sum(e.seg) = Len(e.sl) /\ e.opt = (Len(e.seg) = 1 /\ ~e.hd), <<e.seg, e.opt>>)
\* what is known about each document's content never changes
DigestsOk(st, e) ==
  IF e.dg = <<>> THEN TRUE ELSE C("content", \A i \in 1..Len(e.sl) : (Uid(e.sl[i]) \in DOMAIN st.dig) => e.dg[i] = st.dig[Uid(e.sl[i])],
                   {<<e.sl[i], e.dg[i], st.dig[Uid(e.sl[i])]>> : i \in {j \in 1..Len(e.sl) : Uid(e.sl[j]) \in DOMAIN st.dig /\ e.dg[j] # st.dig[Uid(e.sl[j])]}})
LearnDigests(st, e) ==
  IF e.dg = <<>> THEN st ELSE
  LET new == {i \in 1..Len(e.sl) : Uid(e.sl[i]) > 0 /\ Uid(e.sl[i]) \notin DOMAIN st.dig} IN
  IF new = {} THEN st
  ELSE [st EXCEPT !.dig = [u \in {Uid(e.sl[i]) : i \in new} |-> e.dg[CHOOSE i \in new : Uid(e.sl[i]) = u]] @@ @]
\* a reader that must show the slots sl (or, when they are not known yet, the documents docs)
ShowOk(st, e, sl, docs) ==
  /\ IF sl = Unknown THEN C("documents", Live(e.sl) = docs, <<e.sl, docs>>) ELSE C("slots", e.sl = sl, <<e.sl, sl>>)
  /\ CountsOk(st, e)
  /\ DigestsOk(st, e)
  /\ C("digestsStable", e.dg = <<>> \/ \A i, j \in 1..Len(e.sl) : (i < j /\ Uid(e.sl[i]) = Uid(e.sl[j]) /\ Uid(e.sl[i]) > 0) => e.dg[i] = e.dg[j], e.dg)

---------------------------------------------------------------------------
(* The tail of every event: commits visible in the directory, what the       *)
(* deletion policy was shown, files.                                        *)
RECURSIVE PolFold(_, _, _, _, _)
PolFold(cs, pol, i, newc, snap) ==
  IF i > Len(pol) THEN [ok |-> TRUE, cs |-> cs]
  ELSE LET cs1 == IF pol[i].ev = "commit" THEN Append(cs, newc) ELSE cs IN
       IF Gens(cs1) # pol[i].seen THEN [ok |-> FALSE, cs |-> cs1]
       ELSE PolFold(PolicyApply(cs1, Range(pol[i].del), snap), pol, i + 1, newc, snap)
ObsOf(cs) == [i \in 1..Len(cs) |-> [g |-> cs[i].g, v |-> cs[i].v, ud |-> cs[i].ud]]

\* calls: names of the policy calls expected before a commit; user: the policy of the test (else keep only the last);
\* st1 is the state after the operation proper, pend what it may publish; after(st, g, v, ud) completes a publication
Finish(e, st1, pend, calls, user, after(_, _, _, _)) ==
  LET d == e.d
      top == st1.top[d]
      lastObs == IF e.cs = <<>> THEN [g |-> 0, v |-> 0, ud |-> ""] ELSE Last0(e.cs)
      new == lastObs.g > top.g
      newc == Commit(lastObs.g, lastObs.v, lastObs.ud, pend.docs, Unknown)
      fold == PolFold(st1.com[d], e.pol, 1, newc, st1.snap[d])
      cs == IF user THEN fold.cs ELSE IF new THEN <<newc>> ELSE st1.com[d]
      st2 == IF new THEN [st1 EXCEPT !.top[d] = [g |-> newc.g, v |-> newc.v], !.com[d] = cs] ELSE [st1 EXCEPT !.com[d] = cs]
      st3 == IF e.pol = <<>> THEN st2 ELSE [st2 EXCEPT !.snap[d].last = Last0(Last0(e.pol).seen)]
      st4 == IF new THEN after(st3, newc.g, newc.v, newc.ud) ELSE st3
  IN /\ C("listCommits", e.lex = "", e.lex)
     /\ C("noCommitExpected", new => pend.may, <<lastObs, pend>>)
     /\ C("commitExpected", pend.must => new, <<e.cs, pend>>)
     /\ C("version", new => newc.v > top.v, <<newc, top>>)
     /\ C("userData", new => newc.ud = pend.ud, <<newc, pend>>)
     /\ C("policyCalls", [i \in 1..Len(e.pol) |-> e.pol[i].ev] = (IF user THEN calls \o (IF new THEN <<"commit">> ELSE <<>>) ELSE <<>>), <<e.pol, calls>>)
     /\ C("policySeen", fold.ok, <<e.pol, Gens(st1.com[d])>>)
     /\ C("commits", e.cs = ObsOf(cs), <<e.cs, ObsOf(cs)>>)
     /\ C("pending", (st4.lit[d] \/ cfg.faulty) \/ e.pg = (st4.wr[d].open /\ st4.wr[d].prep # <<>>), e.pg)
     /\ C("missing", e.miss = <<>>, e.miss)
     /\ C("extra", (cfg.busy \/ st4.lit[d]) \/ e.extra = <<>>, e.extra)
     /\ C("invariant", StateInv(st4), <<LockExclusive(st4), ChangesNeedLock(st4), CommitsOrdered(st4), HolderIsCurrent(st4)>>)
     /\ s' = [st4 EXCEPT !.wr[d].mg = e.mg]
Id(st, g, v, ud) == st
Plain(e, st1) == Finish(e, st1, NoPend, <<>>, TRUE, Id)
Ex(e, x) == C("outcome", e.ex = x, <<e.ex, x>>)

---------------------------------------------------------------------------
(* One action per public operation.                                         *)
OpenW(e) ==
  LET d == e.d
      x == OpenWOutcome(s, d, e.create, e.gen)
      fresh == ~HasIndex(s, d)
      s1 == OpenWNext(s, d, e.create, e.gen)
      s2 == IF fresh /\ e.cs # <<>> THEN AddCommit(s1, d, Commit(e.cs[1].g, e.cs[1].v, e.cs[1].ud, <<>>, Unknown)) ELSE s1
  IN /\ Ex(e, x)
     /\ IF x = "" THEN /\ C("firstCommit", fresh => Len(e.cs) = 1 /\ e.cs[1].ud = "", e.cs)
                       /\ Finish(e, [s2 EXCEPT !.lit[d] = FALSE], NoPend, <<"init">>, TRUE, Id)
        ELSE Plain(e, s)

Learn(st, e) == [st EXCEPT !.key = Put(@, e.u, e.k)]
Add(e) ==
  LET s1 == Learn(s, e) IN
  /\ Ex(e, IF e.bad THEN "IllegalArgument" ELSE "")
  /\ Plain(e, IF e.bad THEN WSet(s1, e.d, s1.wr[e.d].docs) ELSE AddNext(s1, e.d, e.u, e.n))
Upd(e) ==
  LET s1 == Learn(s, e) IN
  /\ Ex(e, IF e.bad THEN "IllegalArgument" ELSE "")
  /\ Plain(e, IF e.bad THEN BadUpdNext(s1, e.d, e.t) ELSE UpdNext(s1, e.d, e.t, e.u, e.n))
DelT(e) == Ex(e, "") /\ Plain(e, WSet(s, e.d, DelKeys(s, s.wr[e.d].docs, Range(e.ks))))
DelQ(e) ==
  Ex(e, "") /\ Plain(e, WSet(s, e.d, IF e.q = "mod" THEN DelMod(s.wr[e.d].docs, e.m) ELSE DelKeys(s, s.wr[e.d].docs, Range(e.ks))))
DelAll(e) == Ex(e, "") /\ Plain(e, WSet(s, e.d, <<>>))
AddIdx(e) == Ex(e, "") /\ Plain(e, AppendAll(s, e.d, [i \in 1..Len(e.src) |-> Newest(s, e.src[i]).docs]))
AddRdr(e) == Ex(e, "") /\ Plain(e, AppendAll(s, e.d, [i \in 1..Len(e.rs) |-> Live(s.rd[e.rs[i]].sl)]))
Opt(e) == Ex(e, "") /\ Plain(e, [MergeNext(s, e.d) EXCEPT !.wr[e.d].optn = e.n])
Exp(e) == Ex(e, "") /\ Plain(e, [MergeNext(s, e.d) EXCEPT !.wr[e.d].exp = ~s.wr[e.d].buf])
MM(e) == Ex(e, "") /\ Plain(e, [MergeNext(s, e.d) EXCEPT !.wr[e.d].optn = 0])

Prep(e) ==
  LET p == Pend(PendingOf(s, e.d, e.u)) IN
  /\ Ex(e, "")
  /\ C("prepared", (p.must => e.pg) /\ (e.pg => p.may), <<p, e.pg>>)
  /\ Plain(e, IF e.pg THEN [Settled(s, e.d) EXCEPT !.wr[e.d].prep = <<[docs |-> p.docs, ud |-> p.ud, must |-> TRUE, may |-> TRUE]>>, !.wr[e.d].touched = FALSE] ELSE s)
CommitEnds(st, e) == IF st.wr[e.d].prep # <<>> THEN [st EXCEPT !.wr[e.d].prep = <<>>] ELSE [st EXCEPT !.wr[e.d].touched = FALSE]
CommitOp(e) ==
  LET p == Pend(PendingOf(s, e.d, e.u))
      after(st, g, v, ud) == WriterCommitted(st, e.d, ud)
      \* what was added after prepareCommit is still buffered
  IN Ex(e, "") /\ Finish(e, IF s.wr[e.d].prep # <<>> THEN CommitEnds(s, e) ELSE Settled(CommitEnds(s, e), e.d), p, <<>>, TRUE, after)
CloseW(e) ==
  IF s.wr[e.d].prep # <<>> THEN Ex(e, "IllegalState") /\ Plain(e, s)
  ELSE Ex(e, "") /\ Finish(e, [s EXCEPT !.wr[e.d].open = FALSE], Pend(PendingOf(s, e.d, "")), <<>>, TRUE, Id)
RollbackOp(e) == Ex(e, "") /\ Plain(e, RollbackNext(s, e.d))

---------------------------------------------------------------------------
LearnSlots(st, d, g, sl) ==
  [st EXCEPT !.com[d] = [i \in DOMAIN @ |-> IF @[i].g = g /\ @[i].sl = Unknown THEN [@[i] EXCEPT !.sl = sl] ELSE @[i]]]
OpenR(e) ==
  IF ~HasIndex(s, e.d) THEN Ex(e, "FileNotFound") /\ C("noReader", e.r = 0, e.r) /\ Plain(e, s)
  ELSE LET d == e.d
           c == IF e.gen > 0 THEN CommitOf(s, d, e.gen) ELSE Newest(s, d)
       IN /\ Ex(e, "")
          /\ ShowOk(s, e, c.sl, c.docs)
          /\ C("readerVersion", e.ver = c.v /\ e.ud = c.ud, <<e.ver, e.ud, c>>)
          /\ Plain(e, [LearnDigests(LearnSlots(s, d, c.g, e.sl), e) EXCEPT
                         !.rd = Put(@, e.r, [MkReader(d, c, e.sl, e.ro, s.top[d].g) EXCEPT !.wp = e.wp])])
GetRCheck(e, d, sl) ==
  LET w == s.wr[d] IN
  /\ C("optimizedTo", w.optn > 0 => Len(e.seg) <= w.optn /\ (w.optn = 1 => ~e.hd), <<w.optn, e.seg, e.hd>>)
  /\ C("expunged", w.exp => ~e.hd, e.sl)
\* after a failed call: the session is unusable (and can only be rolled back), or shows something plausible
GetRFuzzy(e) ==
  IF e.ex # "" THEN Plain(e, s)
  ELSE LET docs == Live(e.sl) IN
       /\ C("plausible", Plausible(s, e.d, docs), <<docs, s.wr[e.d]>>)
       /\ ShowOk(s, e, Unknown, docs)
       /\ Plain(e, [LearnDigests(Settled([s EXCEPT !.wr[e.d].docs = docs], e.d), e) EXCEPT
                      !.wr[e.d].buf = FALSE, !.rd = Put(@, e.r, MkNrt(s, e.d, e.sl, e.ver, e.ud))])
\* flushing what is buffered may merge, which ends the guarantees of optimize
GetR(e) ==
  IF s.wr[e.d].fz THEN GetRFuzzy(e) ELSE
  /\ Ex(e, "")
  /\ ShowOk(s, e, Unknown, s.wr[e.d].docs)
  /\ GetRCheck(e, e.d, e.sl)
  /\ Plain(e, [LearnDigests(Settled(s, e.d), e) EXCEPT !.wr[e.d].buf = FALSE, !.wr[e.d].touched = @ \/ e.mg # s.wr[e.d].mg, !.rd = Put(@, e.r, MkNrt(s, e.d, e.sl, e.ver, e.ud))])

TouchReaders(st, d) == st
CurOk(e, r) ==
  LET x == s.rd[r] IN
  IF Attached(s, r) THEN C("currentShowsAll", e.cur => Live(x.sl) = s.wr[x.d].docs, <<x.sl, s.wr[x.d].docs>>)
  ELSE IF x.nrt THEN C("currentShowsCommit", (e.cur /\ ~x.orphan) => Live(x.sl) = Newest(s, x.d).docs, <<x.sl, Newest(s, x.d).docs>>)
  ELSE C("isCurrent", e.cur = IsNewest(s, r), <<e.cur, x.g>>)
Check(e) ==
  LET x == s.rd[e.r] IN
  /\ Ex(e, "")
  /\ ShowOk(s, e, x.sl, <<>>)
  /\ C("versionFixed", e.ver = x.ver /\ e.ud = x.ud, <<e.ver, e.ud, x.ver, x.ud>>)
  /\ CurOk(e, e.r)
  /\ Plain(e, LearnDigests(s, e))

Reopen(e) ==
  LET x == s.rd[e.r]
      kind == ReopenKind(s, e.r, e.how, e.gen)
      d == x.d
      c == IF e.how = "commit" THEN CommitOf(s, d, e.gen) ELSE Newest(s, d)
      ro == ReopenRo(s, e.r, e.how)
  IN /\ Ex(e, "")
     /\ C("reopenedSelf", ~x.nrt => ((e.r2 = e.r) = (kind = "self")), <<kind, e.r, e.r2>>)
     /\ CASE e.r2 = e.r -> ShowOk(s, e, x.sl, <<>>) /\ C("selfWhenCurrent", /\ kind = "writer" => Live(x.sl) = s.wr[d].docs
                                                     /\ (x.nrt /\ kind # "writer" /\ ~x.orphan) => Live(x.sl) = Newest(s, d).docs, x.sl)
                           /\ Plain(e, LearnDigests(s, e))
          [] kind = "writer" /\ e.r2 # e.r ->
               /\ ShowOk(s, e, Unknown, s.wr[d].docs) /\ GetRCheck(e, d, e.sl)
               /\ Plain(e, [LearnDigests(s, e) EXCEPT !.wr[d].touched = @ \/ e.mg # s.wr[d].mg, !.rd = Put(@, e.r2, MkNrt(s, d, e.sl, e.ver, e.ud))])
          [] kind = "clone" /\ e.r2 # e.r ->
               /\ ShowOk(s, e, x.sl, <<>>)
               /\ Plain(e, LearnDigests(CloneNext(s, e.r, e.r2, ro), e))
          [] OTHER ->
               /\ ShowOk(s, e, c.sl, c.docs)
               /\ C("readerVersion", e.ver = c.v /\ e.ud = c.ud, <<e.ver, e.ud, c>>)
               /\ Plain(e, [LearnDigests(LearnSlots(s, d, c.g, e.sl), e) EXCEPT
                              !.rd = Put(@, e.r2, [MkReader(d, c, e.sl, ro, s.top[d].g) EXCEPT !.wp = x.wp])])
Clone(e) ==
  LET x == s.rd[e.r] IN
  /\ Ex(e, "")
  /\ C("cloneIsNew", e.r2 # e.r, e.r2)
  /\ ShowOk(s, e, x.sl, <<>>)
  /\ C("cloneVersion", e.ver = x.ver /\ e.ud = x.ud, <<e.ver, e.ud, x.ver, x.ud>>)
  /\ Plain(e, LearnDigests(CloneNext(s, e.r, e.r2, e.ro), e))

RDel(e) ==
  LET x == ModifyOutcome(s, e.r) IN
  Ex(e, x) /\ Plain(e, IF x = "" THEN RDelNext(s, e.r, e.n) ELSE AfterRefusal(s, e.r, x))
RDelT(e) ==
  LET h == RDelKeyHits(s, e.r, e.k)
      x == IF h = {} THEN "" ELSE ModifyOutcome(s, e.r) IN
  /\ Ex(e, x)
  /\ C("deletedCount", x = "" => e.cnt = Cardinality(h), <<e.cnt, h>>)
  /\ Plain(e, IF h = {} THEN s ELSE IF x = "" THEN RDelKeyNext(s, e.r, e.k) ELSE AfterRefusal(s, e.r, x))
RNorm(e) ==
  LET x == ModifyOutcome(s, e.r) IN
  Ex(e, x) /\ Plain(e, IF x = "" THEN RNormNext(s, e.r, e.n, e.v) ELSE AfterRefusal(s, e.r, x))
RUndel(e) ==
  LET x == ModifyOutcome(s, e.r) IN
  /\ Ex(e, x)
  /\ IF x # "" THEN Plain(e, AfterRefusal(s, e.r, x))
     ELSE /\ C("undeleted", UndeleteOk(s, e.r, e.sl), <<e.sl, s.rd[e.r]>>)
          /\ C("undeletedCounts", e.nl = Len(e.sl) /\ ~e.hd, <<e.nl, e.hd>>)
          /\ Plain(e, RUndelNext(s, e.r, e.sl))
\* a reader publishes its changes; with no policy of its own it keeps only the newest commit
RPublish(e, st1, r, ud) ==
  LET x == s.rd[r]
      after(st, g, v, u) == LearnSlots(RCommitted(st, r, g, v, u), e.d, g, x.sl)
  IN IF x.chg THEN Finish(e, st1, Pend(RPending(s, r, ud)), IF x.wp THEN <<"init">> ELSE <<>>, x.wp, after)
     ELSE Plain(e, st1)
RFlush(e) == Ex(e, "") /\ RPublish(e, s, e.r, e.u)
RClose(e) ==
  LET s1 == [s EXCEPT !.rd[e.r].closed = TRUE, !.rd[e.r].refs = @ - 1, !.rd[e.r].lock = FALSE] IN
  Ex(e, "") /\ RPublish(e, s1, e.r, "")
RUseClosed(e) == Ex(e, "AlreadyClosed") /\ Plain(e, s)
RInc(e) == Ex(e, "") /\ Plain(e, [s EXCEPT !.rd[e.r].refs = @ + 1])
RDec(e) == Ex(e, "") /\ Plain(e, [s EXCEPT !.rd[e.r].refs = @ - 1])

TryW(e) ==
  LET d == e.d IN
  IF Locked(s, d) THEN Ex(e, "LockObtainFailed") /\ C("stillLocked", e.locked, e.locked) /\ Plain(e, s)
  ELSE /\ Ex(e, "") /\ C("rollback", e.ex2 = "" /\ ~e.locked, <<e.ex2, e.locked>>)
       /\ Finish(e, s, NoPend, <<"init">>, TRUE, Id)
\* a session of somebody else, with the default deletion policy: only its commit is left
Foreign(e) ==
  LET n == Newest(s, e.d)
      p == [docs |-> Append(n.docs, e.u * 1000 + e.n), ud |-> n.ud, must |-> TRUE, may |-> TRUE]
  IN Ex(e, "") /\ Finish(e, Learn(s, e), p, <<>>, FALSE, Id)
Snap(e) ==
  LET last == s.snap[e.d].last IN
  IF last = 0 THEN Ex(e, "IllegalState") /\ Plain(e, s)
  ELSE Ex(e, "") /\ C("snapshotOf", e.g = last, <<e.g, last>>) /\ Plain(e, [s EXCEPT !.snap[e.d].has = TRUE, !.snap[e.d].g = e.g])
Release(e) == Ex(e, "") /\ Plain(e, [s EXCEPT !.snap[e.d].has = FALSE])
OpenFiles(e) == C("openFiles", cfg.faulty \/ e.n = 0, e.n) /\ Plain(e, s)

---------------------------------------------------------------------------
(* A call during which the storage failed and which reported an exception.  *)
WriterOps == {"Add", "Upd", "DelT", "DelQ", "DelAll", "AddIdx", "AddRdr", "Opt", "Exp", "MM", "Prep", "Commit", "CloseW", "GetR"}
FaultAdds(e) ==
  CASE e.op \in {"Add", "Upd"} -> IF e.bad THEN <<>> ELSE <<e.u * 1000 + e.n>>
    [] e.op = "AddIdx" -> FlattenSeq([i \in 1..Len(e.src) |-> Newest(s, e.src[i]).docs])
    [] e.op = "AddRdr" -> FlattenSeq([i \in 1..Len(e.rs) |-> Live(s.rd[e.rs[i]].sl)])
    [] OTHER -> <<>>
\* deletions of the failed call may have been performed
FaultKeep(e, docs) ==
  CASE e.op = "Upd" -> DelKeys(s, docs, {e.t})
    [] e.op = "DelT" -> DelKeys(s, docs, Range(e.ks))
    [] e.op = "DelQ" -> IF e.q = "mod" THEN DelMod(docs, e.m) ELSE DelKeys(s, docs, Range(e.ks))
    [] e.op = "DelAll" -> <<>>
    [] OTHER -> docs
FaultState(e) ==
  IF e.op \in WriterOps \/ (e.op = "Reopen" /\ ReopenKind(s, e.r, e.how, e.gen) = "writer")
  THEN LET s1 == IF e.op \in {"Add", "Upd"} THEN Learn(s, e) ELSE s
           s2 == Failed(s1, e.d, FaultAdds(e), e.op \in {"AddIdx", "AddRdr"})
           s3 == [s2 EXCEPT !.wr[e.d].docs = FaultKeep(e, @)]
       IN IF e.op \in {"Prep", "Commit"} THEN [s3 EXCEPT !.wr[e.d].prep = <<>>] ELSE s3
  ELSE s
Faulted(e) ==
  LET d == e.d
      s1 == [FaultState(e) EXCEPT !.lit[d] = TRUE]
      fresh == e.op = "OpenW" /\ ~HasIndex(s, d) /\ e.cs # <<>>
      s2 == IF fresh THEN AddCommit(s1, d, Commit(e.cs[1].g, e.cs[1].v, e.cs[1].ud, <<>>, Unknown)) ELSE s1
      fold == PolFold(s2.com[d], e.pol, 1, Commit(-1, 0, "", <<>>, Unknown), s2.snap[d])
  IN /\ C("committedUnchanged", fold.ok /\ e.cs = ObsOf(fold.cs), <<e.ex, e.cs, ObsOf(s2.com[d]), e.pol>>)
     /\ C("listCommits", e.lex = "" /\ e.miss = <<>>, <<e.lex, e.miss>>)
     /\ s' = [s2 EXCEPT !.com[d] = fold.cs, !.wr[d].mg = e.mg]
\* the machine stopped between two calls
Restart(e) ==
  /\ C("commitsSurvive", e.lex = "" /\ e.miss = <<>> /\ e.cs = ObsOf(s.com[e.d]), <<e.lex, e.miss, e.cs, ObsOf(s.com[e.d])>>)
  /\ s' = RestartNext(s, e.d)

---------------------------------------------------------------------------
(* What is found when power fails during (cr) or after (fc) a call: always   *)
(* the newest commit, or the one under way, and a writer can go on from it.  *)
ShowsCommit(o, c, st) ==
  /\ o.g = c.g /\ o.ud = c.ud /\ o.docs = c.docs
  /\ \A i \in 1..Len(o.docs) : Uid(o.docs[i]) \in DOMAIN st.dig => o.dg[i] = st.dig[Uid(o.docs[i])]
WriterGoesOn(o) == o.wx = "-" \/ (o.wx = "" /\ o.wd = o.docs /\ o.extra = <<>>)
\* a commit that was withdrawn in the end because of a failure may have been seen
Withdrawn(o, e, st) ==
  /\ Has(e, "f") /\ e.f /\ e.ex # "" /\ o.x = "" /\ (HasIndex(st, e.d) => o.g > Newest(st, e.d).g)
  /\ ShowsCommit(o, [g |-> o.g, ud |-> o.ud, docs |-> o.docs], st)
  /\ CASE e.op \in {"Commit", "CloseW"} -> Plausible(st, e.d, o.docs) \/ (st.wr[e.d].prep # <<>> /\ o.docs = st.wr[e.d].prep[1].docs)
       [] e.op \in {"RFlush", "RClose"} -> o.docs = Live(st.rd[e.r].sl)
       [] e.op = "OpenW" -> o.docs = <<>>
       [] OTHER -> FALSE
CrashOk(e, st1, st2) ==
  LET d == e.d
      olds == IF HasIndex(st1, d) THEN {Newest(st1, d)} ELSE {}
      news == IF HasIndex(st2, d) THEN {Newest(st2, d)} ELSE {}
      ok(o, cs, empty, during) == IF o.x = "" THEN ((\E c \in cs : ShowsCommit(o, c, st2)) \/ (during /\ Withdrawn(o, e, st1))) /\ WriterGoesOn(o) ELSE empty
      BadOf(q, cs, empty, during) == SelectSeq(q, LAMBDA o : ~ok(o, cs, empty, during))
  IN /\ C("crashDuring", BadOf(e.cr, olds \cup news, olds = {}, TRUE) = <<>>, <<BadOf(e.cr, olds \cup news, olds = {}, TRUE), olds, news>>)
     /\ C("crashAfter", BadOf(e.fc, news, news = {}, FALSE) = <<>>, <<BadOf(e.fc, news, news = {}, FALSE), news>>)

---------------------------------------------------------------------------
Step(e) ==
  CASE e.op = "Reset" -> s' = InitState(0..(e.nd - 1)) /\ cfg' = e
    [] OTHER ->
       /\ UNCHANGED cfg
       /\ CASE e.op = "Restart" -> Restart(e)
            [] (Has(e, "f") /\ e.f /\ e.ex \notin {"", "IllegalArgument"}) -> Faulted(e)
            [] e.op = "OpenW" -> OpenW(e)      [] e.op = "Add" -> Add(e)        [] e.op = "Upd" -> Upd(e)
            [] e.op = "DelT" -> DelT(e)        [] e.op = "DelQ" -> DelQ(e)      [] e.op = "DelAll" -> DelAll(e)
            [] e.op = "AddIdx" -> AddIdx(e)    [] e.op = "AddRdr" -> AddRdr(e)  [] e.op = "Opt" -> Opt(e)
            [] e.op = "Exp" -> Exp(e)          [] e.op = "MM" -> MM(e)          [] e.op = "Prep" -> Prep(e)
            [] e.op = "Commit" -> CommitOp(e)  [] e.op = "CloseW" -> CloseW(e)  [] e.op = "Rollback" -> RollbackOp(e)
            [] e.op = "OpenR" -> OpenR(e)      [] e.op = "GetR" -> GetR(e)      [] e.op = "Check" -> Check(e)
            [] e.op = "Reopen" -> Reopen(e)    [] e.op = "Clone" -> Clone(e)    [] e.op = "RDel" -> RDel(e)
            [] e.op = "RDelT" -> RDelT(e)      [] e.op = "RNorm" -> RNorm(e)    [] e.op = "RUndel" -> RUndel(e)
            [] e.op = "RFlush" -> RFlush(e)    [] e.op = "RClose" -> RClose(e)  [] e.op = "RUseClosed" -> RUseClosed(e)
            [] e.op = "RInc" -> RInc(e)        [] e.op = "RDec" -> RDec(e)      [] e.op = "TryW" -> TryW(e)
            [] e.op = "Snap" -> Snap(e) [] e.op = "Foreign" -> Foreign(e)        [] e.op = "Release" -> Release(e) [] e.op = "OpenFiles" -> OpenFiles(e)
            [] OTHER -> C("unexpectedEvent", FALSE, e) /\ UNCHANGED s
       /\ IF Has(e, "cr") THEN CrashOk(e, s, s') ELSE TRUE

Init == l = 1 /\ s = InitState({0}) /\ cfg = [busy |-> FALSE, faulty |-> FALSE]
Next == l <= TraceLen /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================

---------------------------- MODULE LuceneIndex ----------------------------
(* The observable state of LucenePlusPlus index directories, the writers and  *)
(* the readers open on them, and every public operation as a transition.      *)
(*                                                                            *)
(* A document is an integer code  uid * 1000 + norm : uid names one added     *)
(* document (its content never changes), norm is its norm byte in field "nf", *)
(* the one attribute that readers may change in place.  Slot value 0 is a     *)
(* deleted document number.                                                   *)
(*                                                                            *)
(* Everything is expressed over one record                                    *)
(*    key  : uid -> key term           (field "k")                            *)
(*    dig  : uid -> digest of everything a reader can say about the document  *)
(*    com  : directory -> sequence of commits still present, oldest first     *)
(*    top  : directory -> [g, v]  newest generation / version ever written    *)
(*    wr   : directory -> open writer or NoWriter                             *)
(*    rd   : reader id -> reader                                              *)
(*    snap : directory -> [has, g, last]  snapshot deletion policy            *)
(* so that the same operators drive the exploration of small instances        *)
(* (MCLuceneIndex) and the validation of recorded executions (TraceIndex).    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Uid(c)  == c \div 1000
Norm(c) == c % 1000
Live(sl) == SelectSeq(sl, LAMBDA c : c # 0)
Last0(s) == s[Len(s)]
EmptyFn == [x \in {} |-> 0]
Put(f, k, v) == (k :> v) @@ f

NoWriter == [open |-> FALSE, docs |-> <<>>, touched |-> FALSE, prep |-> <<>>, mg |-> 0, ud |-> "",
             optn |-> 0, exp |-> FALSE, buf |-> FALSE, inst |-> 0, fz |-> FALSE, base |-> <<>>, hist |-> <<>>, blk |-> <<>>]

\* sl: the slots every reader opened on this commit shows, <<-1>> until one was opened
Commit(g, v, ud, docs, sl) == [g |-> g, v |-> v, ud |-> ud, docs |-> docs, sl |-> sl]
Unknown == <<-1>>

InitState(D) ==
  [key |-> EmptyFn, dig |-> EmptyFn, com |-> [d \in D |-> <<>>], top |-> [d \in D |-> [g |-> 0, v |-> 0]],
   wr |-> [d \in D |-> NoWriter], rd |-> EmptyFn, lit |-> [d \in D |-> FALSE], snap |-> [d \in D |-> [has |-> FALSE, g |-> 0, last |-> 0]]]

HasIndex(s, d) == s.com[d] # <<>>
Newest(s, d) == Last0(s.com[d])
CommitOf(s, d, g) == LET i == CHOOSE i \in 1..Len(s.com[d]) : s.com[d][i].g = g IN s.com[d][i]
HasGen(s, d, g) == \E i \in 1..Len(s.com[d]) : s.com[d][i].g = g
ReadersOf(s, d) == {r \in DOMAIN s.rd : s.rd[r].d = d /\ ~s.rd[r].closed}
\* the one holder of the write lock of directory d: 0 nobody, -1 the writer, else a reader
LockHolders(s, d) == (IF s.wr[d].open THEN {-1} ELSE {}) \cup {r \in ReadersOf(s, d) : s.rd[r].lock}
Locked(s, d) == LockHolders(s, d) # {}

-----------------------------------------------------------------------------
(* Writer operations: outcome (name of the exception or "") and next state.   *)

OpenWOutcome(s, d, create, gen) ==
  IF ~create /\ Locked(s, d) THEN "LockObtainFailed"
  ELSE IF ~create /\ ~HasIndex(s, d) THEN "FileNotFound"
  ELSE ""
\* content and pending-change flag of the new session (commits are handled by Publish below)
OpenWNext(s, d, create, gen) ==
  LET c == IF gen > 0 /\ HasGen(s, d, gen) THEN CommitOf(s, d, gen) ELSE Newest(s, d)
      docs == IF create \/ ~HasIndex(s, d) THEN <<>> ELSE c.docs
      fresh == ~HasIndex(s, d)
  IN [s EXCEPT !.wr[d] = [open |-> TRUE, docs |-> docs, touched |-> (~fresh /\ (create \/ (gen > 0))),
                          prep |-> <<>>, mg |-> 0, ud |-> IF fresh THEN "" ELSE Newest(s, d).ud,
                          optn |-> 0, exp |-> FALSE, buf |-> FALSE, inst |-> @.inst + 1,
                          fz |-> FALSE, base |-> docs, hist |-> docs, blk |-> <<>>]]

\* adds: the documents among docs that are new; hist: everything that was ever in the session since it was last looked at (base)
WSetH(s, d, docs, adds) == [s EXCEPT !.wr[d].docs = docs, !.wr[d].hist = @ \o adds, !.wr[d].touched = TRUE, !.wr[d].optn = 0, !.wr[d].exp = FALSE, !.wr[d].buf = TRUE]
Settled(s, d) == LET x == s.wr[d].docs IN [s EXCEPT !.wr[d].base = x, !.wr[d].hist = x, !.wr[d].fz = FALSE, !.wr[d].blk = <<>>]
WSet(s, d, docs) == [s EXCEPT !.wr[d].docs = docs, !.wr[d].touched = TRUE, !.wr[d].optn = 0, !.wr[d].exp = FALSE, !.wr[d].buf = TRUE]
AddNext(s, d, u, n) == WSetH(s, d, Append(s.wr[d].docs, u * 1000 + n), <<u * 1000 + n>>)
\* Documents matching a set of keys / a predicate on uids disappear; later additions are not affected.
DelKeys(s, docs, ks) == SelectSeq(docs, LAMBDA c : s.key[Uid(c)] \notin ks)
DelMod(docs, m) == SelectSeq(docs, LAMBDA c : Uid(c) % 3 # m)
\* A rejected document is absent as a whole; the deletion of a rejected update has been performed.
BadUpdNext(s, d, k) == WSet(s, d, DelKeys(s, s.wr[d].docs, {k}))
UpdNext(s, d, k, u, n) == WSetH(s, d, Append(DelKeys(s, s.wr[d].docs, {k}), u * 1000 + n), <<u * 1000 + n>>)

AppendAll(s, d, parts) == WSetH(s, d, s.wr[d].docs \o FlattenSeq(parts), FlattenSeq(parts))
MergeNext(s, d) == [s EXCEPT !.wr[d].touched = TRUE]

\* rollback discards the session; near-real-time readers that showed uncommitted documents lose what they came from
RollbackNext(s, d) ==
  LET t == [s EXCEPT !.wr[d].open = FALSE, !.wr[d].prep = <<>>] IN
  [t EXCEPT !.rd = [r \in DOMAIN @ |-> IF @[r].nrt /\ @[r].d = d /\ @[r].inst = s.wr[d].inst THEN [@[r] EXCEPT !.orphan = TRUE] ELSE @[r]]]

\* What commit() / prepareCommit() publishes: [docs, ud, must, may]
PendingOf(s, d, ud) ==
  LET w == s.wr[d] IN
  IF w.prep # <<>> THEN w.prep[1]
  ELSE [docs |-> w.docs, ud |-> IF ud = "" THEN w.ud ELSE ud,
        must |-> w.docs # Newest(s, d).docs, may |-> w.touched]

-----------------------------------------------------------------------------
(* Failures.  A writer call that fails because the storage failed changes     *)
(* nothing that was committed; what the session holds afterwards is known     *)
(* only within limits (fz) until it is looked at: documents that were there   *)
(* when it was last looked at and not deleted since are still there, all of   *)
(* addIndexes or nothing is, and nothing that never was appears.              *)
Failed(s, d, adds, atomic) ==
  LET h == s.wr[d].hist IN
  [s EXCEPT !.wr[d].fz = TRUE, !.wr[d].hist = h \o adds, !.wr[d].blk = IF atomic THEN adds ELSE <<>>,
            !.wr[d].touched = TRUE, !.wr[d].optn = 0, !.wr[d].exp = FALSE, !.wr[d].buf = TRUE]
RECURSIVE SubSeqFrom(_, _, _, _)
SubSeqFrom(a, i, b, j) ==
  IF i > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN SubSeqFrom(a, i + 1, b, j + 1) ELSE SubSeqFrom(a, i, b, j + 1)
IsSubSeq(a, b) == SubSeqFrom(a, 1, b, 1)
\* may a session of which little is known hold exactly docs
Plausible(s, d, docs) ==
  LET w == s.wr[d]
      new == {w.blk[i] : i \in {k \in 1..Len(w.blk) : \A m \in 1..(Len(w.hist) - Len(w.blk)) : w.hist[m] # w.blk[k]}}
      have == {docs[i] : i \in 1..Len(docs)}
      alive == {w.docs[i] : i \in 1..Len(w.docs)}
  IN /\ IsSubSeq(docs, w.hist)
     /\ IsSubSeq(SelectSeq(w.base, LAMBDA c : c \in alive), docs)
     /\ (new \subseteq have \/ new \cap have = {})
\* the machine stops: sessions and readers of d are gone, the commits stay
RestartNext(s, d) ==
  [s EXCEPT !.wr[d] = [NoWriter EXCEPT !.inst = s.wr[d].inst], !.lit[d] = TRUE, !.snap[d] = [has |-> FALSE, g |-> 0, last |-> 0],
            !.rd = [r \in DOMAIN @ |-> IF @[r].d = d THEN [@[r] EXCEPT !.closed = TRUE, !.lock = FALSE] ELSE @[r]]]

-----------------------------------------------------------------------------
(* Commits and deletion policies.                                             *)
Gens(cs) == [i \in 1..Len(cs) |-> cs[i].g]
KeepGens(cs, keep) == SelectSeq(cs, LAMBDA c : c.g \in keep)
\* one call of a policy: it is shown all commits and names some for deletion; a held snapshot stays
PolicyApply(cs, del, snap) == SelectSeq(cs, LAMBDA c : c.g \notin del \/ (snap.has /\ c.g = snap.g))
AddCommit(s, d, c) == [s EXCEPT !.com[d] = Append(@, c), !.top[d] = [g |-> c.g, v |-> c.v]]
\* after a successful commit of a writer
WriterCommitted(s, d, ud) == [s EXCEPT !.wr[d].ud = ud]

-----------------------------------------------------------------------------
(* Readers.                                                                   *)
\* orig: code last known at every slot (0 when never seen), for undelete
MkReader(d, c, sl, ro, maxg) ==
  [d |-> d, sl |-> sl, orig |-> sl, ro |-> ro, nrt |-> FALSE, inst |-> 0, chg |-> FALSE, lock |-> FALSE, closed |-> FALSE,
   refs |-> 1, g |-> c.g, ver |-> c.v, ud |-> c.ud, maxg |-> maxg, wp |-> FALSE, stale |-> FALSE, orphan |-> FALSE]
MkNrt(s, d, sl, ver, ud) ==
  [d |-> d, sl |-> sl, orig |-> sl, ro |-> TRUE, nrt |-> TRUE, inst |-> s.wr[d].inst, chg |-> FALSE, lock |-> FALSE, closed |-> FALSE,
   refs |-> 1, g |-> 0, ver |-> ver, ud |-> ud, maxg |-> 0, wp |-> FALSE, stale |-> FALSE, orphan |-> FALSE]

\* a near-real-time reader whose writer is still open
Attached(s, r) == s.rd[r].nrt /\ s.wr[s.rd[r].d].open /\ s.wr[s.rd[r].d].inst = s.rd[r].inst
IsNewest(s, r) == HasIndex(s, s.rd[r].d) /\ s.rd[r].g = Newest(s, s.rd[r].d).g

\* may reader r change the index: "" or the exception
ModifyOutcome(s, r) ==
  LET x == s.rd[r] IN
  IF x.ro THEN "UnsupportedOperation"
  ELSE IF x.lock THEN ""
  ELSE IF x.stale THEN "StaleReader"
  ELSE IF Locked(s, x.d) THEN "LockObtainFailed"
  ELSE IF s.top[x.d].g > x.maxg THEN "StaleReader"
  ELSE ""
\* a refused attempt that found the index changed makes the reader stale for good
AfterRefusal(s, r, ex) == IF ex = "StaleReader" THEN [s EXCEPT !.rd[r].stale = TRUE] ELSE s
Acquire(s, r) == [s EXCEPT !.rd[r].lock = TRUE, !.rd[r].chg = TRUE]
KeyAt(s, c) == s.key[Uid(c)]

RDelNext(s, r, n) == [Acquire(s, r) EXCEPT !.rd[r].sl[n + 1] = 0]
RDelKeyHits(s, r, k) == {i \in 1..Len(s.rd[r].sl) : s.rd[r].sl[i] # 0 /\ KeyAt(s, s.rd[r].sl[i]) = k}
RDelKeyNext(s, r, k) ==
  LET h == RDelKeyHits(s, r, k) IN
  [Acquire(s, r) EXCEPT !.rd[r].sl = [i \in DOMAIN @ |-> IF i \in h THEN 0 ELSE @[i]]]
RNormNext(s, r, n, v) ==
  LET set(c) == IF c = 0 THEN 0 ELSE Uid(c) * 1000 + v IN
  [Acquire(s, r) EXCEPT !.rd[r].sl[n + 1] = set(@), !.rd[r].orig[n + 1] = set(@)]
\* after undeleteAll every document number is live; those whose document was known show it again
UndeleteOk(s, r, sl) ==
  LET x == s.rd[r] IN
  /\ Len(sl) = Len(x.sl)
  /\ \A i \in 1..Len(sl) : sl[i] = (IF x.sl[i] # 0 THEN x.sl[i] ELSE IF x.orig[i] # 0 THEN x.orig[i] ELSE sl[i])
RUndelNext(s, r, sl) == [Acquire(s, r) EXCEPT !.rd[r].sl = sl]

\* the changes of reader r become a commit
RPending(s, r, ud) == [docs |-> Live(s.rd[r].sl), ud |-> ud, must |-> s.rd[r].chg, may |-> s.rd[r].chg]
RCommitted(s, r, g, v, ud) ==
  [s EXCEPT !.rd[r].chg = FALSE, !.rd[r].lock = FALSE, !.rd[r].g = g, !.rd[r].maxg = g, !.rd[r].ver = v, !.rd[r].ud = ud]

\* clone: the same view; a writable clone takes over the lock and the pending changes
CloneRec(s, r, ro) ==
  LET x == s.rd[r] IN
  [x EXCEPT !.ro = ro, !.refs = 1, !.chg = (~ro /\ x.lock /\ x.chg), !.lock = (~ro /\ x.lock), !.closed = FALSE,
            !.maxg = IF ro THEN 0 ELSE IF x.ro THEN x.g ELSE x.maxg, !.stale = FALSE]
CloneNext(s, r, r2, ro) ==
  LET t == [s EXCEPT !.rd = Put(@, r2, CloneRec(s, r, ro))] IN
  IF ~ro /\ s.rd[r].lock THEN [t EXCEPT !.rd[r].lock = FALSE, !.rd[r].chg = FALSE] ELSE t

\* reopen: "self" (the same reader), "clone", "new" (the newest commit or the one named), "writer" (again from the writer)
ReopenKind(s, r, how, gen) ==
  LET x == s.rd[r]
      ro == IF how = "same" THEN x.ro ELSE how \in {"ro", "commit"}
  IN IF Attached(s, r) THEN "writer"
     ELSE IF how = "commit" THEN (IF gen = x.g THEN (IF ro # x.ro THEN "clone" ELSE "self") ELSE "new")
     ELSE IF x.chg THEN (IF ro THEN "clone" ELSE "self")
     ELSE IF IsNewest(s, r) THEN (IF ro # x.ro THEN "clone" ELSE "self")
     ELSE "new"
ReopenRo(s, r, how) == IF how = "same" THEN s.rd[r].ro ELSE how \in {"ro", "commit"}

-----------------------------------------------------------------------------
(* Invariants every reachable state satisfies.                                *)
Ascending(cs) == \A i \in 1..(Len(cs) - 1) : cs[i].g < cs[i + 1].g /\ cs[i].v < cs[i + 1].v
LockExclusive(s) == \A d \in DOMAIN s.com : Cardinality(LockHolders(s, d)) <= 1
ChangesNeedLock(s) == \A r \in DOMAIN s.rd : (s.rd[r].chg /\ ~s.rd[r].closed) => s.rd[r].lock /\ ~s.rd[r].ro
CommitsOrdered(s) == \A d \in DOMAIN s.com : Ascending(s.com[d]) /\ (s.com[d] # <<>> => Newest(s, d).g = s.top[d].g)
\* whoever holds the lock has seen the newest commit: nobody overwrites what they have not seen
HolderIsCurrent(s) == \A d \in DOMAIN s.com : \A r \in ReadersOf(s, d) : s.rd[r].lock => s.rd[r].maxg >= s.top[d].g
\* a document appears at most once (directories are never merged into themselves in this instance)
StateInv(s) == LockExclusive(s) /\ ChangesNeedLock(s) /\ CommitsOrdered(s) /\ HolderIsCurrent(s)
=============================================================================

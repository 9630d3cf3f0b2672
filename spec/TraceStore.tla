----------------------------- MODULE TraceStore -----------------------------
(* Recorded calls on real directories and streams against module ByteFiles.   *)
EXTENDS ByteFiles, TraceLib
VARIABLES l, dir, fs, outs, ins, cw
vars == <<l, dir, fs, outs, ins, cw>>
C(name, c, info) == Chk(l, name, c, <<Trace[l].op, info>>)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Empty == [x \in {} |-> 0]
Plain(c) == [opaque |-> FALSE, c |-> c, e |-> Empty, sum |-> FALSE]

\* where a name lives (a switch directory only chooses)
Target(d, f) == IF dir[d].k # "switch" THEN d ELSE IF Ext(f) \in dir[d].ext THEN dir[d].p ELSE dir[d].s
Key(d, f) == <<Target(d, f), f>>
Exists(d, f) == Key(d, f) \in DOMAIN fs
NamesIn(d) == {k[2] : k \in {x \in DOMAIN fs : x[1] = d}}
Names(d) == IF dir[d].k = "switch" THEN NamesIn(dir[d].p) \cup NamesIn(dir[d].s) ELSE NamesIn(d)
Copied(from, to) ==
  LET ns == NamesIn(from) \cap IndexFiles
      new == {<<to, n>> : n \in ns}
  IN [k \in DOMAIN fs \cup new |-> IF k \in new THEN fs[<<from, k[2]>>] ELSE fs[k]]

NewDir(e) ==
  /\ dir' = Put(dir, e.d, [k |-> e.k, p |-> e.p, s |-> e.s, ext |-> ToSet(e.ext)])
  /\ IF e.src = 0 THEN UNCHANGED fs
     ELSE LET ns == Names(e.src) \cap IndexFiles
              new == {<<e.d, n>> : n \in ns}
          IN /\ C("copied", ToSet(e.c) = ns, <<e, ns>>)
             /\ fs' = [k \in DOMAIN fs \cup new |-> IF k \in new THEN fs[<<Target(e.src, k[2]), k[2]>>] ELSE fs[k]]
  /\ UNCHANGED <<outs, ins, cw>>
Out(e) ==
  /\ outs' = Put(outs, e.o, [d |-> e.d, f |-> e.f, c |-> <<>>, p |-> 0])
  /\ fs' = IF Exists(e.d, e.f) THEN Del(fs, Key(e.d, e.f)) ELSE fs
  /\ UNCHANGED <<dir, ins, cw>>
Data(e) == CASE e.t = "byte" -> <<e.v>> [] e.t = "bytes" -> Pattern(e.v, e.n) [] e.t = "int" -> IntB(e.v) [] e.t = "vint" -> VIntB(e.v)
             [] e.t = "long" -> LongB(e.v, e.n) [] e.t = "vlong" -> VLongB(e.v, e.n) [] e.t = "string" -> StringB(e.v) [] e.t = "map" -> MapB(e.v)
             [] e.t = "chars" -> CharsB(e.v)
             [] e.t = "copy" -> Slice(ins[e.v].c, ins[e.v].p, e.n)
             [] OTHER -> <<>>
W(e) ==
  LET x == outs[e.o]
      d == Data(e)
      y == CASE e.t = "seek" -> [x EXCEPT !.p = e.v]
             [] e.t = "flush" -> x
             [] OTHER -> [x EXCEPT !.c = Splice(x.c, x.p, d), !.p = x.p + Len(d)]
  IN /\ C("position", e.fp = y.p, <<e, y.p>>)
     /\ IF e.t = "flush" THEN C("length", e.v = Len(x.c), <<e, Len(x.c)>>) ELSE TRUE
     /\ outs' = [outs EXCEPT ![e.o] = y]
     /\ ins' = IF e.t = "copy" THEN [ins EXCEPT ![e.v].p = @ + e.n] ELSE ins
     /\ UNCHANGED <<dir, fs, cw>>
Close(e) ==
  LET x == outs[e.o]
      sum == e.how # "plain"
  IN /\ C("closedLength", e.len = Len(x.c) + (IF sum THEN 8 ELSE 0), <<e, Len(x.c)>>)
     \* the checksum's value is left open; what it must do is said by Sum
     /\ fs' = Put(fs, Key(x.d, x.f), [Plain(IF sum THEN x.c \o <<-1, -1, -1, -1, -1, -1, -1, -1>> ELSE x.c) EXCEPT !.sum = (e.how = "sum")])
     /\ outs' = Del(outs, e.o)
     /\ UNCHANGED <<dir, ins, cw>>
In(e) ==
  IF ~Exists(e.d, e.f)
  THEN C("missing", e.ex = (IF dir[e.d].k = "cfr" THEN "IO" ELSE "FileNotFound"), e) /\ UNCHANGED <<dir, fs, outs, ins, cw>>
  ELSE /\ C("opens", e.ex = "" /\ e.len = Len(fs[Key(e.d, e.f)].c), <<e, Len(fs[Key(e.d, e.f)].c)>>)
       /\ ins' = Put(ins, e.i, [c |-> fs[Key(e.d, e.f)].c, p |-> 0])
       /\ UNCHANGED <<dir, fs, outs, cw>>
\* bytes of a checksum are not said here
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : b[i] = -1 \/ a[i] = b[i]
MapBs(kv) == Cat([i \in 1..Len(kv) |-> StringB(kv[i][1]) \o StringB(kv[i][2])])
R(e) ==
  LET x == ins[e.i]
      at == IF "at" \in DOMAIN e THEN e.at ELSE x.p
      want == CASE e.t = "byte" -> <<e.v>> [] e.t = "bytes" -> e.v [] e.t = "int" -> IntB(e.v) [] e.t = "long" -> LongB(e.v, e.n)
                [] e.t = "vint" -> VIntB(e.v) [] e.t = "vlong" -> VLongB(e.v, e.n) [] e.t = "string" -> StringB(e.v)
                [] OTHER -> <<>>
      n == CASE e.t = "bytes" -> e.n [] e.t = "byte" -> 1 [] e.t = "int" -> 4 [] e.t = "long" -> 8 [] OTHER -> Len(want)
      past == at + n > Len(x.c)
  IN CASE e.t \in {"byte", "bytes", "int", "long", "vint", "vlong", "string"} ->
            IF past THEN C("pastEnd", e.ex = "IO", <<e, x.p, Len(x.c)>>) /\ ins' = Del(ins, e.i)
            ELSE /\ C("reads", e.ex = "" /\ Same(want, Slice(x.c, at, n)), <<e, at, Slice(x.c, at, IF n > 20 THEN 20 ELSE n)>>)
                 /\ IF e.t = "bytes" THEN C("intact", e.intact, e) ELSE TRUE
                 /\ C("position", e.fp = at + n, <<e, at + n>>)
                 /\ ins' = [ins EXCEPT ![e.i].p = at + n]
       [] e.t = "map" ->
            \* its entries come back in no particular order
            LET m == MapBs(e.v) len == 4 + Len(m) IN
            /\ C("map", \E q \in Permutations(1..Len(e.v)) : IntB(Len(e.v)) \o MapBs([i \in 1..Len(e.v) |-> e.v[q[i]]]) = Slice(x.c, at, len), e)
            /\ C("position", e.fp = at + len, <<e, at + len>>)
            /\ ins' = [ins EXCEPT ![e.i].p = at + len]
       [] e.t = "seek" -> C("seek", e.fp = e.v /\ e.ex = "", e) /\ ins' = [ins EXCEPT ![e.i].p = e.v]
       [] e.t = "clone" -> C("clone", e.fp = x.p /\ e.len = Len(x.c), <<e, x.p>>) /\ ins' = Put(ins, e.v, x)
       [] e.t = "buffer" -> C("buffer", e.fp = x.p, <<e, x.p>>) /\ UNCHANGED ins
       [] e.t = "drop" -> ins' = Del(ins, e.i)
       [] OTHER -> C("unexpected", FALSE, e) /\ UNCHANGED ins
DirOp(e) ==
  CASE e.t = "list" -> C("list", ToSet(e.v) = Names(e.d), <<e, Names(e.d)>>) /\ UNCHANGED fs
    [] e.t = "exists" -> C("exists", e.v = Exists(e.d, e.f), e) /\ UNCHANGED fs
    [] e.t = "length" -> (IF Exists(e.d, e.f) THEN C("length", e.ex = "" /\ e.v = Len(fs[Key(e.d, e.f)].c), <<e, Len(fs[Key(e.d, e.f)].c)>>)
                          ELSE C("lengthMissing", IF dir[Target(e.d, e.f)].k \in {"ram", "cfr"} THEN e.ex \in {"FileNotFound", "IO"} ELSE TRUE, e)) /\ UNCHANGED fs
    [] e.t = "delete" -> IF dir[e.d].k = "cfr" THEN C("deleteReadOnly", e.ex = "UnsupportedOperation", e) /\ UNCHANGED fs
                         ELSE IF Exists(e.d, e.f) THEN C("delete", e.ex = "", e) /\ fs' = Del(fs, Key(e.d, e.f))
                         ELSE C("deleteMissing", e.ex \in {"FileNotFound", "IO"}, e) /\ UNCHANGED fs
    [] e.t = "touch" -> C("touch", e.v, e) /\ UNCHANGED fs
    [] e.t = "sync" -> C("sync", e.ex = "", e) /\ UNCHANGED fs
    [] e.t = "copy" -> C("copy", e.ex = "", e) /\ fs' = Copied(e.d, e.v)
    [] e.t = "readonly" -> C("readOnly", e.ex = "UnsupportedOperation", e) /\ UNCHANGED fs
    [] OTHER -> C("unexpected", FALSE, e) /\ UNCHANGED fs
\* compound files: the writer's list, then a file that stands for the files listed
CAdd(e) ==
  LET x == cw
      ex == IF x.done THEN "IllegalState" ELSE IF e.f = "" \/ e.f \in ToSet(x.fs) THEN "IllegalArgument" ELSE ""
  IN C("compoundAdd", e.ex = ex, <<e, ex>>) /\ cw' = (IF ex = "" THEN [x EXCEPT !.fs = Append(@, e.f)] ELSE x)
CClose(e) ==
  LET x == cw
      there == \A i \in 1..Len(x.fs) : Exists(x.d, x.fs[i])
      k == Key(x.d, x.f)
  IN IF x.done \/ x.fs = <<>> THEN C("compoundClosed", e.ex = "IllegalState", e) /\ UNCHANGED <<cw, fs>>
     ELSE IF there THEN /\ C("compoundClose", e.ex = "" /\ e.there, e)
                        /\ cw' = [x EXCEPT !.done = TRUE]
                        /\ fs' = Put(fs, k, [opaque |-> TRUE, c |-> <<>>, e |-> [n \in ToSet(x.fs) |-> fs[Key(x.d, n)].c], sum |-> FALSE])
     ELSE /\ C("compoundMissing", e.ex # "", e)
          /\ cw' = [x EXCEPT !.done = TRUE]
          /\ fs' = IF e.there THEN Put(fs, k, [opaque |-> TRUE, c |-> <<>>, e |-> Empty, sum |-> FALSE]) ELSE IF k \in DOMAIN fs THEN Del(fs, k) ELSE fs
COpen(e) ==
  LET f == fs[<<e.p, e.f>>] new == {<<e.d, n>> : n \in DOMAIN f.e} IN
  /\ dir' = Put(dir, e.d, [k |-> "cfr", p |-> e.p, s |-> 0, ext |-> {}])
  /\ fs' = [k \in DOMAIN fs \cup new |-> IF k \in new THEN Plain(f.e[k[2]]) ELSE fs[k]]
CfrClosed(e) ==
  /\ C("closedTwice", e.e1 # "", e) /\ C("closedStream", e.e2 = "IO", e)
  /\ fs' = [k \in {x \in DOMAIN fs : x[1] # e.d} |-> fs[k]] /\ dir' = Del(dir, e.d)

Step(e) ==
  CASE e.op = "Reset" -> dir' = Empty /\ fs' = Empty /\ outs' = Empty /\ ins' = Empty /\ cw' = [d |-> 0, f |-> "", fs |-> <<>>, done |-> TRUE]
    [] e.op = "Dir" -> NewDir(e)
    [] e.op = "Out" -> Out(e)
    [] e.op = "W" -> W(e)
    [] e.op = "Close" -> Close(e)
    [] e.op = "In" -> In(e)
    [] e.op = "R" -> R(e) /\ UNCHANGED <<dir, fs, outs, cw>>
    [] e.op = "DropIns" -> ins' = [i \in DOMAIN ins \ ToSet(e.i) |-> ins[i]] /\ UNCHANGED <<dir, fs, outs, cw>>
    [] e.op = "D" -> DirOp(e) /\ UNCHANGED <<dir, outs, ins, cw>>
    [] e.op = "CNew" -> cw' = [d |-> e.d, f |-> e.f, fs |-> <<>>, done |-> FALSE] /\ UNCHANGED <<dir, fs, outs, ins>>
    [] e.op = "CAdd" -> CAdd(e) /\ UNCHANGED <<dir, fs, outs, ins>>
    [] e.op = "CClose" -> CClose(e) /\ UNCHANGED <<dir, outs, ins>>
    [] e.op = "COpen" -> COpen(e) /\ UNCHANGED <<outs, ins, cw>>
    [] e.op = "CfrClosed" -> CfrClosed(e) /\ UNCHANGED <<outs, ins, cw>>
    [] e.op = "Sum" -> C("checksum", e.ok = ~e.flip, e) /\ UNCHANGED <<dir, fs, outs, ins, cw>>
    [] e.op = "RamStream" -> LET c == Cat([i \in 1..Len(e.parts) |-> Pattern(e.parts[i][1], e.parts[i][2])])
                             IN C("ramStream", e.v = c /\ e.fp = Len(c), <<Len(e.v), e.fp, Len(c)>>) /\ UNCHANGED <<dir, fs, outs, ins, cw>>
    [] OTHER -> C("unexpectedEvent", FALSE, e) /\ UNCHANGED <<dir, fs, outs, ins, cw>>
Init == l = 1 /\ dir = Empty /\ fs = Empty /\ outs = Empty /\ ins = Empty /\ cw = [d |-> 0, f |-> "", fs |-> <<>>, done |-> TRUE]
Next == l <= TraceLen /\ l' = l + 1 /\ Step(Trace[l])
Spec == Init /\ [][Next]_vars
=============================================================================

----------------------------- MODULE Inversion -----------------------------
(* What indexing a document means: the tokens its fields' values give, with   *)
(* the positions and offsets they get, and what is stored of it.  Terms and   *)
(* fields are numbers in their order; term -1 is too long to be indexed.      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

IKey(f, t) == f * 1000000 + t
KeyF(k) == k \div 1000000
KeyT(k) == k % 1000000

\* one value of a field, on top of the state left by the values before it
Step1(st, t) ==     \* a token <<term, increment, start, end, payload>>
  LET p0 == st.pos + t[2]
      p == IF p0 > 0 THEN p0 - 1 ELSE p0
  IN [st EXCEPT !.pos = p + 1, !.len = @ + 1, !.ov = @ + (IF t[2] = 0 THEN 1 ELSE 0), !.last = t[4],
                !.out = IF t[1] = -1 THEN @ ELSE Append(@, [t |-> t[1], p |-> p, s |-> st.off + t[3], e |-> st.off + t[4], y |-> t[5]])]
Value(st, x, c) ==
  LET st1 == TLCEval([st EXCEPT !.pos = IF st.len > 0 THEN @ + c.gap ELSE @, !.last = 0])
      st2 == TLCEval(IF x.k = "raw"
             THEN [st1 EXCEPT !.out = Append(@, [t |-> x.x, p |-> st1.pos, s |-> st1.off, e |-> st1.off + x.xl, y |-> <<>>]),
                              !.pos = @ + 1, !.len = @ + 1, !.off = @ + x.xl]
             ELSE LET r == FoldLeft(Step1, st1, x.toks) IN [r EXCEPT !.off = @ + r.last])
      any == IF x.k = "raw" THEN x.xl > 0 ELSE st2.len > st1.len
  IN [st2 EXCEPT !.off = IF any THEN @ + c.ogap ELSE @, !.boost = @ + x.b]
Start(b) == [pos |-> 0, len |-> 0, off |-> 0, ov |-> 0, boost |-> b, last |-> 0, out |-> <<>>]

Indexed(fs) == SelectSeq(fs, LAMBDA x : x.k # "none")
Fields(fs) == {fs[i].f : i \in 1..Len(fs)}
\* everything about one document
Invert(fs, b, cfg) ==
  LET ix == Indexed(fs)
      F == Fields(ix)
      per(f) == LET mine == SelectSeq(ix, LAMBDA x : x.f = f)
                    r == TLCEval(FoldLeft(LAMBDA st, x : Value(st, x, cfg[f]), Start(b), mine))
                    tvs == {mine[i].tv : i \in 1..Len(mine)} \ {0}
                IN [toks |-> r.out, len |-> r.len, ov |-> r.ov, pos |-> r.pos, off |-> r.off, boost |-> r.boost,
                    tv |-> tvs # {}, tvp |-> tvs \cap {3, 7} # {}, tvo |-> tvs \cap {5, 7} # {}]
      flds == TLCEval([f \in F |-> per(f)])
  IN [f |-> flds,
      keys |-> UNION {{IKey(f, flds[f].toks[i].t) : i \in 1..Len(flds[f].toks)} : f \in F},
      st |-> SelectSeq(fs, LAMBDA x : x.st),
      all |-> Fields(fs)]
TermsOf(r) == SetToSortSeq({r.toks[i].t : i \in 1..Len(r.toks)}, LAMBDA a, b : a < b)
Occ(r, t) == SelectSeq(r.toks, LAMBDA x : x.t = t)
\* the byte of a norm: some bits of mantissa and an exponent; 2^k is 124 + 4k
NormByte(r) == 124 + 4 * (r.boost + ((r.len * 2 + r.ov) % 7) - 3)
=============================================================================

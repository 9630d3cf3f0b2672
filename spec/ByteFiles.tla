----------------------------- MODULE ByteFiles -----------------------------
(* A directory is a map from names to byte sequences; an output stream is a   *)
(* position in a growing sequence; an input stream is a position in the       *)
(* sequence the file was when it was opened.  The encodings of the typed      *)
(* values are those of the index format.                                      *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Splice(c, p, d) == SubSeq(c, 1, p) \o d \o SubSeq(c, p + Len(d) + 1, Len(c))
Slice(c, p, n) == SubSeq(c, p + 1, p + n)
Pattern(s, n) == [i \in 1..n |-> (s + (i - 1) * 7 + (i - 1) \div 251) % 256]

\* numbers (TLC's integers have 32 bits; \div rounds down)
IntB(v) == <<(v \div 16777216) % 256, (v \div 65536) % 256, (v \div 256) % 256, v % 256>>
RECURSIVE VPos(_)
VPos(v) == IF v < 128 THEN <<v>> ELSE <<(v % 128) + 128>> \o VPos(v \div 128)
VIntB(v) == IF v >= 0 THEN VPos(v) ELSE <<(v % 128) + 128>> \o VPos((v \div 128) % 33554432)
LongB(h, o) == IntB(h) \o IntB(o)
\* the 64 bits, lowest first
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
P2 == [n \in 0..7 |-> Pow2(n)]
Bits(h, o) == LET b == LongB(h, o) IN [i \in 0..69 |-> IF i > 63 THEN 0 ELSE (b[8 - (i \div 8)] \div P2[i % 8]) % 2]
Group(bits, g) == FoldSeq(LAMBDA a, s : a + s, 0, [i \in 1..7 |-> bits[7 * g + i - 1] * P2[i - 1]])
VLongB(h, o) ==
  LET bits == Bits(h, o)
      gs == [g \in 0..9 |-> Group(bits, g)]
      used == {g \in 0..9 : gs[g] # 0}
      top == IF used = {} THEN 0 ELSE CHOOSE g \in used : \A k \in used : k <= g
  IN [i \in 1..top + 1 |-> gs[i - 1] + (IF i - 1 < top THEN 128 ELSE 0)]
\* strings are sequences of code points
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Cat(q) == FoldLeft(LAMBDA a, x : a \o x, <<>>, q)
Utf8All(s) == Cat([i \in 1..Len(s) |-> Utf8(s[i])])
StringB(s) == LET b == Utf8All(s) IN VIntB(Len(b)) \o b
CharsB(s) == Cat([i \in 1..Len(s) |-> IF s[i] = 0 THEN <<192, 128>> ELSE Utf8(s[i])])
\* a map is written as its size and then keys and values alternately
MapB(kv) == IntB(Len(kv) \div 2) \o Cat([i \in 1..Len(kv) |-> StringB(kv[i])])

\* files that belong to an index (others are not copied with it)
IndexFiles == {"_0.fdt", "_1.cfs", "segments_3", "segments.gen", "_2.f7", "_a.s12", "_3.del", "_0.fdx", "_9.cfs"}
Ext(f) == CASE f = "_0.fdt" -> "fdt" [] f \in {"_1.cfs", "_9.cfs"} -> "cfs" [] f = "segments_3" -> "" [] f = "segments.gen" -> "gen"
            [] f = "_2.f7" -> "f7" [] f = "_a.s12" -> "s12" [] f = "notes.txt" -> "txt" [] f = "_3.del" -> "del" [] f = "_0.fdx" -> "fdx"
            [] OTHER -> "?"
=============================================================================

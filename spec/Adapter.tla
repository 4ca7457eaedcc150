------------------------------ MODULE Adapter ------------------------------
(* The helpers that derive one generator interface from another, over a
   generator that hands out a byte stream.  An operation is a program of native
   calls; a native call is [c, n, add]: its name, the number of stream bytes it
   takes, and the additional input it is given.                               *)
EXTENDS Integers, Sequences, SequencesExt, TLC
\* concatenation of a sequence of sequences, by halves
RECURSIVE CatAll(_, _, _)
CatAll(ss, a, z) == IF a > z THEN <<>> ELSE IF a = z THEN ss[a]
                    ELSE LET m == (a + z) \div 2 IN TLCEval(CatAll(ss, a, m)) \o TLCEval(CatAll(ss, m + 1, z))
Call(c, n, add) == [c |-> c, n |-> n, add |-> add]
\* words needed for n bytes: 8-byte words, and one 4-byte word if at most 4 bytes remain
WordsFor(n) == [i \in 1..(n \div 8) |-> 8] \o (IF n % 8 > 4 THEN <<8>> ELSE IF n % 8 > 0 THEN <<4>> ELSE <<>>)
First(add, i) == IF i = 1 THEN add ELSE <<>>
(* native operations of each kind of generator:
   all: u32, u64, fill - words: u32, u64 - u32: u32 only - bytes: fill only    *)
U32(kind, add) == IF kind = "bytes" THEN <<Call("fill", 4, add)>> ELSE <<Call("u32", 4, add)>>
U64(kind, add) == CASE kind = "bytes" -> <<Call("fill", 8, add)>>
                    [] kind = "u32" -> <<Call("u32", 4, add), Call("u32", 4, <<>>)>>
                    [] OTHER -> <<Call("u64", 8, add)>>
Via(kind, n, add) == LET w == TLCEval(WordsFor(n)) IN
   CatAll([i \in 1..Len(w) |-> IF w[i] = 8 THEN U64(kind, First(add, i)) ELSE U32(kind, First(add, i))], 1, Len(w))
FillP(kind, n, add) == IF kind \in {"all", "bytes"} THEN <<Call("fill", n, add)>> ELSE Via(kind, n, add)
Prog(kind, f, n, add) ==
  CASE f = "fill" -> FillP(kind, n, add)
    [] f = "fillvia" -> Via(kind, n, add)
    [] f = "u32" -> U32(kind, add)
    [] f = "u64" -> U64(kind, add)
    [] f = "u32fill" -> FillP(kind, 4, add)
    [] f = "u64fill" -> FillP(kind, 8, add)
    [] f = "u64u32" -> U32(kind, add) \o U32(kind, <<>>)
OutLen(f, n) == CASE f \in {"fill", "fillvia"} -> n [] f \in {"u32", "u32fill"} -> 4 [] OTHER -> 8
Took(calls) == CatAll([i \in 1..Len(calls) |-> calls[i].b], 1, Len(calls))
\* o: what was observed for one operation
OpOk(kind, o) ==
  LET p == TLCEval(Prog(kind, o.f, o.n, o.add))
      bad == {i \in 1..Len(o.calls) : ~o.calls[i].ok}
      took == TLCEval(Took(o.calls))
  IN /\ o.r # "panic"
     /\ Len(o.calls) <= Len(p)
     /\ \A i \in 1..Len(o.calls) : o.calls[i].c = p[i].c /\ o.calls[i].n = p[i].n /\ o.calls[i].add = p[i].add
     /\ o.r = "ok" => bad = {} /\ Len(o.calls) = Len(p) /\ Len(o.b) = OutLen(o.f, o.n) /\ o.b = SubSeq(took, 1, Len(o.b))
     /\ o.r = "err" => bad = {Len(o.calls)}
=============================================================================

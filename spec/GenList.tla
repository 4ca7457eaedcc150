------------------------------ MODULE GenList ------------------------------
(* Histories of list operations, at the bottom and at the top of each capacity.
   An element is named by its number in the pool, 0 being the default element
   of the type; a history is an initial sequence of elements and a word whose
   letters are numbers (add that element) and -1 (encode and decode).          *)
EXTENDS Lists
Starts(cap) == Dedup(<<0, 1, 2, cap-3, cap-2, cap-1, cap, cap+1, cap+5>>)
Words(n) == UNION {[1..k -> {"add", "rt"}] : k \in {n}}
Depth == IF Deep THEN 6 ELSE 4
PoolSize(n) == CapOf(n) + 12
Iota(k) == [i \in 1..k |-> i]
\* fresh elements k+1, k+2, ... for the letters "add" of w
Letters(k, w) == [i \in 1..Len(w) |-> IF w[i] = "rt" THEN -1 ELSE k + Cardinality({j \in 1..i : w[j] = "add"})]
H(n, kind, init, w) == [op |-> "hist", t |-> n, kind |-> kind, init |-> init, w |-> w, pool |-> <<>>]
\* repeated and default elements, first, last and everywhere
Shapes(k) == <<[i \in 1..k |-> 0], [i \in 1..k |-> IF i = k THEN 0 ELSE i], [i \in 1..k |-> IF i = 1 THEN 0 ELSE i], [i \in 1..k |-> 1],
               [i \in 1..k |-> IF i = k THEN 1 ELSE i], [i \in 1..k |-> k + 1 - i], [i \in 1..k |-> IF i = (k \div 2) + 1 THEN 0 ELSE i]>>
Odd == << <<0, -1, 0, -1>>, <<1, 0, -1, 1>>, <<-1, 1, 1, 0, -1, 0>> >>
Hist(x) ==
  LET n == ListTypes[x] cap == CapOf(n) st == TLCEval(SelectSeq(Starts(cap), LAMBDA k : k >= 0)) ws == TLCEval(SetToSeq(Words(Depth))) IN
  <<[op |-> "pool", t |-> n, kind |-> "", init |-> <<>>, w |-> <<>>, pool |-> TLCEval(Pool(n, PoolSize(n)))]>>
  \o Cat([s \in 1..Len(st) |-> Cat([w \in 1..Len(ws) |->
        <<H(n, "new", Iota(st[s]), Letters(st[s], ws[w]))>>
     \o (IF st[s] <= cap /\ w = 1 THEN <<H(n, "decode", Iota(st[s]), Letters(st[s], <<"add", "rt", "add", "add">>))>> ELSE <<>>)])])
  \o [w \in 1..Len(ws) |-> H(n, "default", <<>>, Letters(0, ws[w]))]
  \o Cat([s \in 1..Len(st) |-> Cat([f \in 1..7 |-> LET init == Shapes(st[s])[f] IN
        <<H(n, "new", init, Odd[1 + (f % 3)])>> \o (IF st[s] <= cap THEN <<H(n, "decode", init, Odd[1 + ((f + 1) % 3)])>> ELSE <<>>)])])
  \o [w \in 1..3 |-> H(n, "default", <<>>, Odd[w])]
  \* every length once
  \o (IF Deep \/ cap < 40 THEN [k \in 1..(cap + 3) |-> H(n, "new", Iota(k), <<-1, k + 1>>)] ELSE <<>>)
  \* grown one by one from empty to beyond the capacity
  \o <<H(n, "default", <<>>, Iota(IF cap > 40 /\ ~Deep THEN 40 ELSE cap + 3))>>
ASSUME LET c == TLCEval(Cat([x \in 1..Len(ListTypes) |-> Hist(x)])) IN ndJsonSerialize(IOEnv.VERIF_OUT, c) /\ PrintT(<<"generated", Len(c)>>)
=============================================================================

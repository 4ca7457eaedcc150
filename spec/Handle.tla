------------------------------- MODULE Handle -------------------------------
(* Handle values (Part 2, 7): the most significant byte is the handle type.  A
   32-bit value is <<high 16 bits, low 16 bits>>.  NV attributes (13.4): bits
   4..7 hold the index type.                                                  *)
EXTENDS Integers, Sequences
Sessions == 64                                 \* active sessions supported
Msb(w) == w[1] \div 256
IsNv(w)     == Msb(w) = 1
IsHmac(w)   == w[1] = 512 /\ w[2] < Sessions
IsPolicy(w) == w[1] = 768 /\ w[2] < Sessions
IsPw(w)     == w = <<16384, 9>>
Accepts(f, w) == CASE f \in {"nvindex", "is_nv"} -> IsNv(w)
                   [] f = "is_hmac" -> IsHmac(w)
                   [] f = "is_policy" -> IsPolicy(w)
                   [] f = "authsession" -> IsHmac(w) \/ IsPolicy(w) \/ IsPw(w)
\* the maximal intervals of accepted values
In(f) == CASE f \in {"nvindex", "is_nv"} -> << <<256, 0>>, <<511, 65535>> >>
           [] f = "is_hmac"   -> << <<512, 0>>, <<512, Sessions - 1>> >>
           [] f = "is_policy" -> << <<768, 0>>, <<768, Sessions - 1>> >>
           [] f = "authsession" -> << <<512, 0>>, <<512, Sessions - 1>>, <<768, 0>>, <<768, Sessions - 1>>, <<16384, 9>>, <<16384, 9>> >>
Succ(w) == IF w[2] < 65535 THEN <<w[1], w[2] + 1>> ELSE <<w[1] + 1, 0>>
Pred(w) == IF w[2] > 0 THEN <<w[1], w[2] - 1>> ELSE <<w[1] - 1, 65535>>
Zero == <<0, 0>>
Top == <<65535, 65535>>
\* all maximal intervals <<lo, hi, accepted>> covering 0 .. 2^32-1
Cover(f) == LET s == In(f) n == Len(s) \div 2 IN
  [k \in 1..(2 * n + 1) |->
     IF k % 2 = 0 THEN [lo |-> s[k - 1], hi |-> s[k], in |-> TRUE]
     ELSE [lo |-> IF k = 1 THEN Zero ELSE Succ(s[k - 1]), hi |-> IF k = 2 * n + 1 THEN Top ELSE Pred(s[k]), in |-> FALSE]]

\* NV attributes
GetT(w) == (w[2] \div 16) % 16
SetT(w, t) == <<w[1], (w[2] \div 256) * 256 + (t % 16) * 16 + (w[2] % 16)>>
FromT(t) == <<0, (t % 16) * 16>>
=============================================================================

------------------------------- MODULE Codes -------------------------------
(* TPM 2.0 response codes (Part 2, 6.6): 12 bits.
     bit 7 set  : format one, bits 0..5 the error number, bit 6 P;
                  P set:   bits 8..11 the parameter number
                  P clear: bit 11 session (set) or handle (clear), bits 8..10 its number
     bit 7 clear: format zero, bits 0..6 the error number, bit 8 set for TPM 2.0,
                  bit 10 vendor defined, bit 11 warning.
   Error layers (TSS): bits 12..15 the layer.                                *)
EXTENDS Integers, Sequences, FiniteSets

Bit(v, b) == (v \div (2^b)) % 2
Fmt1(v) == Bit(v, 7) = 1
Warning(v) == Bit(v, 7) = 0 /\ Bit(v, 8) = 1 /\ Bit(v, 11) = 1
None == [k |-> "none", n |-> 0]
Item(v) ==
  IF ~Fmt1(v) THEN None
  ELSE LET p == Bit(v, 6) = 1
           n == IF p THEN (v \div 256) % 16 ELSE (v \div 256) % 8
       IN IF n = 0 THEN None
          ELSE [k |-> IF p THEN "Parameter" ELSE IF Bit(v, 11) = 1 THEN "Session" ELSE "Handle", n |-> n]

\* number a format-one base code
MaxNo(on) == IF on = "Parameter" THEN 15 ELSE 7
Qual(base, on, n) == base + n * 256 + (CASE on = "Parameter" -> 64 [] on = "Session" -> 2048 [] OTHER -> 0)
Base(v) == (v % 64) + 128            \* the unqualified code of a format-one code

Named == [ Asymmetric |-> 128+1, Value |-> 128+4, Size |-> 128+21, Selector |-> 128+24, BadTag |-> 30,
           Initialize |-> 256, Failure |-> 256+1, Sequence |-> 256+3, CommandSize |-> 256+66, CommandCode |-> 256+67,
           ContextGap |-> 2304+1, ObjectMemory |-> 2304+2, SessionMemory |-> 2304+3, Memory |-> 2304+4 ]
LayerNo == [ GeneralFailure |-> 2, BadParameter |-> 3, InternalError |-> 4, OutOfMemory |-> 5, NotImplemented |-> 6,
             KeyAlredyRegistered |-> 8, TpmUnexpected |-> 16, CommFailure |-> 17, Timeout |-> 18, Unsupported |-> 20, Canceled |-> 22 ]
LayerCode(layer, name) == layer * 4096 + LayerNo[name]
LayerOf(v) == v \div 4096
=============================================================================

----------------------------- MODULE ToolBytes -----------------------------
(* Byte strings up to a composable fingerprint <<length, <<h1, h2, h3>>>>:     *)
(* three polynomial hashes, so that the fingerprint of a concatenation follows *)
(* from those of its parts.  Recorded traces give long contents by their       *)
(* fingerprint (harness/tool/toollib.c computes the same); the specification   *)
(* cuts, joins and decodes them by computing with these.                       *)
EXTENDS Integers, Sequences, SequencesExt

P == <<32749, 32719, 32717>>
B == <<263, 1021, 7919>>
Empty == <<0, <<0, 0, 0>>>>

\* b^n mod p; products stay below 2^31
PowMod(b, n, p) ==
  LET \* the bits of n, most significant first
      RECURSIVE bits(_)
      bits(x) == IF x = 0 THEN <<>> ELSE Append(bits(x \div 2), x % 2)
  IN FoldLeft(LAMBDA a, d : LET s == (a * a) % p IN IF d = 1 THEN (s * b) % p ELSE s, 1, bits(n))

Cat(a, b) ==
  IF a[1] = 0 THEN b ELSE IF b[1] = 0 THEN a ELSE
  <<a[1] + b[1], [i \in 1..3 |-> (a[2][i] * PowMod(B[i], b[1], P[i]) + b[2][i]) % P[i]]>>
CatAll(ms) == FoldLeft(Cat, Empty, ms)

OfBytes(s) == <<Len(s), [i \in 1..3 |-> FoldLeft(LAMBDA a, x : (a * B[i] + x + 1) % P[i], 0, s)]>>

\* the native (little endian) 32-bit form of a length
LE32(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
=============================================================================

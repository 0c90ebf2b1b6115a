-------------------------------- MODULE Bits --------------------------------
(* Bit reader over packets.  A packet is a sequence of segments [o, n, h, d]:
   n bytes at offset o, given explicitly (d) or, for opaque tile payload, only
   by a hash h (d = <<>>).  A reader is [s |-> source, p |-> bit position,
   err, h |-> header record under construction]; reads behind the end of the
   source give zeros, as in the decoder, and Over() tells that it happened. *)
EXTENDS Integers, Sequences, SequencesExt, TLC

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072,
          262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864,
          134217728, 268435456, 536870912, 1073741824>>
P2(n) == Pow2[n + 1]
Bit(v, n) == (v \div P2(n)) % 2
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
B2I(b) == IF b THEN 1 ELSE 0
None == <<>>
Some(x) == <<x>>
IsSome(x) == Len(x) = 1
The(x) == x[1]
Clip(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
RECURSIVE Ulog2(_)
Ulog2(v) == IF v < 2 THEN 0 ELSE 1 + Ulog2(v \div 2)
I2 == <<1, 2>>
I7 == <<1, 2, 3, 4, 5, 6, 7>>
I8 == <<1, 2, 3, 4, 5, 6, 7, 8>>
Rng(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
Zeros(n) == [i \in 1..n |-> 0]

(* segment (index) holding byte position a of packet pk *)
SegOf(pk, a) == SelectInSeq(pk, LAMBDA s : a >= s.o /\ a < s.o + s.n)
PkByte(pk, a) == LET k == SegOf(pk, a) IN
                 IF k = 0 THEN 0
                 ELSE IF pk[k].h # "" THEN IF PrintT(<<"NEEDFULL", pk[k].h>>) THEN 0 ELSE 0
                 ELSE pk[k].d[a - pk[k].o + 1]
PkLen(pk) == IF pk = <<>> THEN 0 ELSE pk[Len(pk)].o + pk[Len(pk)].n

(* source: lim bytes starting at byte b of pk, x = whatever the parser needs *)
Src(pk, b, lim, x) ==
    LET k == SegOf(pk, b) IN
    IF k = 0 \/ pk[k].h # "" THEN [pk |-> pk, b |-> b, lim |-> lim, so |-> 0, sn |-> 0, sd |-> <<>>, x |-> x]
    ELSE [pk |-> pk, b |-> b, lim |-> lim, so |-> b - pk[k].o, sn |-> pk[k].n, sd |-> pk[k].d, x |-> x]
Rd(s, p, h) == [s |-> s, p |-> p, err |-> 0, h |-> h]

SByte(s, i) == IF i >= s.lim THEN 0
               ELSE LET a == s.so + i IN IF a < s.sn THEN s.sd[a + 1] ELSE PkByte(s.pk, s.b + i)

(* value of the n <= 16 bits at bit position p *)
Bits16(s, p, n) ==
    LET i == p \div 8  k == (p % 8) + n IN
    IF k <= 8 THEN (SByte(s, i) \div Pow2[9 - k]) % Pow2[n + 1]
    ELSE IF k <= 16 THEN ((SByte(s, i) * 256 + SByte(s, i + 1)) \div Pow2[17 - k]) % Pow2[n + 1]
    ELSE ((SByte(s, i) * 65536 + SByte(s, i + 1) * 256 + SByte(s, i + 2)) \div Pow2[25 - k]) % Pow2[n + 1]
BitsAt(s, p, n) == IF n <= 16 THEN Bits16(s, p, n)
                   ELSE Bits16(s, p, n - 16) * 65536 + Bits16(s, p + n - 16, 16)   \* n <= 30
PairAt(s, p, n) == IF n <= 16 THEN <<0, Bits16(s, p, n)>>
                   ELSE <<Bits16(s, p, n - 16), Bits16(s, p + n - 16, 16)>>

Bits(e, n) == BitsAt(e.s, e.p, n)
B1(e) == BitsAt(e.s, e.p, 1)
Skip(e, n) == [e EXCEPT !.p = @ + n]
Set(e, f, v) == [e EXCEPT !.h[f] = v]
SetI(e, f, i, v) == [e EXCEPT !.h[f][i] = v]
Err(e) == [e EXCEPT !.err = 1]
Over(e) == e.p > 8 * e.s.lim

R(e, f, n) == [e EXCEPT !.h[f] = Bits(e, n), !.p = @ + n]
RC(e, c, f, n) == IF c THEN R(e, f, n) ELSE e
RI(e, f, i, n) == [e EXCEPT !.h[f][i] = Bits(e, n), !.p = @ + n]
RPlus(e, f, n, k) == [e EXCEPT !.h[f] = Bits(e, n) + k, !.p = @ + n]
RPair(e, f, n) == [e EXCEPT !.h[f] = PairAt(e.s, e.p, n), !.p = @ + n]
(* two's complement value of n bits *)
SVal(v, n) == IF v >= P2(n - 1) THEN v - P2(n) ELSE v
SBits(e, n) == SVal(Bits(e, n), n)
(* flag followed by a signed value, else def *)
ROptS(e, f, n, def) == IF B1(e) = 1 THEN [e EXCEPT !.h[f] = SBits(Skip(e, 1), n), !.p = @ + 1 + n]
                       ELSE [e EXCEPT !.h[f] = def, !.p = @ + 1]

Align(e) == [e EXCEPT !.p = ((@ + 7) \div 8) * 8]

(* dav1d_get_uniform: value in 0..max-1, max > 1; returns <<value, bits read>> *)
Uniform(e, max) == LET l == Ulog2(max) + 1
                       m == P2(l) - max
                       v == BitsAt(e.s, e.p, l - 1)
                   IN IF v < m THEN <<v, l - 1>>
                      ELSE <<v * 2 - m + BitsAt(e.s, e.p + l - 1, 1), l>>

(* unsigned leb128 starting at bit p: [v, p, ok]; only values < 2^31 are exact,
   larger legal ones are capped (they always exceed any packet) *)
RECURSIVE UlebFrom(_, _, _, _)
UlebFrom(s, p, i, acc) ==
    LET b == BitsAt(s, p, 8)
        lo == b % 128
        more == b >= 128
        big == 1073741824
        nv == IF i < 4 THEN acc + lo * P2(7 * i)
              ELSE IF lo = 0 \/ acc < 0 THEN acc
              ELSE IF i = 4 /\ lo < 16 THEN IF lo >= 4 THEN big ELSE big \* within 32 bits, larger than any packet
              ELSE -1
    IN IF more THEN IF i = 7 THEN [v |-> 0, p |-> p + 8, ok |-> FALSE] ELSE UlebFrom(s, p + 8, i + 1, nv)
       ELSE IF nv < 0 THEN [v |-> 0, p |-> p + 8, ok |-> FALSE] ELSE [v |-> nv, p |-> p + 8, ok |-> TRUE]
Uleb(s, p) == UlebFrom(s, p, 0, 0)

(* trailing bits: one bit, and in strict mode a 1 followed by zeros up to the end *)
RECURSIVE AllZero(_, _)
AllZero(s, p) == IF p >= 8 * s.lim THEN TRUE
                 ELSE LET n == IF p % 8 = 0 THEN 8 ELSE 8 - (p % 8) IN
                      BitsAt(s, p, n) = 0 /\ AllZero(s, p + n)
Trailing(e, strict) ==
    LET b == B1(e) e1 == Skip(e, 1) IN
    IF Over(e1) \/ (strict /\ ~(b = 1 /\ AllZero(e1.s, e1.p))) THEN Err(e1) ELSE e1
=============================================================================

------------------------------ MODULE Decoders ------------------------------
(* P24: binary, Gray-coded and real-valued decoders over segment layouts.           *)
EXTENDS LeapCommon
RECURSIVE ValOf(_)
ValOf(bits) == IF bits = <<>> THEN 0 ELSE 2 * ValOf(SubSeq(bits, 1, Len(bits) - 1)) + bits[Len(bits)]
\* decoding Gray code: bit k of the result is the parity of the first k bits
RECURSIVE Parity(_)
Parity(s) == IF s = <<>> THEN 0 ELSE (Parity(Tail(s)) + Head(s)) % 2
GrayBits(bits) == [ k \in 1..Len(bits) |-> Parity(SubSeq(bits, 1, k)) ]
Decoded(code, bits) == IF code = "gray" THEN GrayBits(bits) ELSE bits
RECURSIVE Sum1(_, _)
Sum1(lens, k) == IF k = 0 THEN 0 ELSE Sum1(lens, k - 1) + lens[k]
Segment(genome, lens, k) == SubSeq(genome, Sum1(lens, k - 1) + 1, Sum1(lens, k))
\* the integers, as bit sequences, that a genome spells under a layout
Ints(code, genome, lens) == [ k \in 1..Len(lens) |-> Decoded(code, Segment(genome, lens, k)) ]
\* fx is a published real value times 1000 (rounded); lo, hi are bounds times 1000
RealOK(code, bits, lo, hi, fx) ==
    LET top == Pow(2, Len(bits)) - 1 IN
    Abs((fx - lo) * top - ValOf(Decoded(code, bits)) * (hi - lo)) <= top
\* a long segment: its first p decoded bits place the value within one part in 2^p of the range
RealOKPrefix(code, bits, lo, hi, fx, p) ==
    LET v == ValOf(SubSeq(Decoded(code, bits), 1, p))  top == Pow(2, p) IN
    v * (hi - lo) - top <= (fx - lo) * top /\ (fx - lo) * top <= (v + 1) * (hi - lo) + top
------------------------------------------------------------------------------
CONSTANTS MaxBits
VARIABLES n, a
vars == <<n, a>>
Bits(m) == [1..m -> {0, 1}]
BitsOf(v, m) == [ k \in 1..m |-> (v \div Pow(2, m - k)) % 2 ]
Init == n \in 1..MaxBits /\ a \in Bits(n)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
InRange == ValOf(a) \in 0..(Pow(2, n) - 1) /\ ValOf(GrayBits(a)) \in 0..(Pow(2, n) - 1)
Inverse == BitsOf(ValOf(a), n) = a
\* the Gray encoding g of v and of v+1 differ in exactly one bit; decoding inverts it
GrayCodeOf(b) == [ k \in 1..Len(b) |-> IF k = 1 THEN b[1] ELSE (b[k] + b[k - 1]) % 2 ]
GrayInverse == GrayBits(GrayCodeOf(a)) = a /\ GrayCodeOf(GrayBits(a)) = a
GrayAdjacent == LET v == ValOf(a) IN v + 1 < Pow(2, n) =>
    Cardinality({ k \in 1..n : GrayCodeOf(BitsOf(v, n))[k] # GrayCodeOf(BitsOf(v + 1, n))[k] }) = 1
Onto == \A v \in 0..(Pow(2, n) - 1) : \E b \in Bits(n) : ValOf(GrayBits(b)) = v
\* whatever the exact test admits, the test on a prefix admits
PrefixAgrees == \A p \in 1..n, fx \in {-3000, -1857, -1000, 0, 1250, 1286, 5000} : \A c \in {"binary", "gray"} :
    RealOK(c, a, -3000, 5000, fx) => RealOKPrefix(c, a, -3000, 5000, fx, p)
Ends == (\A k \in 1..n : a[k] = 0) => RealOK("binary", a, -3000, 5000, -3000) /\ RealOK("gray", a, -3000, 5000, -3000)
=============================================================================

------------------------------ MODULE TimeGrid ------------------------------
(* Evenly spaced samplings: times, bloch fractions and the midpoints of    *)
(* pairs of grid points.                                                   *)
EXTENDS Cyclo, Json
CONSTANTS MaxN
VARIABLES n, step, off
Init == \/ n \in 1..MaxN /\ step \in 1..4 /\ off \in 0..6
        \/ n \in {8, 13, 32, 50, 101} /\ step \in {1, 5, 12} /\ off \in {0, 7, 41}
Next == FALSE /\ UNCHANGED <<n, step, off>>
NF == n * step
\* sample i is taken off + i * step fundamental intervals after zero
TimeIdx == Arr(n, LAMBDA i : off + i * step)
\* the same samples as positions on the periodic fundamental grid
GridIdx == Arr(n, LAMBDA i : Mod(off + i * step, NF))
\* twice the midpoint, on the shorter arc, of grid points a and b of a ring of
\* m points, as an index on the doubled ring; for opposite points a + b
TwiceMid(m, a, b) == LET d == Abs(a - b) IN
  IF 2 * d > m THEN Mod(a + b + m, 2 * m) ELSE Mod(a + b, 2 * m)
Mids == Arr(NF, LAMBDA a : Arr(NF, LAMBDA b : TwiceMid(NF, a, b)))
Emit == PrintT("@@" \o ToJson([n |-> n, step |-> step, off |-> off, t |-> TimeIdx, g |-> GridIdx,
          mids |-> IF off = 0 /\ NF <= 9 THEN Mids ELSE <<>>]))
----------------------------------------------------------------------------
Distinct == \A i, j \in 1..n : GridIdx[i] = GridIdx[j] => i = j
\* a midpoint is at equal ring distance from both ends
RingD(m, a, b) == LET d == Mod(a - b, m) IN Min2(d, m - d)
MidHalfway == NF <= 9 => \A a, b \in 0..NF - 1 :
  LET c == TwiceMid(NF, a, b) IN
  /\ RingD(2 * NF, c, 2 * a) = RingD(2 * NF, c, 2 * b)
  /\ RingD(2 * NF, c, 2 * a) = RingD(NF, a, b)
=============================================================================

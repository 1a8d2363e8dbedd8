----------------------------- MODULE BasisPipe -----------------------------
(* Histories of conversions.  The state is the current basis and the       *)
(* coefficients in it, as exact cyclotomic integers times nf^(-h/2).       *)
EXTENDS Bases, Json
CONSTANTS Seed, Depth
VARIABLES b, v, h, hist, start
vars == <<b, v, h, hist, start>>
nf == 4
Menu == {LeafLow("x", 4, 4), LeafLow("x", 3, 4), LeafLow("k", 4, 4), LeafLow("k", 3, 4),
         LeafLow("k", 2, 4), LeafEven("k", 2, 2, 1), LeafEven("x", 2, 2, 3),
         LeafEven("x", 4, 1, 1), LeafEven("k", 4, 1, 2)}
Step0(x, y, z) == [b |-> x, v |-> y, h |-> z]
Init == /\ b \in Menu /\ h = 0
        /\ v = Arr(b.n, LAMBDA i : CAdd(CMono(nf, 0, Datum(Seed, i)[1]), CMono(nf, 1, Datum(Seed, i)[2])))
        /\ hist = <<Step0(b, v, h)>> /\ start = [b |-> b, v |-> v]
Convert(c) ==
  /\ b' = c
  /\ v' = Arr(c.n, LAMBDA j : CSumTo(nf, b.n, LAMBDA i :
             LET e == InnerE(c, j, b, i) IN IF e = -1 THEN CZero(nf) ELSE CShift(v[i + 1], e)))
  /\ h' = h + Differ(c, b)
  /\ hist' = Append(hist, Step0(b', v', h'))
  /\ UNCHANGED start
Next == Len(hist) < Depth + 1 /\ \E c \in Menu : Convert(c)
----------------------------------------------------------------------------
\* squared norm as an exact (rational) integer: sum of c * conj(c) has only a
\* rational part here because nf = 4: use Gaussian values
GVal(c) == <<c[1] - c[3], c[2] - c[4]>>
Norm2(vv) == SumTo(Len(vv), LAMBDA i : GAbs2(GVal(vv[i + 1])))
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
\* projecting never increases the norm
NormNeverGrows == Norm2(v) <= Pow(nf, h) * Norm2(start.v)
\* as long as every basis on the way contains the initial one, coming back is lossless
LosslessInsideSpan ==
  (b = start.b /\ \A i \in DOMAIN hist : Spans(start.b, hist[i].b) \/ Complete(hist[i].b)) =>
     \A i \in DOMAIN v : LET f == Pow(2, h) IN GVal(v[i]) = GScale(f, GVal(start.v[i]))
Emit == Len(hist) = Depth + 1 => PrintT("@@" \o ToJson([hist |-> hist]))
=============================================================================

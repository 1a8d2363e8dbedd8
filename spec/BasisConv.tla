----------------------------- MODULE BasisConv -----------------------------
(* Conversion between two bases: one state per ordered pair of bases.      *)
(* The laws below are checked on the specification; Emit prints the        *)
(* conversion matrix of every pair for replay on the real code.            *)
EXTENDS Bases, Json
CONSTANTS NF,      \* fundamental sizes
          MaxOff,  \* evenly spaced bases with offsets -1..MaxOff
          Kind     \* "leaf", "stack", "flat", "explicit"
CONSTANT Seed
VARIABLES b1, b2

Divs(n) == {d \in 1..n : n % d = 0}
Leaves(nf) ==
  {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in 1..nf}
  \cup UNION {{LeafEven(sp, n, nf \div n, off) : sp \in {"x", "k"}, off \in (-1)..MaxOff}
              : n \in Divs(nf)}

\* a thinner choice of leaves for products
Few(nf) ==
  {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in {nf, Max2(nf - 1, 1)}}
  \cup {LeafEven("x", nf, 1, 1 % nf), LeafEven("k", 1, nf, nf - 1)}
  \cup (IF nf = 4 THEN {LeafEven("k", 2, 2, 1), LeafEven("x", 2, 2, 3)} ELSE {})
Shapes == {<<2, 3>>, <<3, 2>>, <<4>>, <<1, 4>>, <<2, 1, 3>>, <<2, 2, 2>>}
Stacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in Few(s[1])}
             ELSE IF Len(s) = 2 THEN {<<x, y>> : x \in Few(s[1]), y \in Few(s[2])}
             ELSE {<<x, y, z>> : x \in Few(s[1]), y \in Few(s[2]), z \in Few(s[3])}
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].n + 3 * b[a].off + 5 * b[a].step
              + (IF b[a].sp = "x" THEN 0 ELSE 7) + (IF b[a].cls = "low" THEN 0 ELSE 11))])
Thin(p, q, m) == Mod(Hash(p) * 5 + Hash(q) * 3 + Seed, m) = 0

Init ==
  CASE Kind = "leaf" -> \E nf \in NF : b1 \in Leaves(nf) /\ b2 \in Leaves(nf)
    [] Kind = "stack" -> \E s \in Shapes : /\ b1 \in Stacks(s) /\ b2 \in Stacks(s)
                                           /\ Thin(b1, b2, IF Len(s) = 3 THEN 97 ELSE 5)
    [] Kind = "flat" -> \E s \in Shapes : /\ b1 \in Stacks(s)
                                          /\ b2 \in {<<LeafLow("x", n, ProdSeq(s))>> : n \in {ProdSeq(s), Max2(1, ProdSeq(s) - 1)}}
                                          /\ (Len(s) = 3 => Thin(b1, b2, 5))
Next == FALSE /\ UNCHANGED <<b1, b2>>

L == 12
Tup(s) == [a \in DOMAIN s |-> s[a]]
Rec ==
  CASE Kind = "leaf" -> [b1 |-> <<b1>>, b2 |-> <<b2>>, L |-> b1.nf, m |-> MatE(b2, b1),
                         scale |-> IF Differ(b2, b1) = 1 THEN b1.nf ELSE 1, flat |-> FALSE]
    [] Kind = "stack" -> [b1 |-> b1, b2 |-> b2, L |-> L, m |-> MatS(L, b2, b1),
                          scale |-> ScaleS(b2, b1), flat |-> FALSE]
    [] Kind = "flat" -> [b1 |-> b1, b2 |-> b2, L |-> L, m |-> MatFlat(L, b2[1], b1),
                         scale |-> ScaleFlat(b1), flat |-> TRUE]
Emit == PrintT("@@" \o ToJson(Rec))

----------------------------------------------------------------------------
\* leaf laws, as identities between cyclotomic integers
Ent(p, j, q, i) == LET e == InnerE(p, j, q, i) IN
                   IF e = -1 THEN CZero(q.nf) ELSE CMono(q.nf, e, 1)
Via(c, j, i) == CSumTo(b1.nf, c.n, LAMBDA m :
                  LET e == InnerE(b2, j, c, m) IN
                  IF e = -1 THEN CZero(b1.nf) ELSE CShift(Ent(c, m, b1, i), e))
Full(sp) == LeafLow(sp, b1.nf, b1.nf)
\* passing through any complete basis changes nothing
TransitiveVia(c) ==
  LET extra == Differ(b2, c) + Differ(c, b1) - Differ(b2, b1) \* 0 or 2
      f == IF extra = 2 THEN b1.nf ELSE 1 IN
  \A j \in 0..b2.n - 1, i \in 0..b1.n - 1 : CEq(Via(c, j, i), CScale(f, Ent(b2, j, b1, i)))
ThroughComplete == Kind = "leaf" => TransitiveVia(Full("x")) /\ TransitiveVia(Full("k"))
\* conversion back is the adjoint
Adjoint == Kind = "leaf" =>
  \A j \in 0..b2.n - 1, i \in 0..b1.n - 1 : Ent(b2, j, b1, i) = CConj(Ent(b1, i, b2, j))
\* nothing is lost when the target spans the source
RoundTrip == (Kind = "leaf" /\ (Spans(b1, b2) \/ Complete(b2))) =>
  \A i, ii \in 0..b1.n - 1 :
    CEq(CSumTo(b1.nf, b2.n, LAMBDA m :
          LET e == InnerE(b1, ii, b2, m) IN
          IF e = -1 THEN CZero(b1.nf) ELSE CShift(Ent(b2, m, b1, i), e)),
        CMono(b1.nf, 0, IF i = ii THEN (IF Differ(b2, b1) = 1 THEN b1.nf ELSE 1) ELSE 0))
\* basis functions are orthonormal
Orthonormal == Kind = "leaf" => \A i, ii \in 0..b1.n - 1 : (InnerE(b1, i, b1, ii) = 0) <=> (i = ii)
=============================================================================

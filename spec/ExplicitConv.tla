--------------------------- MODULE ExplicitConv ---------------------------
(* Explicit bases: |X_i> = sum_m V[i][m] |B_m> over an underlying basis B. *)
(* Emits both conversions between X and another basis as sums of           *)
(* Gaussian-integer multiples of roots of unity.                           *)
EXTENDS Bases, Json
CONSTANTS Seed
VARIABLES base, other, rows, kind
L == 12
Few(nf) == {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in {nf, Max2(nf - 1, 1)}}
           \cup {LeafEven("k", 1, nf, nf - 1)}
Shapes == {<<3>>, <<4>>, <<2, 3>>}
Stacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in Few(s[1])}
             ELSE {<<x, y>> : x \in Few(s[1]), y \in Few(s[2])}
Init == \E s \in Shapes :
          /\ base \in Stacks(s) /\ other \in Stacks(s)
          /\ (Len(s) = 2 => Mod(SumSeq(Shape(base)) + 3 * SumSeq(Shape(other)) + Seed, 2) = 0)
          /\ rows \in {1, NOf(base)}
          /\ kind \in {"int", "unit"}
Next == FALSE /\ UNCHANGED <<base, other, rows, kind>>

N == NOf(base)
\* "int": arbitrary Gaussian-integer rows; "unit": a signed, phased permutation (unitary)
V == [i \in 1..rows |-> [m \in 1..N |->
       IF kind = "int" THEN Datum(Seed + 3 * N, (i - 1) * N + m - 1)
       ELSE IF m = N + 1 - i THEN IPow(i + Seed) ELSE G0]]

\* a term is <<exponent, re, im>>; exponent out of L
Term(e, g) == IF e = -1 \/ g = G0 THEN <<>> ELSE <<<<e, g[1], g[2]>>>>
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
FromX == [j \in 1..NOf(other) |-> [i \in 1..rows |->
            Cat([m \in 1..N |-> Term(InnerS(L, other, j - 1, base, m - 1), V[i][m])], N)]]
IntoX == [i \in 1..rows |-> [j \in 1..NOf(other) |->
            Cat([m \in 1..N |-> Term(InnerS(L, base, m - 1, other, j - 1), GConj(V[i][m]))], N)]]
\* the two directions are adjoint to each other
TermsConj(ts) == {<<Mod(-ts[a][1], L), ts[a][2], -ts[a][3]>> : a \in DOMAIN ts}
TermSet(ts) == {ts[a] : a \in DOMAIN ts}
AdjointLaw == \A i \in 1..rows, j \in 1..NOf(other) : TermSet(IntoX[i][j]) = TermsConj(FromX[j][i])
\* a unit-kind basis with all rows spans its underlying basis
GramInt == (kind = "unit") =>
   \A i, k \in 1..rows : GSumTo(N, LAMBDA m : GMul(V[i][m + 1], GConj(V[k][m + 1]))) = IF i = k THEN G1 ELSE G0
Emit == PrintT("@@" \o ToJson([base |-> base, other |-> other, v |-> V, L |-> L, kind |-> kind,
                               fromx |-> FromX, intox |-> IntoX, scale |-> ScaleS(other, base)]))
=============================================================================

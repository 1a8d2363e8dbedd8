----------------------------- MODULE BasisLarge -----------------------------
(* Conversions on grids far larger than those BasisConv enumerates.  A state *)
(* is one pair of stacks of leaves drawn from Seed; the entries of the       *)
(* conversion are given axis by axis, for all columns of a small axis and    *)
(* for a few columns of a large one.  Sizes are chosen around powers of two, *)
(* primes and round numbers.                                                 *)
EXTENDS Bases, Json
CONSTANTS Seed, Count
VARIABLES b1, b2, k

Sizes(m) == CASE m = 1 -> <<7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 30, 31, 32, 33, 40, 47, 48,
                            49, 50, 60, 63, 64, 65, 80, 96, 99, 100, 101, 120, 127, 128, 129, 144, 150,
                            180, 199, 200, 243, 250, 255, 256, 257, 300>>
              [] m = 2 -> <<5, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18, 21, 25, 32, 33>>
              [] m = 3 -> <<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>
H(i) == LET s == Mod(Seed, 997) a == Mod(i, 9973) IN
        Mod(Mod(a * 7919 + s * 10473 + 12345, 32749) * 24571 + a * 31 + s * 17 + 5, 32749)
Pick(s, h) == s[Mod(h, Len(s)) + 1]
DivSeq(n) == LET RECURSIVE From(_) From(d) == IF d > n THEN <<>> ELSE (IF n % d = 0 THEN <<d>> ELSE <<>>) \o From(d + 1) IN From(1)
Leaf(nf, h) ==
  LET sp == IF h % 2 = 0 THEN "x" ELSE "k"
      ns == <<nf, nf, Max2(1, nf - 1), (nf + 1) \div 2, Max2(1, nf \div 2), Max2(1, nf - nf \div 3), Max2(1, nf \div 7)>>
      st == Pick(DivSeq(nf), h \div 30) IN
  IF (h \div 2) % 3 < 2 THEN LeafLow(sp, Pick(ns, h \div 6), nf)
  ELSE LeafEven(sp, nf \div st, st, Mod(h \div 7, 2 * nf + 3) - nf)
Axes(i) == IF H(i) % 4 < 2 THEN 1 ELSE IF H(i) % 4 = 2 THEN 2 ELSE 3
Init == \E i \in 1..Count :
  LET m == Axes(i)
      nf == [a \in 1..m |-> Pick(Sizes(m), H(i * 10 + a))] IN
  /\ k = i
  /\ b1 = [a \in 1..m |-> Leaf(nf[a], H(i * 100 + a))]
  /\ b2 = [a \in 1..m |-> Leaf(nf[a], H(i * 1000 + a))]
Next == FALSE /\ UNCHANGED <<b1, b2, k>>

\* the columns looked at: all, or the first, the last and some between
Cols(n) == IF n <= 20 THEN Arr(n, LAMBDA i : i)
           ELSE LET S == {0, 1, n \div 3, n \div 2, Mod(H(k + 7), n), n - 2, n - 1} IN
                SelectSeq(Arr(n, LAMBDA i : i), LAMBDA i : i \in S)
Entry(p, q, y, x) == CASE p.sp = q.sp -> IF x = y THEN 0 ELSE -1
                       [] p.sp = "x" /\ q.sp = "k" -> Mod(-x * y, p.nf)
                       [] p.sp = "k" /\ q.sp = "x" -> Mod(x * y, p.nf)
\* columns of the conversion from leaf p to leaf q: tables of exponents
ColumnOf(p, q, i) == LET x == TLCEval(Idx(p)[i + 1])  t == Idx(q) IN
                     TLCEval([j \in 1..q.n |-> Entry(p, q, t[j], x)])
Column(a, i) == ColumnOf(b1[a], b2[a], i)
AxesOf(l1, l2) == [a \in DOMAIN l1 |-> LET c == Cols(l1[a].n) IN
     [cols |-> c, m |-> [x \in DOMAIN c |-> ColumnOf(l1[a], l2[a], c[x])], nf |-> l1[a].nf,
      differ |-> Differ(l2[a], l1[a])]]
Emit == PrintT("@@" \o ToJson([b1 |-> b1, b2 |-> b2, axes |-> AxesOf(b1, b2)]))
----------------------------------------------------------------------------
\* the entries are those of Bases
Same == \A a \in DOMAIN b1 : \A i \in {0, b1[a].n - 1} : \A j \in {0, b2[a].n \div 2, b2[a].n - 1} :
  Column(a, i)[j + 1] = InnerE(b2[a], j, b1[a], i)
\* the conversion back is the adjoint: conjugate exponents
Adjoint == \A a \in DOMAIN b1 : \A i \in {0, b1[a].n \div 2, b1[a].n - 1}, j \in {0, b2[a].n - 1} :
  LET e == InnerE(b2[a], j, b1[a], i) f == InnerE(b1[a], i, b2[a], j) IN
  IF e = -1 THEN f = -1 ELSE Mod(e + f, b1[a].nf) = 0
\* the indices of a basis are distinct points of the fundamental grid
Distinct == \A a \in DOMAIN b1 : LET t == TLCEval(Idx(b1[a])) IN
  /\ \A i \in DOMAIN t : t[i] \in 0..b1[a].nf - 1
  /\ Cardinality({t[i] : i \in DOMAIN t}) = b1[a].n
\* a converted state is a character of the grid: exponents of the momenta k, -k sum to zero
Character == \A a \in DOMAIN b1 : (b1[a].sp = "k" /\ b2[a].sp = "x") =>
  LET c == Column(a, 0) IN Idx(b1[a])[1] = 0 => \A j \in DOMAIN c : c[j] = 0
=============================================================================

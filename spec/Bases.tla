------------------------------- MODULE Bases -------------------------------
(* Basis functions, and what converting between bases means.               *)
(*                                                                         *)
(* A leaf basis has fundamental size nf and spans either position states   *)
(* ("x") or plane waves ("k") of the fundamental grid, selected by an      *)
(* ordered list of indices:                                                *)
(*   |x>  is 1 at grid point x;  |k> is exp(2 pi i k x / nf) / sqrt(nf).   *)
(*   low:   the n indices nearest zero in FFT order 0,1,..,-2,-1           *)
(*   even:  offset + i * step (mod n * step)                               *)
(* A stacked basis is the tensor product of leaves, flattened row-major,   *)
(* last axis fastest.  An explicit basis consists of given linear          *)
(* combinations (rows of V) of an underlying basis.                        *)
(* Converting the coefficients c of |psi> = sum_i c_i |b_i> to basis b'    *)
(* gives c'_j = <b'_j|psi>.                                                *)
EXTENDS Cyclo

Low(n) == Arr(n, LAMBDA i : IF i < (n + 1) \div 2 THEN i ELSE i - n)
Even(n, step, off) == Arr(n, LAMBDA i : Mod(off + i * step, n * step))

\* constructors; cls names the way the real basis is built
LeafLow(sp, n, nf) == [cls |-> "low", sp |-> sp, n |-> n, nf |-> nf, step |-> 1, off |-> 0]
LeafEven(sp, n, step, off) ==
  [cls |-> "even", sp |-> sp, n |-> n, nf |-> n * step, step |-> step, off |-> off]
Idx(b) == IF b.cls = "low" THEN LET t == Low(b.n) IN TLCEval([i \in 1..b.n |-> Mod(t[i], b.nf)])
          ELSE Even(b.n, b.step, b.off)
Complete(b) == b.n = b.nf
Spans(b, c) == b.sp = c.sp /\ {Idx(b)[i] : i \in 1..b.n} \subseteq {Idx(c)[i] : i \in 1..c.n}

\* <b2_j | b1_i> of leaves is zero, or nf^(-h/2) w_nf^e with h = 1 iff the
\* spaces differ.  -1 stands for zero.  (i, j 0-based)
InnerE(b2, j, b1, i) ==
  LET p == Idx(b2)[j + 1]  q == Idx(b1)[i + 1] IN
  CASE b1.sp = b2.sp -> IF p = q THEN 0 ELSE -1
    [] b1.sp = "x" /\ b2.sp = "k" -> Mod(-p * q, b1.nf)
    [] b1.sp = "k" /\ b2.sp = "x" -> Mod(p * q, b1.nf)

\* matrix of exponents of the conversion b1 -> b2
MatE(b2, b1) == Arr(b2.n, LAMBDA j : Arr(b1.n, LAMBDA i : InnerE(b2, j, b1, i)))
Differ(b2, b1) == IF b1.sp = b2.sp THEN 0 ELSE 1

\* ---- stacked bases: sequences of leaves
NOf(ls) == ProdSeq([a \in DOMAIN ls |-> ls[a].n])
NFOf(ls) == ProdSeq([a \in DOMAIN ls |-> ls[a].nf])
\* row-major digits (0-based) of flat index f for a shape
RECURSIVE Digits(_, _)
Digits(shape, f) ==
  IF shape = <<>> THEN <<>>
  ELSE LET rest == ProdSeq(Tail(shape)) IN <<f \div rest>> \o Digits(Tail(shape), f % rest)
RECURSIVE Flat(_, _)
Flat(shape, d) == IF shape = <<>> THEN 0
                  ELSE Head(d) * ProdSeq(Tail(shape)) + Flat(Tail(shape), Tail(d))
Shape(ls) == [a \in DOMAIN ls |-> ls[a].n]
FShape(ls) == [a \in DOMAIN ls |-> ls[a].nf]

\* exponents as multiples of 1/L turns, L a common multiple of all sizes
RECURSIVE SumE(_, _, _, _, _, _)
SumE(L, l2, dj, l1, di, a) ==
  IF a = 0 THEN 0
  ELSE LET e == InnerE(l2[a], dj[a], l1[a], di[a])
           r == SumE(L, l2, dj, l1, di, a - 1)
       IN IF e = -1 \/ r = -1 THEN -1 ELSE Mod(r + e * (L \div l1[a].nf), L)
InnerS(L, l2, j, l1, i) ==
  SumE(L, l2, Digits(Shape(l2), j), l1, Digits(Shape(l1), i), Len(l1))
MatS(L, l2, l1) == Arr(NOf(l2), LAMBDA j : Arr(NOf(l1), LAMBDA i : InnerS(L, l2, j, l1, i)))
\* product of nf over the axes whose spaces differ: entries carry 1/sqrt of it
ScaleS(l2, l1) == ProdSeq([a \in DOMAIN l1 |-> IF l1[a].sp = l2[a].sp THEN 1 ELSE l1[a].nf])

\* a stacked basis against a flat position basis over the flattened grid
InnerFlat(L, fl, x, l1, i) ==
  LET grid == [a \in DOMAIN l1 |-> LeafLow("x", l1[a].nf, l1[a].nf)]
      lowx == [a \in DOMAIN l1 |-> [cls |-> "even", sp |-> "x", n |-> l1[a].nf,
                                    nf |-> l1[a].nf, step |-> 1, off |-> 0]]
  IN InnerS(L, lowx, Idx(fl)[x + 1], l1, i)
MatFlat(L, fl, l1) == Arr(fl.n, LAMBDA x : Arr(NOf(l1), LAMBDA i : InnerFlat(L, fl, x, l1, i)))
ScaleFlat(l1) == ProdSeq([a \in DOMAIN l1 |-> IF l1[a].sp = "x" THEN 1 ELSE l1[a].nf])
=============================================================================

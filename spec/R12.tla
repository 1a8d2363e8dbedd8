-------------------------------- MODULE R12 --------------------------------
(* The ring Z[w], w = exp(2 pi i / 12): contains i = w^3 and all 2nd, 3rd, *)
(* 4th and 6th roots of unity.  An element is its four coefficients in the *)
(* basis 1, w, w^2, w^3 (w^4 = w^2 - 1), so equality of sequences is       *)
(* equality of numbers.  Tensors are flat row-major sequences of elements. *)
EXTENDS Bases
R0 == <<0, 0, 0, 0>>
R1 == <<1, 0, 0, 0>>
RI == <<0, 0, 0, 1>>
RAdd(a, b) == <<a[1] + b[1], a[2] + b[2], a[3] + b[3], a[4] + b[4]>>
RSub(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3], a[4] - b[4]>>
RNeg(a) == <<-a[1], -a[2], -a[3], -a[4]>>
RScale(s, a) == <<s * a[1], s * a[2], s * a[3], s * a[4]>>
RConj(a) == <<a[1] + a[3], a[2], -a[3], -a[2] - a[4]>>
RMul(a, b) ==
  LET d0 == a[1] * b[1]
      d1 == a[1] * b[2] + a[2] * b[1]
      d2 == a[1] * b[3] + a[2] * b[2] + a[3] * b[1]
      d3 == a[1] * b[4] + a[2] * b[3] + a[3] * b[2] + a[4] * b[1]
      d4 == a[2] * b[4] + a[3] * b[3] + a[4] * b[2]
      d5 == a[3] * b[4] + a[4] * b[3]
      d6 == a[4] * b[4]
  IN <<d0 - d4 - d6, d1 - d5, d2 + d4, d3 + d5>>
\* w^e
RW(e) == LET k == Mod(e, 12)
             h == k % 6
             s == IF k < 6 THEN 1 ELSE -1
             base == CASE h = 0 -> <<1, 0, 0, 0>> [] h = 1 -> <<0, 1, 0, 0>>
                       [] h = 2 -> <<0, 0, 1, 0>> [] h = 3 -> <<0, 0, 0, 1>>
                       [] h = 4 -> <<-1, 0, 1, 0>> [] h = 5 -> <<0, -1, 0, 1>>
         IN RScale(s, base)
\* exponent entry of a conversion matrix (-1 is zero)
RE(e) == IF e = -1 THEN R0 ELSE RW(e)
RG(g) == <<g[1], 0, 0, g[2]>>        \* Gaussian integer
RInt(n) == <<n, 0, 0, 0>>
RSumTo(n, F(_)) == LET S[k \in 0..n] == IF k = 0 THEN R0 ELSE RAdd(S[k - 1], F(k - 1)) IN S[n]
RDatum(seed, i) == RG(Datum(seed, i))

\* ---- tensors
RData(seed, n) == TLCEval(Arr(n, LAMBDA i : RDatum(seed, i)))
\* replace digit a of d by v
SetDigit(d, a, v) == [d EXCEPT ![a] = v]
\* contract axis a (1-based) of T with the conversion matrix M (exponents out of 12)
TApply(T, shape, a, M, conj) ==
  LET out == [shape EXCEPT ![a] = Len(M)] src == TLCEval(T) m == TLCEval(M) IN
  TLCEval(Arr(ProdSeq(out), LAMBDA f :
    LET d == Digits(out, f) IN
    RSumTo(shape[a], LAMBDA i :
      LET e == m[d[a] + 1][i + 1] IN
      IF e = -1 THEN R0
      ELSE RMul(IF conj THEN RConj(RW(e)) ELSE RW(e),
                src[Flat(shape, SetDigit(d, a, i)) + 1]))))
\* matrices of elements: sequences of rows
RMat(n, m, F(_, _)) == TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> F(i - 1, j - 1)])])
\* (TLCEval makes TLC compute a matrix once instead of once per use)
RMM(A, B) == LET a == TLCEval(A) b == TLCEval(B) IN
             TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(b[1]) |->
               RSumTo(Len(b), LAMBDA k : RMul(a[i][k + 1], b[k + 1][j]))])])
RAdj(A) == LET a == TLCEval(A) IN
           TLCEval([i \in 1..Len(a[1]) |-> TLCEval([j \in 1..Len(a) |-> RConj(a[j][i])])])
RTrace(A) == RSumTo(Len(A), LAMBDA i : A[i + 1][i + 1])
RFlatten(A) == [f \in 1..(Len(A) * Len(A[1])) |-> A[((f - 1) \div Len(A[1])) + 1][((f - 1) % Len(A[1])) + 1]]
RUnflat(v, n, m) == LET w == TLCEval(v) IN TLCEval([i \in 1..n |-> TLCEval([j \in 1..m |-> w[(i - 1) * m + j]])])
REye(n) == RMat(n, n, LAMBDA i, j : IF i = j THEN R1 ELSE R0)
\* tensor (Kronecker) product
RKron(A, B) == LET a == TLCEval(A) b == TLCEval(B) bn == Len(b) bm == Len(b[1]) IN
  TLCEval([i \in 1..(Len(a) * bn) |-> TLCEval([j \in 1..(Len(a[1]) * bm) |->
     RMul(a[((i - 1) \div bn) + 1][((j - 1) \div bm) + 1], b[((i - 1) % bn) + 1][((j - 1) % bm) + 1])])])
=============================================================================

------------------------------ MODULE Dressed ------------------------------
(* Containers whose legs are in explicit bases: given linear combinations  *)
(* |X_i> = sum_m V[i][m] |B_m> of the states of an underlying stack.  The   *)
(* conversion out of X sends coefficients c to sum_i c_i V[i], the one into *)
(* X takes inner products, so dual legs get the conjugate of each.  V need  *)
(* be neither real nor unitary, and may have as many rows as the grid.     *)
EXTENDS R12, Json
CONSTANTS Seed, Per
VARIABLES kind, p, q, mode, rows, vk

Kinds == <<"state", "dual", "state_list", "operator", "operator_list", "noise_list",
           "diagonal_operator", "diagonal_operator_list", "diagonal_noise_list",
           "probability", "probability_list", "potential", "isotropic", "overlap", "wavepacket">>
Legs(k) ==
  CASE k \in {"state", "probability", "potential", "isotropic"} -> <<"v">>
    [] k = "dual" -> <<"d">>
    [] k \in {"state_list", "probability_list", "wavepacket"} -> <<"-", "v">>
    [] k \in {"operator", "diagonal_operator"} -> <<"v", "d">>
    [] k \in {"operator_list", "noise_list", "diagonal_operator_list", "diagonal_noise_list"} -> <<"-", "v", "d">>
    [] k = "overlap" -> <<"v", "-">>
NLab == 2
Few(nf) == {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in {nf, Max2(nf - 1, 1)}}
Shapes == {<<2>>, <<3>>, <<4>>, <<2, 2>>}
Stacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in Few(s[1])}
             ELSE {<<x, y>> : x \in Few(s[1]), y \in Few(s[2])}
KNo(k) == CHOOSE i \in DOMAIN Kinds : Kinds[i] = k
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].n + (IF b[a].sp = "x" THEN 0 ELSE 7))])
Init ==
  /\ kind \in {Kinds[i] : i \in DOMAIN Kinds}
  /\ \E s \in Shapes : p \in Stacks(s) /\ q \in Stacks(s)
  /\ mode \in {"from", "to", "both", "flip"}
  /\ rows \in {1, NFOf(p)}
  /\ vk \in {"int", "unit"}
  /\ (mode = "flip" => vk = "unit")
  /\ (vk = "unit" => rows <= NOf(p) /\ (mode # "from" => rows <= NOf(q)))
  /\ Mod(Hash(p) + 3 * Hash(q) + KNo(kind) + 2 * rows + (IF vk = "unit" THEN 1 ELSE 0) + Seed, Per) = 0
Next == FALSE /\ UNCHANGED <<kind, p, q, mode, rows, vk>>

Full(s) == NOf(s)
\* "flip": the explicit basis on both sides is the same one, over p, and nothing changes
Rows(seed, n) == TLCEval([i \in 1..rows |-> TLCEval([m \in 1..n |->
   IF vk = "int" THEN RDatum(seed + 3 * n, (i - 1) * n + m - 1)
   ELSE IF m = n + 1 - i THEN RG(IPow(i + seed)) ELSE R0])])
VP == Rows(Seed, NOf(p))
VQ == IF mode = "flip" THEN VP ELSE Rows(Seed + 1, NOf(q))
Tr(A) == LET a == TLCEval(A) IN TLCEval([i \in 1..Len(a[1]) |-> TLCEval([j \in 1..Len(a) |-> a[j][i]])])
Cj(A) == LET a == TLCEval(A) IN TLCEval([i \in 1..Len(a) |-> TLCEval([j \in 1..Len(a[1]) |-> RConj(a[i][j])])])
M0 == LET e == TLCEval(MatS(12, q, p)) IN TLCEval([i \in 1..Len(e) |-> TLCEval([j \in 1..Len(e[1]) |-> RE(e[i][j])])])
Left == IF mode \in {"to", "both"} THEN RMM(Cj(VQ), M0) ELSE M0
M == IF mode = "flip" THEN REye(rows)
     ELSE IF mode \in {"from", "both"} THEN RMM(Left, Tr(VP)) ELSE Left
Src == IF mode = "to" THEN NOf(p) ELSE rows
Dst == IF mode = "from" THEN NOf(q) ELSE rows

InShape == [a \in DOMAIN Legs(kind) |-> IF Legs(kind)[a] = "-" THEN NLab ELSE Src]
Diag == kind \in {"diagonal_operator", "diagonal_operator_list", "diagonal_noise_list"}
RawShape == IF ~Diag THEN InShape ELSE IF kind = "diagonal_operator" THEN <<Src>> ELSE <<NLab, Src>>
Raw == RData(Seed + Hash(p) + 2, ProdSeq(RawShape))
T0 == IF ~Diag THEN Raw
      ELSE LET raw == TLCEval(Raw) IN TLCEval(Arr(ProdSeq(InShape), LAMBDA f :
             LET d == Digits(InShape, f) k == Len(d) IN
             IF d[k] # d[k - 1] THEN R0
             ELSE raw[(IF k = 2 THEN d[1] ELSE d[1] * Src + d[2]) + 1]))
Contract(T, shape, a, Mat, conj) ==
  LET out == [shape EXCEPT ![a] = Len(Mat)] src == TLCEval(T) m == TLCEval(Mat) IN
  TLCEval(Arr(ProdSeq(out), LAMBDA f :
    LET d == Digits(out, f) IN
    RSumTo(shape[a], LAMBDA i :
      LET e == m[d[a] + 1][i + 1] IN
      IF e = R0 THEN R0
      ELSE RMul(IF conj THEN RConj(e) ELSE e, src[Flat(shape, SetDigit(d, a, i)) + 1]))))
RECURSIVE Go(_, _, _)
Go(T, shape, a) ==
  IF a > Len(shape) THEN [T |-> T, shape |-> shape]
  ELSE IF Legs(kind)[a] = "-" THEN Go(T, shape, a + 1)
  ELSE Go(Contract(T, shape, a, M, Legs(kind)[a] = "d"), [shape EXCEPT ![a] = Dst], a + 1)
Res == Go(T0, InShape, 1)
Count(k, x) == Cardinality({a \in DOMAIN Legs(k) : Legs(k)[a] = x})
Scale == IF mode = "flip" THEN 1
         ELSE LET s == ScaleS(q, p) IN IF Count(kind, "d") + Count(kind, "v") = 2 THEN s * s ELSE s
Emit == PrintT("@@" \o ToJson([kind |-> kind, p |-> p, q |-> q, mode |-> mode, vp |-> VP, vq |-> VQ, raw |-> Raw,
          rawshape |-> RawShape, out |-> Res.T, outshape |-> Res.shape, scale |-> Scale]))
----------------------------------------------------------------------------
\* the pairing of a dual with a state written in the same explicit basis is that of the vectors
Pairing ==
  (kind = "dual" /\ mode = "from" /\ \A a \in DOMAIN q : Complete(q[a])) =>
     LET psi == RData(Seed + 9, Src)
         raw == TLCEval(T0)
         new == Contract(psi, <<Src>>, 1, M, FALSE)
         dual == TLCEval(Res.T)
         gram == RMM(Cj(VP), Tr(VP))
     IN RSumTo(Dst, LAMBDA k : RMul(dual[k + 1], new[k + 1]))
          = RScale(Scale, RSumTo(Src, LAMBDA i : RSumTo(Src, LAMBDA j :
               RMul(raw[i + 1], RMul(gram[i + 1][j + 1], psi[j + 1])))))
\* orthonormal rows keep norms when the grid is complete
Isometric ==
  (vk = "unit" /\ mode = "from" /\ \A a \in DOMAIN q : Complete(q[a])) =>
     RMM(RAdj(M), M) = [i \in 1..rows |-> [j \in 1..rows |-> IF i = j THEN RInt(ScaleS(q, p)) ELSE R0]]
=============================================================================

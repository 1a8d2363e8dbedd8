---------------------------- MODULE Containers ----------------------------
(* How every typed container of the library transforms when its basis is   *)
(* changed.  A container is a tensor whose legs are vectors ("v", which     *)
(* transform with the conversion matrix), duals ("d", with its conjugate)  *)
(* or labels ("-", untouched).  One state per container kind and pair of   *)
(* stacked bases; TLC computes the transformed tensor exactly.             *)
EXTENDS R12, Json
CONSTANTS Seed, Per
VARIABLES kind, p, q, p2, q2

Kinds == {"state", "dual", "state_list", "operator", "operator_list", "noise_list",
          "diagonal_operator", "diagonal_operator_list", "diagonal_noise_list",
          "probability", "probability_list", "potential", "isotropic", "overlap",
          "wavepacket", "wavepacket_eig"}
Legs(k) ==
  CASE k \in {"state", "probability", "potential", "isotropic"} -> <<"v">>
    [] k = "dual" -> <<"d">>
    [] k \in {"state_list", "probability_list"} -> <<"-", "v">>
    [] k \in {"operator", "diagonal_operator"} -> <<"v", "d">>
    [] k \in {"operator_list", "noise_list", "diagonal_operator_list", "diagonal_noise_list"} -> <<"-", "v", "d">>
    [] k = "overlap" -> <<"v", "-">>
    [] k = "wavepacket" -> <<"w", "v">>            \* the list axis converts too
    [] k = "wavepacket_eig" -> <<"-", "w", "v">>
NLab == 3

Few(nf) ==
  {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in {nf, Max2(nf - 1, 1)}}
  \cup {LeafEven("k", 1, nf, nf - 1)}
  \cup (IF nf = 4 THEN {LeafEven("k", 2, 2, 1)} ELSE {})
Shapes == {<<3>>, <<4>>, <<2, 2>>, <<2, 3>>, <<3, 1, 2>>}
Stacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in Few(s[1])}
             ELSE IF Len(s) = 2 THEN {<<x, y>> : x \in Few(s[1]), y \in Few(s[2])}
             ELSE {<<x, y, z>> : x \in Few(s[1]), y \in Few(s[2]), z \in Few(s[3])}
ListShapes == {<<2>>, <<3>>}
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].n + 3 * b[a].off + 5 * b[a].step
              + (IF b[a].sp = "x" THEN 0 ELSE 7) + (IF b[a].cls = "low" THEN 0 ELSE 11))])
KNo(k) == CHOOSE i \in 1..Cardinality(Kinds) : \E f \in {<<"state", "dual", "state_list", "operator", "operator_list",
   "noise_list", "diagonal_operator", "diagonal_operator_list", "diagonal_noise_list", "probability",
   "probability_list", "potential", "isotropic", "overlap", "wavepacket", "wavepacket_eig">>} : f[i] = k
Width(s) == CASE Len(s) = 1 -> 1 [] Len(s) = 2 -> 9 [] Len(s) = 3 -> 61
Two == {"operator", "operator_list", "noise_list", "diagonal_operator", "diagonal_operator_list",
        "diagonal_noise_list", "wavepacket", "wavepacket_eig"}
Init ==
  /\ kind \in Kinds
  /\ \E s \in Shapes :
       /\ p \in Stacks(s) /\ q \in Stacks(s)
       /\ Mod(5 * Hash(p) + 3 * Hash(q) + Seed + KNo(kind), Per * Width(s)) = 0
       /\ IF kind \in {"operator", "operator_list", "noise_list"} /\ Mod(Hash(p) + Seed, 3) = 0
          THEN \E s2 \in {<<2>>, <<3>>, <<2, 2>>} :
                 /\ p2 \in Stacks(s2) /\ q2 \in Stacks(s2)
                 /\ Mod(5 * Hash(p2) + 3 * Hash(q2) + Hash(p) + Seed, 17 * Width(s2)) = 0
          ELSE IF kind \in {"wavepacket", "wavepacket_eig"}
          THEN \E n \in {2, 3} : /\ p2 \in {<<LeafLow("x", n, n)>>, <<LeafLow("k", n, n)>>}
                                 /\ q2 \in {<<LeafLow("x", n, n)>>, <<LeafLow("k", n, n)>>, <<LeafLow("k", n - 1, n)>>}
                                 /\ Mod(Hash(p) + Hash(q) + Hash(p2) + 2 * Hash(q2) + Seed, 5) = 0
          ELSE p2 = p /\ q2 = q
Next == FALSE /\ UNCHANGED <<kind, p, q, p2, q2>>

M == MatS(12, q, p)
M2 == MatS(12, q2, p2)
InShape ==
  LET l == Legs(kind) IN
  [a \in DOMAIN l |-> CASE l[a] = "-" -> NLab
                        [] l[a] = "v" -> NOf(p)
                        [] l[a] = "w" -> NOf(p2)
                        [] l[a] = "d" -> IF Len(l) = 1 THEN NOf(p) ELSE NOf(p2)]
\* diagonal containers hold only the diagonal
Diag == kind \in {"diagonal_operator", "diagonal_operator_list", "diagonal_noise_list"}
RawShape == IF ~Diag THEN InShape ELSE IF kind = "diagonal_operator" THEN <<NOf(p)>> ELSE <<NLab, NOf(p)>>
Raw == RData(Seed + Hash(p), ProdSeq(RawShape))
T0 == IF ~Diag THEN Raw
      ELSE Arr(ProdSeq(InShape), LAMBDA f :
             LET d == Digits(InShape, f) k == Len(d) IN
             IF d[k] # d[k - 1] THEN R0
             ELSE Raw[(IF k = 2 THEN d[1] ELSE d[1] * NOf(p) + d[2]) + 1])
RECURSIVE Go(_, _, _)
Go(T, shape, a) ==
  IF a > Len(shape) THEN [T |-> T, shape |-> shape]
  ELSE LET l == Legs(kind)[a] IN
       IF l = "-" THEN Go(T, shape, a + 1)
       ELSE LET m == IF l = "v" THEN M ELSE IF l = "w" THEN M2
                     ELSE IF Len(shape) = 1 THEN M ELSE M2
            IN Go(TApply(T, shape, a, m, l = "d"), [shape EXCEPT ![a] = Len(m)], a + 1)
Res == Go(T0, InShape, 1)
Scale == LET l == Legs(kind) IN
  ProdSeq([a \in DOMAIN l |-> CASE l[a] = "-" -> 1 [] l[a] = "v" -> ScaleS(q, p)
             [] l[a] = "w" -> ScaleS(q2, p2)
             [] l[a] = "d" -> IF Len(l) = 1 THEN ScaleS(q, p) ELSE ScaleS(q2, p2)])
\* the eigenvalues stored with a wavepacket follow its list axis
Eig == RData(Seed + 1, NLab * NOf(p2))
EigRes == TApply(Eig, <<NLab, NOf(p2)>>, 2, M2, FALSE)

Emit == PrintT("@@" \o ToJson([kind |-> kind, p |-> p, q |-> q, p2 |-> p2, q2 |-> q2, raw |-> Raw,
          rawshape |-> RawShape, out |-> Res.T, outshape |-> Res.shape, scale |-> Scale,
          eig |-> IF kind = "wavepacket_eig" THEN Eig ELSE <<>>,
          eigout |-> IF kind = "wavepacket_eig" THEN EigRes ELSE <<>>,
          eigscale |-> ScaleS(q2, p2)]))
----------------------------------------------------------------------------
\* the trace of an operator survives a change to a complete basis
TraceInvariant ==
  (kind \in {"operator", "diagonal_operator"} /\ p2 = p /\ q2 = q /\ \A a \in DOMAIN q : Complete(q[a])) =>
     LET n == NOf(q) IN
     RTrace(RUnflat(Res.T, n, n)) = RScale(ScaleS(q, p), RTrace(RUnflat(T0, NOf(p), NOf(p))))
\* operators act covariantly: (A psi)' = A' psi' when the domain basis is complete
Covariant ==
  (kind = "operator" /\ \A a \in DOMAIN q2 : Complete(q2[a])) =>
     LET psi == RData(Seed + 5, NOf(p2))
         Apsi == [i \in 1..NOf(p) |-> RSumTo(NOf(p2), LAMBDA k : RMul(T0[(i - 1) * NOf(p2) + k + 1], psi[k + 1]))]
         lhs == TApply(Apsi, <<NOf(p)>>, 1, M, FALSE)
         psi2 == TApply(psi, <<NOf(p2)>>, 1, M2, FALSE)
         rhs == [i \in 1..NOf(q) |-> RSumTo(NOf(q2), LAMBDA k : RMul(Res.T[(i - 1) * NOf(q2) + k + 1], psi2[k + 1]))]
     IN rhs = [i \in DOMAIN lhs |-> RScale(ScaleS(q2, p2), lhs[i])]
\* a dual pairs with a state independently of the basis
Pairing ==
  (kind = "dual" /\ \A a \in DOMAIN q : Complete(q[a])) =>
     LET psi == RData(Seed + 5, NOf(p))
         psi2 == TApply(psi, <<NOf(p)>>, 1, M, FALSE)
     IN RSumTo(NOf(q), LAMBDA k : RMul(Res.T[k + 1], psi2[k + 1]))
          = RScale(Scale, RSumTo(NOf(p), LAMBDA k : RMul(T0[k + 1], psi[k + 1])))
=============================================================================

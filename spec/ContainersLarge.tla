-------------------------- MODULE ContainersLarge --------------------------
(* The containers of Containers.tla over bases of the sizes of BasisLarge:  *)
(* one state per drawn pair of bases and kind of container.  The legs of a  *)
(* container and the columns of their conversions determine its image.      *)
EXTENDS BasisLarge
VARIABLES kind, w1, w2

KindSeq == <<"state", "dual", "state_list", "operator", "operator_list", "noise_list",
   "diagonal_operator", "diagonal_operator_list", "diagonal_noise_list", "probability",
   "probability_list", "potential", "isotropic", "overlap", "wavepacket", "wavepacket_eig">>
Legs(k0) ==
  CASE k0 \in {"state", "probability", "potential", "isotropic"} -> <<"v">>
    [] k0 = "dual" -> <<"d">>
    [] k0 \in {"state_list", "probability_list"} -> <<"-", "v">>
    [] k0 \in {"operator", "diagonal_operator"} -> <<"v", "d">>
    [] k0 \in {"operator_list", "noise_list", "diagonal_operator_list", "diagonal_noise_list"} -> <<"-", "v", "d">>
    [] k0 = "overlap" -> <<"v", "-">>
    [] k0 = "wavepacket" -> <<"w", "v">>
    [] k0 = "wavepacket_eig" -> <<"-", "w", "v">>
Two == {"operator", "operator_list", "noise_list", "diagonal_operator", "diagonal_operator_list", "diagonal_noise_list"}
InitC == /\ Init
         /\ kind = Pick(KindSeq, k)
         /\ LET n == Pick(<<7, 8, 9, 10, 12, 15, 16, 17, 24>>, H(k + 300)) IN
            /\ w1 = IF H(k + 400) % 2 = 0 THEN LeafLow("x", n, n) ELSE LeafLow("k", n, n)
            /\ w2 = Pick(<<LeafLow("x", n, n), LeafLow("k", n, n), LeafLow("k", n - 1, n)>>, H(k + 500))
         \* operators hold the square of the size of a basis
         /\ kind \in Two => (NOf(b1) <= 200 /\ NOf(b2) <= 200)
NextC == FALSE /\ UNCHANGED <<b1, b2, k, kind, w1, w2>>
EmitC == PrintT("@@" \o ToJson([kind |-> kind, legs |-> Legs(kind), p |-> b1, q |-> b2, axes |-> AxesOf(b1, b2),
                                w1 |-> <<w1>>, w2 |-> <<w2>>, waxes |-> AxesOf(<<w1>>, <<w2>>)]))
=============================================================================

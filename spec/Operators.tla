----------------------------- MODULE Operators -----------------------------
(* The algebra of operators, whatever bases their legs are written in.     *)
(* An operator is a matrix between two stacked bases over one grid; when   *)
(* two operands meet in different bases the right one is re-expressed.     *)
(* A result is a list of parts [m |-> matrix, s |-> scale]: the sum of     *)
(* m / sqrt(s).                                                            *)
(*  o1..o3   operand matrices (lists of NL of them for the list kinds)     *)
(*  bases    <<p, q, u, v>>: the operands are (p,q) and (u,v) unless noted *)
(* Functions of operators: A = sum_d d E_d with exact projectors E_d,      *)
(* so f(A) = sum_d f(d) E_d.                                               *)
EXTENDS R12, Json
CONSTANTS Seed, Per, MaxN
VARIABLES kind, p, q, u, v, ready
vars == <<kind, p, q, u, v>>

Few(nf) ==
  {LeafLow(sp, n, nf) : sp \in {"x", "k"}, n \in {nf, Max2(nf - 1, 1)}}
  \cup {LeafEven("k", 1, nf, nf - 1)}
  \cup (IF nf = 4 THEN {LeafEven("k", 2, 2, 1)} ELSE {})
Shapes == {<<3>>, <<4>>, <<2, 2>>} \cup (IF MaxN >= 6 THEN {<<2, 3>>} ELSE {})
Stacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in Few(s[1])}
             ELSE {<<x, y>> : x \in Few(s[1]), y \in Few(s[2])}
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].n + 3 * b[a].off + 5 * b[a].step
              + (IF b[a].sp = "x" THEN 0 ELSE 7) + (IF b[a].cls = "low" THEN 0 ELSE 11))])
Names == <<"matmul", "add", "subtract", "commutator", "anticommutator", "list_op", "op_list", "diag_list_op",
   "op_diag_list", "add_list", "subtract_list", "commutator_list", "commutator_diag_list", "apply", "apply_list",
   "scale">>
Kinds == {Names[i] : i \in DOMAIN Names}
KNo(k) == CHOOSE i \in DOMAIN Names : Names[i] = k
Spectral == {"function", "hermitian"}
Grid(n) == <<LeafLow("x", n, n)>>
Square == {"commutator", "anticommutator", "scale", "commutator_list", "commutator_diag_list"}
\* larger grids, drawn from Seed: with waves when the sizes divide twelve, positions otherwise
WideSeq == <<<<12>>, <<4, 3>>, <<9>>, <<6>>, <<16>>, <<2, 6>>, <<7>>, <<5, 3>>, <<8>>, <<11>>, <<2, 7>>>>
WFew(nf) == IF 12 % nf = 0 THEN {LeafLow("x", nf, nf), LeafLow("k", nf, nf), LeafLow("k", Max2(nf - 1, 1), nf)}
            ELSE {LeafLow("x", nf, nf), LeafLow("x", nf - 1, nf)}
WStacks(s) == IF Len(s) = 1 THEN {<<x>> : x \in WFew(s[1])}
              ELSE {<<x, y>> : x \in WFew(s[1]), y \in WFew(s[2])}
RECURSIVE ASeq(_)
ASeq(X) == IF X = {} THEN <<>> ELSE LET x == TLCEval(CHOOSE x \in X : TRUE) IN <<x>> \o ASeq(TLCEval(X \ {x}))
Draw(s, h) == LET x == TLCEval(ASeq(WStacks(s))) IN x[Mod(h, Len(x)) + 1]
Init ==
  /\ ready = FALSE
  /\ \/ /\ kind \in Kinds
        /\ \E s \in Shapes :
          /\ p \in Stacks(s)
          /\ q \in (IF kind \in Square THEN {p} ELSE Stacks(s))
          /\ Mod(5 * Hash(p) + 3 * Hash(q) + Seed + KNo(kind),
                 IF kind \in Square THEN (IF Len(s) = 1 THEN 1 ELSE 3)
                 ELSE IF Len(s) = 1 THEN 5 ELSE 53) = 0
          /\ u \in (CASE kind \in {"matmul"} -> {q}
                     [] kind \in {"add", "subtract", "commutator", "anticommutator", "scale"} -> {p}
                     [] OTHER -> Stacks(s))
          /\ v \in (CASE kind \in {"add", "subtract"} -> {q}
                     [] kind \in {"commutator", "anticommutator", "scale"} -> {p}
                     [] kind \in {"commutator_list", "commutator_diag_list", "apply", "apply_list"} -> {u}
                     [] OTHER -> Stacks(s))
          /\ kind = "diag_list_op" => NOf(p) = NOf(q)
          /\ kind = "op_diag_list" => NOf(u) = NOf(v)
          /\ Mod(5 * Hash(p) + 3 * Hash(q) + 11 * Hash(u) + 2 * Hash(v) + Seed + KNo(kind),
               CASE kind \in {"add", "subtract", "commutator", "anticommutator", "scale"} -> 1
                 [] kind \in {"matmul", "apply", "apply_list", "commutator_list", "commutator_diag_list"} ->
                      Per * (IF Len(s) = 1 THEN 1 ELSE 7)
                 [] OTHER -> Per * (IF Len(s) = 1 THEN 3 ELSE 47)) = 0
     \/ /\ kind \in Kinds
        /\ \E r \in 1..(IF MaxN >= 6 THEN 6 ELSE 2) :
             LET h == Mod(Seed, 9973) * 37 + KNo(kind) * 13 + r * 101
                 s == WideSeq[Mod(h \div 2, Len(WideSeq)) + 1] IN
             /\ p = Draw(s, h)
             /\ q = (IF kind \in Square THEN p ELSE Draw(s, h \div 3))
             /\ u = (CASE kind = "matmul" -> q [] kind \in {"add", "subtract", "commutator", "anticommutator", "scale"} -> p
                       [] OTHER -> Draw(s, h \div 5))
             /\ v = (CASE kind \in {"add", "subtract"} -> q [] kind \in {"commutator", "anticommutator", "scale"} -> p
                       [] kind \in {"commutator_list", "commutator_diag_list", "apply", "apply_list"} -> u
                       [] OTHER -> Draw(s, h \div 7))
             /\ kind = "diag_list_op" => NOf(p) = NOf(q)
             /\ kind = "op_diag_list" => NOf(u) = NOf(v)
     \/ /\ kind \in Spectral
        /\ \E n \in {2, 3, 4, 6, 7}, a \in -1..2, b \in 0..3 :
             /\ n > 4 => (Mod(a + 2 * b + Seed, 4) = 0 /\ (kind = "hermitian" => 12 % n = 0))
             /\ p = Grid(n) /\ q = [i \in 1..3 |-> LeafLow("x", a + 2, 9)]
             /\ u = [i \in 1..3 |-> LeafLow("x", b + 1, 9)] /\ v = u
Next == ~ready /\ ready' = TRUE /\ UNCHANGED vars

NL == 2
List == kind \in {"list_op", "op_list", "diag_list_op", "op_diag_list", "add_list", "subtract_list",
                  "commutator_list", "commutator_diag_list"}
\* operand (b1, b2), list member i
Dat(t, i, b1, b2) == RUnflat(RData(Seed + 13 * t + 5 * i + Hash(b1), NOf(b1) * NOf(b2)), NOf(b1), NOf(b2))
Diag(t, i, b1) == RMat(NOf(b1), NOf(b1), LAMBDA r, c : IF r = c THEN RDatum(Seed + 17 * t + 3 * i, r) ELSE R0)
Cv(b2, b1) == LET m == TLCEval(MatS(12, b2, b1)) IN TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m[i] |-> RE(m[i][j])])])
S(b2, b1) == ScaleS(b2, b1)
Plus(A, B) == LET a == TLCEval(A) b == TLCEval(B) IN TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> RAdd(a[i][j], b[i][j])])])
Minus(A, B) == LET a == TLCEval(A) b == TLCEval(B) IN TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> RSub(a[i][j], b[i][j])])])
Times(c0, A) == LET a == TLCEval(A) c == TLCEval(c0) IN TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> RMul(c, a[i][j])])])
Neg(A) == LET a == TLCEval(A) IN TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> RNeg(a[i][j])])])
Zero(A) == [i \in DOMAIN A |-> [j \in DOMAIN A[i] |-> R0]]
Part(m, s) == [m |-> m, s |-> s]
\* A of (u,v) written in (p,q)
Into(p1, q1, A, u1, v1) == Part(RMM(Cv(p1, u1), RMM(A, Cv(v1, q1))), S(p1, u1) * S(v1, q1))

\* operands of member i (the operand that is not a list ignores i)
LhsList == kind \in {"list_op", "diag_list_op", "add_list", "subtract_list"}
A(i) == IF kind = "diag_list_op" THEN Diag(1, i, p) ELSE Dat(1, IF LhsList THEN i ELSE 0, p, q)
B(i) == CASE kind \in {"op_diag_list", "commutator_diag_list"} -> Diag(2, i, u)
          [] kind \in {"apply", "apply_list"} ->
               RUnflat(RData(Seed + 7 * i + Hash(u), NOf(u)), NOf(u), 1)
          [] OTHER -> Dat(2, IF List /\ kind \notin {"list_op", "diag_list_op"} THEN i ELSE 0, u, v)
Factor == RG(Datum(Seed, 3))
OutBasis == CASE kind \in {"matmul", "list_op", "op_list", "diag_list_op", "op_diag_list"} -> <<p, v>>
              [] kind \in {"add", "subtract", "commutator", "anticommutator", "add_list", "subtract_list", "scale"} -> <<p, q>>
              [] kind = "commutator_list" -> <<p, p>>
              [] kind = "commutator_diag_list" -> <<p, u>>
              [] kind \in {"apply", "apply_list"} -> <<p, p>>
Parts(i) ==
  CASE kind = "matmul" -> <<Part(RMM(A(i), B(i)), 1)>>
    [] kind = "add" -> <<Part(Plus(A(i), B(i)), 1)>>
    [] kind = "subtract" -> <<Part(Minus(A(i), B(i)), 1)>>
    [] kind = "commutator" -> <<Part(Minus(RMM(A(i), B(i)), RMM(B(i), A(i))), 1)>>
    [] kind = "anticommutator" -> <<Part(Plus(RMM(A(i), B(i)), RMM(B(i), A(i))), 1)>>
    [] kind = "scale" -> <<Part(Times(Factor, A(i)), 1)>>
    [] kind \in {"list_op", "op_list", "diag_list_op", "op_diag_list"} ->
         <<Part(RMM(A(i), RMM(Cv(q, u), B(i))), S(q, u))>>
    [] kind = "add_list" -> <<Part(A(i), 1), Into(p, q, B(i), u, v)>>
    [] kind = "subtract_list" -> LET t == Into(p, q, B(i), u, v) IN <<Part(A(i), 1), Part(Neg(t.m), t.s)>>
    [] kind = "commutator_list" ->
         LET t == Into(p, p, B(i), u, u) IN <<Part(Minus(RMM(A(i), t.m), RMM(t.m, A(i))), t.s)>>
    [] kind = "commutator_diag_list" ->
         \* A D in (p,u) minus D A in (u,p), the latter re-expressed
         LET down == Part(RMM(B(i), RMM(Cv(u, p), A(i))), S(u, p))
             t == Into(p, u, down.m, u, p)
         IN <<Part(RMM(A(i), RMM(Cv(p, u), B(i))), S(p, u)), Part(Neg(t.m), t.s * down.s)>>
    [] kind \in {"apply", "apply_list"} -> <<Part(RMM(A(i), RMM(Cv(q, u), B(i))), S(q, u))>>
Members == IF List \/ kind = "apply_list" THEN Arr(NL, Parts) ELSE <<Parts(0)>>

\* ---- spectral decompositions
N == NOf(p)
Ca == q[1].n - 2       Cb == u[1].n - 1
Elem(i, j, g) == RMat(N, N, LAMBDA r, c : IF r = c THEN R1 ELSE IF r = i /\ c = j THEN g ELSE R0)
G1_ == RG(<<Ca, 1>>)   G2_ == RG(<<1, Cb - 1>>)
Steps == <<<<0, 1, G1_>>, <<1, 0, G2_>>, <<N - 1, 0, RInt(Ca)>>, <<0, N - 1, RInt(Cb - 2)>>>>
RECURSIVE Build(_, _)
Build(i, inv) == IF i > Len(Steps) THEN REye(N)
  ELSE LET t == Steps[i] e == Elem(t[1], t[2], IF inv THEN RNeg(t[3]) ELSE t[3]) IN
       IF inv THEN RMM(Build(i + 1, inv), e) ELSE RMM(e, Build(i + 1, inv))
\* for a hermitian operator: sqrt(N) times a unitary matrix (fourier times phases)
Uni == RMat(N, N, LAMBDA r, c : RMul(RW(Mod((12 \div N) * r * c, 12)), RW(3 * Mod(r * Cb + Ca, 4))))
P_ == IF kind = "hermitian" THEN Uni ELSE Build(1, FALSE)
PI_ == IF kind = "hermitian" THEN RAdj(Uni) ELSE Build(1, TRUE)
Den == IF kind = "hermitian" THEN N ELSE 1     \* P PI = Den
\* distinct eigenvalues, or a repeated one
Eig(i) == IF kind = "hermitian" THEN <<(IF Cb = 3 /\ i = 1 THEN 0 ELSE i) * 2 - 1 - (IF i = 0 THEN Ca ELSE 0), 0>>
          ELSE <<(IF Cb = 2 /\ i = 1 THEN 0 ELSE i) - 1, IF i = 0 THEN 0 ELSE Ca - 1>>
Eigs == {Eig(i) : i \in 0..N - 1}
Proj(e0) == LET e == TLCEval(e0) IN RMM(P_, RMM(RMat(N, N, LAMBDA r, c : IF r = c /\ Eig(r) = e THEN R1 ELSE R0), PI_))
RECURSIVE SetSeq(_)
SetSeq(X) == IF X = {} THEN <<>> ELSE LET x == TLCEval(CHOOSE x \in X : TRUE) IN <<x>> \o SetSeq(TLCEval(X \ {x}))
RECURSIVE SumM(_)
SumM(ms) == IF Len(ms) = 1 THEN ms[1] ELSE Plus(ms[1], SumM(Tail(ms)))
EigSeq == TLCEval(SetSeq(TLCEval(Eigs)))
Whole == SumM(TLCEval([i \in DOMAIN EigSeq |-> Times(RG(EigSeq[i]), Proj(EigSeq[i]))]))

Flatten(parts) == [k \in DOMAIN parts |-> [m |-> RFlatten(parts[k].m), s |-> parts[k].s]]
Emit == ready => PrintT("@@" \o ToJson(
  IF kind \in Spectral
  THEN [kind |-> kind, n |-> N, a |-> RFlatten(Whole), den |-> Den, eig |-> EigSeq,
        mult |-> [i \in DOMAIN EigSeq |-> Cardinality({k \in 0..N - 1 : Eig(k) = EigSeq[i]})],
        proj |-> [i \in DOMAIN EigSeq |-> RFlatten(Proj(EigSeq[i]))]]
  ELSE [kind |-> kind, p |-> p, q |-> q, u |-> u, v |-> v, out |-> OutBasis, factor |-> Factor,
        a |-> [i \in 1..(IF List \/ kind = "apply_list" THEN NL ELSE 1) |-> RFlatten(A(i - 1))],
        b |-> [i \in 1..(IF List \/ kind = "apply_list" THEN NL ELSE 1) |-> RFlatten(B(i - 1))],
        res |-> [i \in DOMAIN Members |-> Flatten(Members[i])]]))
----------------------------------------------------------------------------
\* the trace of a commutator vanishes, and swapping changes its sign
TraceFree == (ready /\ kind = "commutator") =>
  /\ RTrace(Parts(0)[1].m) = R0
  /\ Parts(0)[1].m = Neg(Minus(RMM(B(0), A(0)), RMM(A(0), B(0))))
\* multiplying operators is applying them one after the other
Associates == (ready /\ kind = "matmul") =>
  LET x == RUnflat(RData(Seed + 2, NOf(v)), NOf(v), 1) IN
  RMM(Parts(0)[1].m, x) = RMM(A(0), RMM(B(0), x))
\* the adjoint of a product is the product of the adjoints in reverse
Adjoint == (ready /\ kind = "matmul") => RAdj(RMM(A(0), B(0))) = RMM(RAdj(B(0)), RAdj(A(0)))
\* the projectors are those of A
Resolves == (ready /\ kind \in Spectral) =>
  /\ RMM(P_, PI_) = Times(RInt(Den), REye(N))
  /\ SumM([i \in DOMAIN EigSeq |-> Proj(EigSeq[i])]) = Times(RInt(Den), REye(N))
  /\ \A i, j \in DOMAIN EigSeq : RMM(Proj(EigSeq[i]), Proj(EigSeq[j])) =
        IF i = j THEN Times(RInt(Den), Proj(EigSeq[i])) ELSE Zero(Whole)
  /\ \A i \in DOMAIN EigSeq : RMM(Whole, Proj(EigSeq[i])) = Times(RInt(Den), Times(RG(EigSeq[i]), Proj(EigSeq[i])))
HermitianOnes == (ready /\ kind = "hermitian") => RAdj(Whole) = Whole
=============================================================================

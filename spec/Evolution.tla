----------------------------- MODULE Evolution -----------------------------
(* Coherent evolution, exactly. The Hamiltonian has integer energies on the *)
(* plane waves of a grid, C(p, k) diag(E) C(k, p) in a complete basis p, in *)
(* units of 2 pi hbar over 12 ticks: t ticks multiply the plane wave k by   *)
(* w ^ (-E_k t), w = exp(i pi / 6), and state psi becomes                   *)
(* C(p, k) diag(w ^ (-E t)) C(k, p) psi.  Times are off + i * step, i < nt. *)
(* "diagonal": the Hamiltonian is diagonal in p itself, and the state given *)
(* in another basis q of the grid.  "jumps": collapse operators of a walker *)
(* on a torus s of cells with nb bands, one for each pair of bands and hop. *)
EXTENDS R12, Json
CONSTANTS Seed, Per, MaxN
VARIABLES kind, p, q, fam, nt, step, off, ready
vars == <<kind, p, q, fam, nt, step, off>>

Sizes == {1, 2, 3, 4, 6}
Grids == {<<a>> : a \in Sizes} \cup {<<a, b>> \in Sizes \X Sizes : a * b <= MaxN}
         \cup {<<a, b, c>> \in Sizes \X Sizes \X Sizes : a * b * c <= MaxN}
Wide == {<<12>>, <<6, 3>>, <<4, 4>>, <<12, 2>>, <<3, 2, 3>>, <<2, 4, 2>>}
Full1(nf) == {LeafLow(sp, nf, nf) : sp \in {"x", "k"}} \cup {LeafEven(sp, nf, 1, of) : sp \in {"x", "k"}, of \in {0, 1}}
Any1(nf) == Full1(nf) \cup {LeafLow(sp, Max2(nf - 1, 1), nf) : sp \in {"x", "k"}}
            \cup {LeafEven(sp, nf \div 2, 2, of) : sp \in {"x", "k"}, of \in IF nf % 2 = 0 THEN {0, 1} ELSE {}}
Stk(s, F(_)) == CASE Len(s) = 1 -> {<<a>> : a \in F(s[1])}
  [] Len(s) = 2 -> {<<a, b>> : a \in F(s[1]), b \in F(s[2])}
  [] Len(s) = 3 -> {<<a, b, c>> : a \in F(s[1]), b \in F(s[2]), c \in F(s[3])}
Hash(b) == SumSeq([a \in DOMAIN b |-> (2 * a + 1) * (b[a].nf + 2 * b[a].n + 3 * b[a].off + 5 * b[a].step
              + (IF b[a].sp = "x" THEN 0 ELSE 7) + (IF b[a].cls = "low" THEN 0 ELSE 11))])
Fams == {"free", "skew", "degenerate", "zero"}
FamH(f) == CASE f = "free" -> 1 [] f = "skew" -> 2 [] f = "degenerate" -> 3 [] OTHER -> 5
Thin(k) == IF k = 1 THEN 1 ELSE IF k = 2 THEN 4 ELSE 97
Init ==
  /\ ready = FALSE
  /\ \/ /\ kind = "unitary"
        /\ \E s \in Grids : /\ p \in Stk(s, Full1)
                            /\ Mod(Hash(p) + Seed, Thin(Len(s))) = 0
                            /\ (s[1] > 1 \/ Len(s) > 1)
        /\ q = <<>>
        /\ fam \in Fams /\ nt \in {1, 3, 4} /\ step \in {1, 2, 5} /\ off \in {0, 3, -2}
        /\ Mod(Hash(p) + 3 * FamH(fam) + 5 * nt + 7 * step + 11 * off + Seed, 9 * Per) = 0
     \/ /\ kind = "diagonal"
        /\ \E s \in Grids : /\ p \in Stk(s, Any1)
                            /\ Mod(Hash(p) + Seed, 2 * Thin(Len(s))) = 0
                            /\ q \in Stk(s, Any1)
        /\ Mod(3 * Hash(p) + Hash(q) + Seed, IF Len(p) = 3 THEN 191 ELSE IF Len(p) = 2 THEN 29 ELSE 3) = 0
        /\ fam \in Fams /\ nt \in {1, 3, 4} /\ step \in {1, 2, 5} /\ off \in {0, 3, -2}
        /\ Mod(Hash(p) + 3 * FamH(fam) + 5 * nt + 7 * step + 11 * off + Seed, 17 * Per) = 0
     \* grids well beyond those enumerated, one family and range of times each
     \/ /\ kind \in {"unitary", "diagonal"}
        /\ \E s \in Wide : /\ p \in Stk(s, Full1)
                           /\ q = IF kind = "unitary" THEN <<>> ELSE [a \in DOMAIN s |-> LET g == s[a] IN
                                    IF Mod(Hash(p) + a, 2) = 0 THEN LeafLow("k", g, g) ELSE LeafLow("x", Max2(g - 1, 1), g)]
                           /\ Mod(Hash(p) + 3 * Len(s) + Seed, IF Len(s) = 1 THEN 2 ELSE IF Len(s) = 2 THEN 19 ELSE 83) = 0
        /\ fam \in {"free", "skew"} /\ nt \in {2, 7} /\ step \in {1, 5} /\ off \in {0, -2}
        /\ Mod(Hash(p) + FamH(fam) + 3 * nt + 5 * step + 7 * off + Seed, 9) = 0
     \/ /\ kind = "jumps" /\ q = <<>> /\ step = 1 /\ off = 0 /\ fam \in {"dense", "sparse"}
        /\ \E a, b \in 3..4 : p = <<LeafLow("x", a, a), LeafLow("x", b, b)>>
        /\ nt \in 1..3                                                  \* bands
     \/ /\ kind = "jumps" /\ q = <<>> /\ step = 1 /\ off = 0 /\ fam = "sparse"
        /\ \E s \in {<<5, 3>>, <<3, 7>>, <<5, 6>>} : p = [a \in 1..2 |-> LeafLow("x", s[a], s[a])]
        /\ nt \in {2, 5}
        /\ Mod(p[1].nf + p[2].nf + nt + Seed, 2) = 0
Next == ~ready /\ ready' = TRUE /\ UNCHANGED vars
----------------------------------------------------------------------------
N == NFOf(p)
FK == [a \in DOMAIN p |-> LeafLow("k", p[a].nf, p[a].nf)]
Cv(b2, b1) == LET m == TLCEval(MatS(12, b2, b1)) IN TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m[i] |-> RE(m[i][j])])])
Momentum(i) == LET d == Digits(Shape(FK), i) IN [a \in DOMAIN p |-> Low(p[a].nf)[d[a] + 1]]
En(i) ==
  CASE fam = "free" -> LET m == Momentum(i) IN SumSeq([a \in DOMAIN m |-> a * m[a] * m[a]])
    [] fam = "skew" -> Mod(5 * i * i + 3 * i + Seed, 11) - 5
    [] fam = "degenerate" -> IF i % 2 = 0 THEN 1 ELSE -2
    [] OTHER -> 0
Time(i) == off + (i * step)
\* the diagonal with entries F(0), F(1), ..
Rows(m, F(_)) == LET a == TLCEval(m) IN TLCEval([i \in 1..Len(a) |-> LET e == TLCEval(F(i - 1)) IN TLCEval([j \in 1..Len(a[1]) |-> RMul(e, a[i][j])])])
U == Cv(FK, p)                                                          \* over sqrt S
S == ScaleS(FK, p)
H(u) == RMM(RAdj(u), Rows(u, LAMBDA i : RInt(En(i))))                   \* over S
Psi0 == RUnflat(RData(Seed + Hash(p), NOf(p)), NOf(p), 1)
Step(u, psi, t) == RMM(RAdj(u), Rows(RMM(u, psi), LAMBDA i : RW(-(En(i) * t))))   \* over S
Psi1 == RUnflat(RData(Seed + Hash(q) + 1, NOf(q)), NOf(q), 1)
Diag(psi, t) == Rows(psi, LAMBDA i : RW(-(En(i) * t)))
Col(m) == [i \in 1..Len(m) |-> m[i][1]]
\* collapse operators for a stochastic solver: not hermitian, some diagonals empty
LEntry(m, i, j) == IF Mod(i - j + m + Seed, 3) = 0 THEN R0 ELSE RDatum(Seed + 5 * m, (i * N) + j)
\* bands of an operator: band d holds O[c + d, c] at column c
Bands(m) == LET o == TLCEval(m) n == Len(m) IN
  TLCEval([d \in 1..n |-> TLCEval([c \in 1..n |-> o[Mod(c - 1 + d - 1, n) + 1][c]])])
Unband(b) == LET o == TLCEval(b) n == Len(b) IN
  TLCEval([i \in 1..n |-> TLCEval([j \in 1..n |-> o[Mod(i - j, n) + 1][j]])])
\* the walker: jumps from band n0 to n1 with hop h
HopD(h) == <<Mod((h \div 3) + 1, 3) - 1, Mod((h % 3) + 1, 3) - 1>>     \* 0, 1, -1
NB == nt
Rate(n0, n1, h) ==
  IF fam = "dense" THEN Mod(7 * n0 + 3 * n1 + 5 * h + Seed * (h + 1) + n0 * n1 * h, 5)
  ELSE IF Mod(h + 2 * n0 + n1 + Seed, 4) = 0 THEN 1 + Mod(h * n0 + n1 + h, 3) ELSE 0
To(h, c) == LET s == Shape(p) IN
  ((((c \div s[2]) + HopD(h)[1] + s[1]) % s[1]) * s[2]) + (((c % s[2]) + HopD(h)[2] + s[2]) % s[2])
NS == NOf(p) * NB
A == Arr(NS, LAMBDA i : Arr(NS, LAMBDA j :
  SumTo(9, LAMBDA h : IF To(h, i \div NB) = j \div NB THEN Rate(i % NB, j % NB, h) ELSE 0)))
\* one operator: sqrt(rate) |to, n1><from, n0| summed over the cells
Jumps == {<<n0, n1, h>> \in (0..NB - 1) \X (0..NB - 1) \X (0..8) : n0 # n1 /\ Rate(n0, n1, h) > 0}
Targets == Arr(9, LAMBDA h : Arr(NOf(p), LAMBDA c : To(h, c)))

Emit == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, nt |-> nt, step |-> step, off |-> off, fam |-> fam] @@
  (CASE kind = "unitary" -> LET u == TLCEval(U) IN
          [h |-> RFlatten(H(u)), psi |-> Col(Psi0), energy |-> Arr(N, En), s |-> S,
           u |-> RFlatten(u),
           out |-> Arr(nt, LAMBDA i : Col(Step(u, Psi0, Time(i)))),
           ls |-> Arr(2, LAMBDA m : Arr(N * N, LAMBDA f : LEntry(m, f \div N, f % N)))]
     [] kind = "diagonal" -> LET c == TLCEval(RMM(Cv(p, q), Psi1)) IN
          [psi |-> Col(Psi1), energy |-> Arr(NOf(p), En), s |-> ScaleS(p, q),
           out |-> Arr(nt, LAMBDA i : Col(Diag(c, Time(i))))]
     [] kind = "jumps" -> [jump |-> Arr(NB, LAMBDA a : Arr(NB, LAMBDA b : Arr(9, LAMBDA h : Rate(a, b, h)))),
           a |-> A, to |-> Targets, hops |-> Arr(9, HopD)])))
----------------------------------------------------------------------------
Norm(v) == RSumTo(Len(v), LAMBDA i : RMul(RConj(v[i + 1][1]), v[i + 1][1]))
Dot(v, w) == RSumTo(Len(v), LAMBDA i : RMul(RConj(v[i + 1][1]), w[i + 1][1]))
\* probability and energy are conserved
Conserved == (ready /\ kind = "unitary") =>
  LET u == TLCEval(U) h == TLCEval(H(u)) w == TLCEval(Psi0) e0 == TLCEval(Dot(w, RMM(h, w))) IN
  \A i \in 0..nt - 1 : LET v == TLCEval(Step(u, w, Time(i))) IN
    /\ Norm(v) = RScale(S * S, Norm(w))
    /\ Dot(v, RMM(h, v)) = RScale(S * S, e0)
Times(k, v) == LET x == TLCEval(v) IN TLCEval([i \in 1..Len(x) |-> <<RScale(k, x[i][1])>>])
\* evolving in two stages is evolving for the sum, back and forth is nothing
Additive == (ready /\ kind = "unitary") => LET u == TLCEval(U) w == TLCEval(Psi0) IN
  /\ Step(u, Step(u, w, off), step) = Times(S, Step(u, w, off + step))
  /\ Step(u, Step(u, w, step), -step) = Times(S * S, w)
  /\ Step(u, w, 12) = Times(S, w)
\* plane waves are stationary
Stationary == (ready /\ kind = "unitary") => LET u == TLCEval(U) IN
  \A i \in 0..Min2(N, 4) - 1 : LET v == TLCEval(RAdj(<<u[i + 1]>>)) IN
    Step(u, v, step) = TLCEval([j \in 1..N |-> <<RScale(S, RMul(RW(-(En(i) * step)), v[j][1]))>>])
\* bands hold all of an operator
Banded == (ready /\ kind = "unitary") => LET h == TLCEval(H(U)) IN
  Unband(Bands(h)) = h
\* the squares of the amplitudes are the rates of leaving the band
Rated == (ready /\ kind = "jumps") => LET a == TLCEval(A) IN \A i, j \in 0..NS - 1 : (i % NB # j % NB) =>
  a[i + 1][j + 1] = SumTo(9, LAMBDA h : IF <<i % NB, j % NB, h>> \in Jumps /\ To(h, i \div NB) = j \div NB THEN Rate(i % NB, j % NB, h) ELSE 0)
=============================================================================

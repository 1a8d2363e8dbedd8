----------------------------- MODULE Tunnelling -----------------------------
(* Incoherent tunnelling: a walker on a torus of s1 x s2 cells with nb      *)
(* states in each. A jump matrix gives the rate from band n0 to band n1     *)
(* with each of the nine hops (0, 1 or -1 cells along each axis); A[i, j]   *)
(* is the rate from state i to j, and the master equation is dp/dt = M p    *)
(* with M[i, j] = A[j, i] - (i = j) sum_k A[i, k].                          *)
EXTENDS Cyclo, Json
CONSTANTS Seed, Per
VARIABLES kind, s, nb, nr, fam, x, ready
vars == <<kind, s, nb, nr, fam, x>>

HopD(h) == <<Mod((h \div 3) + 1, 3) - 1, Mod((h % 3) + 1, 3) - 1>>     \* 0, 1, -1
Fams == {"dense", "sparse", "oneway", "none"}
Rate(n0, n1, h) ==
  CASE fam = "dense"  -> Mod(7 * n0 + 3 * n1 + 5 * h + Seed * (h + 1) + n0 * n1 * h, 5)
    [] fam = "sparse" -> IF Mod(h + 2 * n0 + n1 + Seed, 4) = 0 THEN 1 + Mod(h * n0 + n1 + h, 3) ELSE 0
    [] fam = "oneway" -> IF h = 1 + Mod(Seed, 8) THEN 2 ELSE IF h = 0 /\ n0 # n1 THEN 1 + n0 ELSE IF h = 3 THEN 1 + n1 ELSE 0
    [] fam = "none"   -> 0
\* larger tori and more bands, a few per run
Wide == <<<<5, 6, 1>>, <<7, 4, 2>>, <<9, 3, 3>>, <<3, 8, 1>>, <<2, 2, 5>>, <<3, 3, 6>>, <<12, 1, 2>>, <<1, 10, 3>>,
          <<6, 5, 2>>, <<3, 4, 4>>, <<8, 8, 1>>, <<1, 1, 8>>, <<4, 7, 2>>, <<2, 3, 7>>>>
WideE == <<<<5, 4, 2>>, <<7, 2, 1>>, <<6, 3, 3>>, <<3, 9, 1>>, <<5, 5, 2>>, <<8, 3, 1>>, <<2, 6, 3>>, <<11, 1, 2>>, <<1, 7, 3>>>>
Init ==
  /\ ready = FALSE
  /\ \/ /\ kind = "a" /\ s \in (1..4) \X (1..4) /\ nb \in 1..3 /\ nr \in 1..nb /\ fam \in Fams /\ x = 0
        /\ (s[1] * s[2] * nb > 18 => Mod(s[1] + 3 * s[2] + nb + nr + Seed, 4) = 0)
     \/ /\ kind = "a" /\ fam \in {"dense", "sparse"} /\ x = 0
        /\ \E i \in DOMAIN Wide : /\ Mod(i + Seed + Len(fam), 4 * Per) = 0
                               /\ s = <<Wide[i][1], Wide[i][2]>> /\ nb = Wide[i][3] /\ nr \in {1, Max2(nb - 1, 1), nb}
     \/ /\ kind = "evolve" /\ fam \in {"dense", "sparse"}
        /\ x \in [start : 0..4, cell : 0..3, loc : 0..2]
        /\ \E i \in DOMAIN WideE : /\ Mod(i + Len(fam) + 7 * x.start + 2 * x.cell + 11 * x.loc + Seed, 43 * Per) = 0
                               /\ s = <<WideE[i][1], WideE[i][2]>> /\ nb = WideE[i][3] /\ nr = nb
     \/ /\ kind = "evolve" /\ s \in (1..4) \X (1..4) /\ nb \in 1..3 /\ nr = nb /\ fam \in {"dense", "sparse", "oneway"}
        /\ s[1] * s[2] * nb <= 27
        /\ x \in [start : 0..4, cell : 0..3, loc : 0..2]
        /\ Mod(s[1] + 3 * s[2] + 5 * nb + 7 * x.start + 2 * x.cell + 11 * x.loc + Seed, 13 * Per) = 0
     \/ /\ kind = "hop" /\ nb = 1 /\ nr = 1 /\ fam = "none" /\ s \in (1..4) \X (1..4) \cup {<<5, 7>>, <<9, 6>>} /\ x \in 0..8
     \/ /\ kind = "fey" /\ nb = 2 /\ nr = 2 /\ fam = "none" /\ s = <<1, 1>>
        /\ x \in [fast : {1, 2, 3, 5}, slow : {1, 2, 4}, k : 0..6]
Next == ~ready /\ ready' = TRUE /\ UNCHANGED vars
----------------------------------------------------------------------------
NC == s[1] * s[2]
NS(n) == NC * n
\* state (i, j, n): row-major
Cell(f, n) == <<(f \div n) \div s[2], (f \div n) % s[2]>>
Band(f, n) == f % n
\* all hops that take cell a to cell b (several, on narrow tori)
Hops(a, b) == {h \in 0..8 : Mod(a[1] + HopD(h)[1], s[1]) = b[1] /\ Mod(a[2] + HopD(h)[2], s[2]) = b[2]}
SetSum(S, F(_)) == SumTo(9, LAMBDA h : IF h \in S THEN F(h) ELSE 0)
A(n) == Arr(NS(n), LAMBDA i : Arr(NS(n), LAMBDA j :
   SetSum(Hops(Cell(i, n), Cell(j, n)), LAMBDA h : Rate(Band(i, n), Band(j, n), h))))
M(n) == LET a == TLCEval(A(n)) IN Arr(NS(n), LAMBDA i : Arr(NS(n), LAMBDA j :
   IF i # j THEN a[j + 1][i + 1] ELSE -(SumTo(NS(n), LAMBDA k : IF k = i THEN 0 ELSE a[i + 1][k + 1]))))
\* the jump matrix read off an A matrix: from the cell at the origin
Jump(n) == Arr(n, LAMBDA a : Arr(n, LAMBDA b : Arr(9, LAMBDA h :
   SetSum(Hops(<<0, 0>>, <<Mod(HopD(h)[1], s[1]), Mod(HopD(h)[2], s[2])>>), LAMBDA g : Rate(a, b, g)))))
\* states reached from i, with the transitions of the walker
Succ(a, S) == S \cup {j \in 0..NS(nb) - 1 : \E i \in S : a[i + 1][j + 1] > 0}
RECURSIVE Closure(_, _)
Closure(a, S) == LET T == Succ(a, S) IN IF T = S THEN S ELSE Closure(a, T)
Irreducible == LET a == TLCEval(A(nb)) IN \A i \in 0..NS(nb) - 1 : Closure(a, {i}) = 0..NS(nb) - 1
\* stationary weights of the bands (matrix tree theorem), the same in every cell
R(a, b) == SumTo(9, LAMBDA h : Rate(a, b, h))
Weight(n) ==
  CASE nb = 1 -> 1
    [] nb = 2 -> R(1 - n, n)
    [] nb = 3 -> LET a == (n + 1) % 3 b == (n + 2) % 3 IN R(a, n) * R(b, n) + R(a, n) * R(b, a) + R(b, n) * R(a, b)

\* unit cells (rows are the vectors) and locations of the bands in units of 1/12 cell
UnitCell == CASE x.cell = 0 -> << <<2, 0>>, <<0, 3>> >> [] x.cell = 1 -> << <<2, 0>>, <<1, 2>> >>
              [] x.cell = 2 -> << <<0, 1>>, <<-3, 1>> >> [] x.cell = 3 -> << <<1, -1>>, <<1, 1>> >>
Loc(n) == CASE x.loc = 0 -> <<0, 0>> [] x.loc = 1 -> <<4 * n, 3 * n>> [] x.loc = 2 -> <<Mod(5 * n + 2, 12), 7 - 4 * n>>
\* starts: one state, or occupations of several
Start == Arr(NS(nb), LAMBDA f : IF x.start < 3 THEN (IF f = Mod(x.start * 7, NS(nb)) THEN 1 ELSE 0)
                                ELSE IF x.start = 3 THEN 1 + Mod(f * f + f, 3) ELSE IF f < 2 THEN 1 ELSE 0)
Total == SumTo(NS(nb), LAMBDA f : Start[f + 1])
\* position of a state along axis a, in 1/12 cells
Place(f, a) == 12 * Cell(f, nb)[a] + Loc(Band(f, nb))[a]
Mean(a) == SumTo(NS(nb), LAMBDA f : Start[f + 1] * Place(f, a))          \* over Total
\* distance from the mean, brought to the torus around zero, in 1/(12 Total) cells
Dist(f, a) == LET per == 12 * Total * s[a] d == Mod(Place(f, a) * Total - Mean(a), per) IN IF 2 * d >= per THEN d - per ELSE d
Tie(f, a) == 2 * Abs(Dist(f, a)) = 12 * Total * s[a]

Emit == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, s |-> s, nb |-> nb, nr |-> nr, fam |-> fam, x |-> x] @@
  (CASE kind = "a" -> [jump |-> Arr(nb, LAMBDA a : Arr(nb, LAMBDA b : Arr(9, LAMBDA h : Rate(a, b, h)))),
          a |-> A(nb), m |-> M(nb), ar |-> A(nr), mr |-> M(nr), back |-> Jump(nb)]
    [] kind = "evolve" -> [irreducible |-> Irreducible, m |-> M(nb), start |-> Start, weight |-> Arr(nb, Weight), cell |-> UnitCell,
          loc |-> Arr(nb, Loc), total |-> Total,
          dist |-> Arr(2, LAMBDA a : Arr(NS(nb), LAMBDA f : Dist(f, a + 1))),
          place |-> Arr(2, LAMBDA a : Arr(NS(nb), LAMBDA f : Place(f, a + 1))),
          tie |-> \E f \in 0..NS(nb) - 1 : \E a \in 1..2 : Tie(f, a)]
    [] kind = "hop" -> [d |-> HopD(x), op |-> Arr(NC, LAMBDA i : Arr(NC, LAMBDA j :
          IF \A a \in 1..2 : Cell(i, 1)[a] = Mod(Cell(j, 1)[a] + HopD(x)[a], s[a]) THEN 1 ELSE 0))]
    [] kind = "fey" -> [jumps110 |-> <<0, 1, -1>>, jumps112 |-> <<2, -1, -1>>])))
----------------------------------------------------------------------------
\* probability is conserved and rates are not negative
Conserved == (ready /\ kind \in {"a", "evolve"}) => LET m == TLCEval(M(nb)) IN \A j \in 1..NS(nb) :
  /\ SumTo(NS(nb), LAMBDA i : m[i + 1][j]) = 0
  /\ \A i \in 1..NS(nb) : i # j => m[i][j] >= 0
\* moving every state by one cell changes nothing
Homogeneous == (ready /\ kind = "a") => LET a == TLCEval(A(nb)) IN
  \A i, j \in 0..NS(nb) - 1 : LET Mv(f) == ((Mod(Cell(f, nb)[1] + 1, s[1]) * s[2]) + Cell(f, nb)[2]) * nb + Band(f, nb) IN
     a[Mv(i) + 1][Mv(j) + 1] = a[i + 1][j + 1]
\* on at least three by three cells every hop can be read back
ReadBack == (ready /\ kind = "a" /\ s[1] > 2 /\ s[2] > 2) => \A a, b \in 0..nb - 1 : \A h \in 0..8 : Jump(nb)[a + 1][b + 1][h + 1] = Rate(a, b, h)
\* the stationary weights are stationary
Stationary == (ready /\ kind = "evolve") => LET m == TLCEval(M(nb)) IN \A i \in 1..NS(nb) :
  SumTo(NS(nb), LAMBDA j : m[i][j + 1] * Weight(Band(j, nb))) = 0
=============================================================================

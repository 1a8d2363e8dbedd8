------------------------------- MODULE Gamma --------------------------------
(* Rates of electronic friction.  With energies in units of k T ln 2 the   *)
(* Fermi factors are rationals, with the momentum transfer in units of     *)
(* alpha = 2 / a_0 (y = (q / alpha)^2, u = 1 + y) so is the Coulomb factor *)
(*   V(q) = e^2 / (eps0 alpha^2) * (u^-2 - 1) / y                          *)
(* and, for overlaps u^-a, its integral over the Fermi surface.            *)
(*  occ   N(E) (1 - N(E + w)), E = Ef + j, w = m                           *)
(*  cold  at low temperature the integral over k counts the states below   *)
(*        the Fermi level which w lifts above it                           *)
(*  pot   int_0^pi sin(phi) V(q)^2 u^-a d phi,  q = k_f sin(phi / 2)       *)
EXTENDS Cyclo, Json
CONSTANTS Seed, Per
VARIABLES kind, j, m, p, q
vars == <<kind, j, m, p, q>>
InitG ==
  \/ kind = "occ" /\ j \in -9..9 /\ m \in -6..6 /\ p = 0 /\ q = 0
  \/ /\ kind = "cold" /\ p \in 1..17 /\ j \in 0..p /\ m \in 0..40 /\ q = 0
     /\ IF j \in 1..(p - 1) THEN m = 0 ELSE /\ Mod(m * p + Seed, Per) = 0 /\ (j = p => m > 0)
  \/ kind = "pot" /\ j \in 0..3 /\ q \in 1..4 /\ p \in 1..9 /\ m = 0
Next == FALSE /\ UNCHANGED vars
----------------------------------------------------------------------------
\* rationals <<n, d>>, d > 0
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
Small == j \in -4..4 /\ m \in -4..4
F2(i) == IF i >= 0 THEN <<1, 1 + Pow(2, i)>> ELSE <<Pow(2, -i), Pow(2, -i) + 1>>
QMul(a, b) == <<a[1] * b[1], a[2] * b[2]>>
QNot(a) == <<a[2] - a[1], a[2]>>
QEq(a, b) == a[1] * b[2] = a[2] * b[1]
Full(i, w) == QMul(F2(i), QNot(F2(i + w)))
\* the integral over energy, in units of k T ln 2 (w # 0)
All(w) == IF w > 0 THEN <<w * Pow(2, w), Pow(2, w) - 1>> ELSE <<-w, Pow(2, -w) - 1>>
\* ---- cold: energies in units of hbar^2 / 2m, k_f = p; w lifts an electron over the Fermi level
\* from every k in j..p, from the whole band (j = 0), from nowhere (w < 0)
Lift == IF j = 0 THEN p * p + m ELSE IF j = p THEN -m ELSE p * p - j * j
Counted == p - j
\* ---- pot: y_max = (k_f / alpha)^2 = p / q, U = (p + q) / q
UP == p + q
\* int_1^U u^-(n+1) du = (1 - U^-n) / n
Piece(n, up, uq) == <<Pow(up, n) - Pow(uq, n), n * Pow(up, n)>>
\* (u^-2 - 1)^2 / y^2 = (1 + u)^2 / u^4, so the pieces are n = a + 3, a + 2 (twice), a + 1
Pieces == [n \in 1..3 |-> Piece(j + n, UP, q)]
Times == <<1, 2, 1>>
Emit == PrintT("@@" \o ToJson([kind |-> kind, j |-> j, m |-> m, p |-> p, q |-> q] @@
  (CASE kind = "occ" -> [at |-> Full(j, m), all |-> IF m = 0 THEN <<1, 1>> ELSE All(m), fermi |-> F2(j)]
    [] kind = "cold" -> [w |-> Lift, count |-> Counted]
    [] kind = "pot" -> [pieces |-> Pieces, times |-> Times])))
----------------------------------------------------------------------------
\* going up by w and down by w are as likely as exp(w / k T)
Balance == (kind = "occ" /\ Small) =>
  LET up == Full(j, m) down == Full(j + m, -m) IN
  IF m >= 0 THEN QEq(up, <<down[1] * Pow(2, m), down[2]>>) ELSE QEq(<<up[1] * Pow(2, -m), up[2]>>, down)
\* N(E)(1 - N(E + w)) = (N(E) - N(E + w)) / (1 - exp(-w / k T)): its integral telescopes
Telescopes == (kind = "occ" /\ m > 0 /\ Small) =>
  LET a == F2(j) b == F2(j + m) diff == <<a[1] * b[2] - b[1] * a[2], a[2] * b[2]>> IN
  QEq(Full(j, m), <<diff[1] * Pow(2, m), diff[2] * (Pow(2, m) - 1)>>)
Balanced == (kind = "occ" /\ m > 0) => QEq(All(m), <<All(-m)[1] * Pow(2, m), All(-m)[2]>>)
\* every k above the lowest counted is lifted over the Fermi level, none below
Lifted == (kind = "cold" /\ j > 0 /\ j < p) => \A k \in 0..p : (k * k + Lift >= p * p) <=> k >= p - Counted
\* the closed form of the Coulomb factor
Closed == kind = "pot" =>
  \* u = UP / q, y = p / q : (u^-2 - 1) / y = -(1 + u) / u^2
  LET lhs == <<(q * q - UP * UP) * q, UP * UP * p>> rhs == <<-(q + UP) * q * q, q * UP * UP>> IN QEq(lhs, rhs)
\* scaling of the pieces: from 1 to U^2 is from 1 to U and U^-n as much again
Scales == (kind = "pot" /\ UP < 7) => \A n \in 1..2 :
  LET one == Piece(n, UP, q) two == Piece(n, UP * UP, q * q)
      sum == <<one[1] * (Pow(UP, n) + Pow(q, n)), one[2] * Pow(UP, n)>> IN QEq(two, sum)
=============================================================================

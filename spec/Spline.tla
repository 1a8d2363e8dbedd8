------------------------------- MODULE Spline -------------------------------
(* Cubic spline interpolation along an axis: through the given samples,    *)
(* and exact for cubic polynomials.  Old coordinates are increasing        *)
(* integers; the new ones divide their range evenly.  Values are           *)
(* polynomial values times (n - 1)^3.                                      *)
EXTENDS Cyclo, Json
CONSTANTS Seed
VARIABLES old, m, deg
Coords == {<<0, 1, 2, 3>>, <<-1, 0, 2, 3, 5>>, <<0, 2, 3, 4, 7, 8>>}
Init == old \in Coords /\ m \in 2..7 /\ deg \in 0..3
Next == FALSE /\ UNCHANGED <<old, m, deg>>
Coef(line, d) == IF d > deg THEN 0 ELSE Mod(7 * line + 3 * d * d + Seed + line * d, 5) - 2
RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN 1 ELSE x * Pow(x, k - 1)
\* value at num/den, times den^3
Val(line, num, den) == LET F[d \in 0..4] == IF d = 0 THEN 0
                            ELSE F[d - 1] + Coef(line, d - 1) * Pow(num, d - 1) * Pow(den, 4 - d) IN F[4]
Lines == 6
At1 == Arr(Lines, LAMBDA l : [i \in DOMAIN old |-> Val(l, old[i], 1)])
NewNum(i) == old[1] * (m - 1) + i * (old[Len(old)] - old[1])
New == Arr(Lines, LAMBDA l : Arr(m, LAMBDA i : Val(l, NewNum(i), m - 1)))
Emit == PrintT("@@" \o ToJson([old |-> old, m |-> m, deg |-> deg, data |-> At1, new |-> New, den |-> (m - 1) * (m - 1) * (m - 1)]))
----------------------------------------------------------------------------
Ends == \A l \in 1..Lines : /\ New[l][1] = At1[l][1] * (m - 1) * (m - 1) * (m - 1)
                             /\ New[l][m] = At1[l][Len(old)] * (m - 1) * (m - 1) * (m - 1)
=============================================================================

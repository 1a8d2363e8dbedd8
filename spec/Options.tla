------------------------------ MODULE Options ------------------------------
(* The options every chart takes: the scale it is drawn on, the measure of  *)
(* a complex value, the range of its colours.  A chart is changed by one    *)
(* option at a time; each option moves its own part of the chart only.      *)
(* A value is a Gaussian integer; sizes and angles are kept as squares and  *)
(* as unit numerators, so that everything is exact.                         *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Seed, Steps
VARIABLES scale, measure, range, drawn, axis, ends, walk

Scales == {"linear", "squared", "log", "symlog"}
Measures == {"real", "imag", "abs", "angle"}
Auto == 99
Lowest == 98      \* of what is measured
Highest == 97
Ranges == {<<Auto, Auto>>, <<Auto, 7>>, <<-3, Auto>>, <<-3, 7>>}
\* what is drawn of
Values == <<<<3, 4>>, <<-1, 0>>, <<0, -2>>, <<5, -12>>, <<-2, 2>>>>
\* heights on an axis
Marks == <<1, 10, 100>>

\* <<kind, numerator, square of the denominator>>
Of(m, z) == CASE m = "real" -> <<z[1], 0>> [] m = "imag" -> <<z[2], 0>>
              [] m = "abs" -> <<z[1] * z[1] + z[2] * z[2], 0>>
              [] m = "angle" -> z
Pic(m) == [i \in 1..Len(Values) |-> Of(m, Values[i])]
On(s) == CASE s = "linear" -> Marks [] s = "squared" -> [i \in 1..3 |-> Marks[i] * Marks[i]]
           [] s = "log" -> <<0, 1, 2>> [] s = "symlog" -> <<>>
\* the lowest height measured: a size is drawn from zero
Least(m) == IF m = "abs" THEN 0 ELSE Lowest
EndsOf(m, r) == <<IF r[1] = Auto THEN Least(m) ELSE r[1], IF r[2] = Auto THEN Highest ELSE r[2]>>

vars == <<scale, measure, range, drawn, axis, ends, walk>>
Now == [scale |-> scale, measure |-> measure, range |-> range, ends |-> ends, axis |-> axis]
OInit == /\ scale = "linear" /\ measure = "abs" /\ range = <<Auto, Auto>>
         /\ drawn = Pic("abs") /\ axis = On("linear") /\ ends = EndsOf("abs", <<Auto, Auto>>)
         /\ walk = <<>>
SetScale == \E s \in Scales \ {scale} :
  /\ scale' = s /\ axis' = On(s) /\ UNCHANGED <<measure, range, drawn, ends>>
  /\ walk' = Append(walk, Now')
SetMeasure == \E m \in Measures \ {measure} :
  /\ measure' = m /\ drawn' = Pic(m) /\ ends' = EndsOf(m, range)
  /\ UNCHANGED <<scale, range, axis>> /\ walk' = Append(walk, Now')
SetRange == \E r \in Ranges \ {range} :
  /\ range' = r /\ ends' = EndsOf(measure, r)
  /\ UNCHANGED <<scale, measure, drawn, axis>> /\ walk' = Append(walk, Now')
ONext == Len(walk) < Steps /\ (SetScale \/ SetMeasure \/ SetRange)
\* one walk in seven
Kept(w) == LET g(x) == CASE x.scale = "linear" -> 0 [] x.scale = "squared" -> 1 [] x.scale = "log" -> 2 [] OTHER -> 3
               h(x) == CASE x.measure = "real" -> 0 [] x.measure = "imag" -> 1 [] x.measure = "abs" -> 2 [] OTHER -> 3
               k(x) == x.range[1] + 2 * x.range[2] + 200
               f[i \in 0..Len(w)] == IF i = 0 THEN Seed ELSE 3 * f[i - 1] + g(w[i]) + 2 * h(w[i]) + k(w[i])
           IN f[Len(w)] % 7 = 0
\* the chart does not remember how it came to its options
Memoryless == drawn = Pic(measure) /\ axis = On(scale) /\ ends = EndsOf(measure, range)
\* the parts of a value put it together again
Whole == \A i \in 1..Len(Values) :
           /\ Of("abs", Values[i])[1] = Of("real", Values[i])[1] * Of("real", Values[i])[1] + Of("imag", Values[i])[1] * Of("imag", Values[i])[1]
           /\ Of("angle", Values[i])[1] = Of("real", Values[i])[1] /\ Of("angle", Values[i])[2] = Of("imag", Values[i])[1]
OwnPart == [][ /\ (scale' # scale => drawn' = drawn /\ ends' = ends)
               /\ (measure' # measure => axis' = axis)
               /\ (range' # range => drawn' = drawn /\ axis' = axis) ]_vars
EmitO == (Len(walk) = Steps /\ Kept(walk)) => PrintT("@@" \o ToJson([walk |-> walk]))
=============================================================================

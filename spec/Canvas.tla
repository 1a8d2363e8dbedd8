------------------------------- MODULE Canvas -------------------------------
(* What drawing leaves behind: a picture puts a bar beside its axes once,  *)
(* however many pictures follow on the same axes; curves put none; a chart *)
(* drawn on no axes opens a figure of its own and touches nothing else.    *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Seed, Depth
VARIABLES hist, bars, curves, pictures, figs
vars == <<hist, bars, curves, pictures, figs>>
Axs == {1, 2}
CInit == hist = <<>> /\ bars = [a \in Axs |-> 0] /\ curves = [a \in Axs |-> 0] /\ pictures = [a \in Axs |-> 0] /\ figs = 1
Did(what, a) == Len(hist) < Depth /\ hist' = Append(hist, <<what, a>>)
Picture(a) == Did("picture", a) /\ bars' = [bars EXCEPT ![a] = 1] /\ pictures' = [pictures EXCEPT ![a] = @ + 1] /\ UNCHANGED <<curves, figs>>
Film2(a) == Did("film", a) /\ bars' = [bars EXCEPT ![a] = 1] /\ pictures' = [pictures EXCEPT ![a] = @ + 2] /\ UNCHANGED <<curves, figs>>
Curve(a) == Did("curve", a) /\ curves' = [curves EXCEPT ![a] = @ + 1] /\ UNCHANGED <<bars, pictures, figs>>
Alone(what) == Did(what, 0) /\ figs' = figs + 1 /\ UNCHANGED <<bars, curves, pictures>>
CNext == (\E a \in Axs : Picture(a) \/ Film2(a) \/ Curve(a)) \/ Alone("picture alone") \/ Alone("curve alone")
RECURSIVE Mixed(_)
Mixed(h) == IF h = <<>> THEN Seed ELSE
  (Mixed(Tail(h)) * 7 + Head(h)[2] + (CASE Head(h)[1] = "picture" -> 0 [] Head(h)[1] = "film" -> 3 [] Head(h)[1] = "curve" -> 5 [] Head(h)[1] = "picture alone" -> 1 [] OTHER -> 2)) % 1009
CEmit == (Len(hist) = Depth /\ Mixed(hist) % 7 = 0) => PrintT("@@" \o ToJson([hist |-> hist, bars |-> bars, curves |-> curves, pictures |-> pictures, figs |-> figs]))
\* a bar is there exactly when a picture is
BarPerPicture == \A a \in Axs : bars[a] = (IF pictures[a] > 0 THEN 1 ELSE 0)
\* drawing never removes anything
Grows == [][\A a \in Axs : bars'[a] >= bars[a] /\ curves'[a] >= curves[a] /\ pictures'[a] >= pictures[a] /\ figs' >= figs]_vars
=============================================================================

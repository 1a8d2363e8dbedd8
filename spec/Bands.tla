------------------------------- MODULE Bands -------------------------------
(* Charts of the bands of a crystal.                                       *)
(*  curve   energies of each band against momentum, and their transform    *)
(*          against displacement, from samples kept in any basis p; the    *)
(*          states themselves, unfurled                                    *)
(*  mass    the part of each band's energy with the period of the lattice  *)
(*          along each axis: from it, the mass of a free particle with     *)
(*          bands as wide                                                  *)
(*  free    bands of a free particle, energies K^2 of the momenta K = l    *)
(*          (mod L) in order of size                                       *)
(*  occ     energies in units of k T ln 2: how much of each band is filled *)
(*  total   how much of a state is in each band                            *)
(*  uneven  samples (in twelfths of a reciprocal vector) along a direction *)
EXTENDS Wavepackets
Small(z) == (Len(z) = 1 /\ Ls(z)[1] > 1) \/ Len(z) > 1
Unkept == {<<-1, -1>>}
InitB ==
  /\ ready = FALSE
  /\ \/ /\ kind = "curve" /\ x = 0
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, (IF Len(z) = 2 THEN 5 ELSE 29)) = 0)
             /\ p \in Stack(Ls(z), AnyOf) /\ q \in Stack(Ss(z), AnyOf)
             /\ Mod(5 * Hash(p) + 3 * Hash(q) + Seed, (IF Len(z) = 1 THEN 3 ELSE IF Len(z) = 2 THEN 31 ELSE 397) * Per) = 0
        /\ u = FK(p) /\ v = FX(p)
     \/ /\ kind = "mass" /\ x = 0
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + Seed, IF Len(z) = 2 THEN 3 ELSE 31) = 0)
             /\ p = [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])] /\ q = [a \in DOMAIN z |-> LeafLow("k", z[a][2], z[a][2])]
             /\ \E a \in DOMAIN p : p[a].nf > 1
        /\ u = p /\ v = q
     \/ /\ kind = "free" /\ p \in {<<LeafLow("k", l, l)>> : l \in {2, 4, 6, 12}} /\ q = p /\ u = p /\ v = p /\ x \in 1..5
     \/ /\ kind = "occ" /\ x \in 1..4
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + x + Seed, IF Len(z) = 2 THEN 7 ELSE 61) = 0)
             /\ p = [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])] /\ q = [a \in DOMAIN z |-> LeafLow("k", z[a][2], z[a][2])]
             /\ x <= NOf(q)
        /\ u = p /\ v = q
     \/ /\ kind = "total" /\ x \in 1..4
        /\ \E z \in Pairs : (Len(z) > 1 => Mod(PH(z) + x + Seed, IF Len(z) = 2 THEN 5 ELSE 61) = 0)
             /\ p = [a \in DOMAIN z |-> LeafLow("k", z[a][1], z[a][1])] /\ q = [a \in DOMAIN z |-> LeafLow("k", z[a][2], z[a][2])]
             /\ x <= NOf(q)
        /\ u = p /\ v = q
     \/ /\ kind = "uneven"
        /\ \E d \in 1..3 : \E w \in 1..12 : x = <<d, w>> /\ Mod(d + w + Seed, 2 * Per) = 0
        /\ p = <<>> /\ q = p /\ u = p /\ v = p
     \/ /\ kind = "spaced" /\ x \in {<<n, st, of>> \in (1..5) \X (1..4) \X (0..3) : of < st} /\ p = <<>> /\ q = p /\ u = p /\ v = p
----------------------------------------------------------------------------
\* part of the energies e (by sample) which turns once with the samples along axis a
First(e, a) == RSumTo(Len(e), LAMBDA l : RMul(RW((12 \div p[a].nf) * Digits(FShape(p), l)[a]), e[l + 1]))
\* ---- free particle
FL == p[1].nf
Abs1(l) == Abs(Signed(l, FL))
FreeRoot(b, l) == IF b % 2 = 0 THEN FL * (b \div 2) + Abs1(l) ELSE FL * ((b + 1) \div 2) - Abs1(l)
Free(b) == Arr(FL, LAMBDA l : RInt(FreeRoot(b, l) * FreeRoot(b, l)))
\* ---- occupations
Level(b, l) == Mod(5 * b + 3 * l * l + 7 * l + Seed, 9) - 2 + b
RECURSIVE Two(_)
Two(n) == IF n = 0 THEN 1 ELSE 2 * Two(n - 1)
Weight(b) == SumTo(NP, LAMBDA l : Two(16 - Level(b, l)))
\* ---- states: band b at sample l is state Place(b, l) with phase Turn(b, l)
Place(b, l) == Mod(b + l + Seed, NQ)
Turn(b, l) == Mod(5 * b + 7 * l + Seed, 12)
Amount(b, l) == Mod(b * b + 2 * l + b * l + Seed, 5) - 2
Psi == Arr(NP * NQ, LAMBDA K : LET o == OfBig(K) IN
   RSumTo(x, LAMBDA b : IF Place(b, o[1]) = o[2] THEN RScale(Amount(b, o[1]), RW(Turn(b, o[1]))) ELSE R0))
InBand(b) == SumTo(NP, LAMBDA l : Amount(b, l) * Amount(b, l))
\* ---- samples (twelfths), all different
Fraction(a, i) == Mod((2 * a + 5) * i * i + (3 + 2 * a) * i + a + Seed, 13) - 6
Fractions == [a \in 1..x[1] |-> [i \in 1..x[2] |-> Fraction(a, i)]]
\* samples of a line of n * step, every step-th from the offset (numerators over n * step, from -1/2)
Spaced == Arr(x[1], LAMBDA i : 2 * (x[3] + x[2] * i) - x[1] * x[2])

EmitB == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x] @@
  (CASE kind = "curve" -> LET T == Arr(NB, LAMBDA b : To(b, FK(p), FK(q))) IN
          [data |-> Arr(NB, LAMBDA b : RFlatten(D(b))), eig |-> Arr(NB, E), s |-> ScaleS(FK(p), p) * ScaleS(FK(q), q),
           sk |-> ScaleS(FK(p), p), sx |-> ScaleS(FX(p), p),
           ek |-> Arr(NB, LAMBDA b : RFlatten(ToE(b, FK(p)))), ex |-> Arr(NB, LAMBDA b : RFlatten(ToE(b, FX(p)))),
           unf |-> [b \in 1..NB |-> Unfurled(T[b])], bloch |-> BlochK(T[1])]
    [] kind = "mass" -> [data |-> Arr(NB, LAMBDA b : RFlatten(D(b))), eig |-> Arr(NB, E), first |-> Arr(NB, LAMBDA b : [a \in DOMAIN p |-> First(E(b), a)])]
    [] kind = "free" -> [eig |-> Arr(x, Free), first |-> Arr(x, LAMBDA b : First(Free(b), 1))]
    [] kind = "occ" -> [level |-> Arr(x, LAMBDA b : Arr(NP, LAMBDA l : Level(b, l))), weight |-> Arr(x, Weight), total |-> SumTo(x, Weight)]
    [] kind = "total" -> [level |-> Arr(x, LAMBDA b : Arr(NP, LAMBDA l : Level(b, l))), place |-> Arr(x, LAMBDA b : Arr(NP, LAMBDA l : Place(b, l))),
           turn |-> Arr(x, LAMBDA b : Arr(NP, LAMBDA l : Turn(b, l))), psi |-> Psi, inband |-> Arr(x, InBand)]
    [] kind = "uneven" -> [num |-> Fractions]
    [] kind = "spaced" -> [num |-> Spaced])))
----------------------------------------------------------------------------
\* a constant added to a band does not change its width; with the first parts along a line of samples come all energies but that constant (L = 2)
Widths == (ready /\ kind = "mass") => \A a \in DOMAIN p : p[a].nf > 1 =>
  First(Arr(NP, LAMBDA l : RAdd(E(0)[l + 1], RInt(7))), a) = First(E(0), a)
\* bands of a free particle, with an even number of samples, widen as odd numbers and alternate in sign: one mass for them all;
\* they hold every momentum once, and follow each other in energy
FreeMass == (ready /\ kind = "free") =>
  /\ \A b \in 0..x - 1 : First(Free(b), 1) = RScale((2 * b + 1) * (IF b % 2 = 0 THEN 1 ELSE -1), First(Free(0), 1))
  /\ \A b \in 1..x - 1 : \A l \in 0..FL - 1 : FreeRoot(b, l) >= FreeRoot(b - 1, l)
  /\ \A b \in 0..x - 1 : \A l \in 0..FL - 1 : Mod(FreeRoot(b, l) - Signed(l, FL), FL) = 0 \/ Mod(FreeRoot(b, l) + Signed(l, FL), FL) = 0
\* one more unit of energy halves what is in a band
Shares == (ready /\ kind = "occ") => \A b \in 0..x - 1 : Weight(b) > 0 /\ 2 * SumTo(NP, LAMBDA l : Two(15 - Level(b, l))) = Weight(b)
\* the bands share the state
Divided == (ready /\ kind = "total") =>
  /\ \A l \in 0..NP - 1 : \A b, c \in 0..x - 1 : b # c => Place(b, l) # Place(c, l)
  /\ RSumTo(NP * NQ, LAMBDA K : RMul(RConj(Psi[K + 1]), Psi[K + 1])) = RInt(SumTo(x, InBand))
Centred == (ready /\ kind = "spaced") => \A i \in 1..x[1] : Spaced[i] >= -x[1] * x[2] /\ Spaced[i] < x[1] * x[2] /\ (i > 1 => Spaced[i] - Spaced[i - 1] = 2 * x[2])
=============================================================================

------------------------------ MODULE Spectra ------------------------------
(* Charts of spectra.                                                      *)
(*  level   energies q in units of k T ln 2, of a hamiltonian with them as *)
(*          eigenvalues (turned by the reflection along v): occupations at *)
(*          temperature T halve with each unit of energy                   *)
(*  count   how many entries of a matrix, or how many of its (cyclic)      *)
(*          diagonals, are no larger than a given size                     *)
(*  kernel  noise operators of strengths q: what is lost by leaving out the*)
(*          weakest                                                        *)
(*  bins    a histogram of recorded values                                 *)
(*  prob    probabilities against time: of each band, of each site, of all,*)
(*          and averaged over repeats                                      *)
(*  rates   rates in order of how much of the state decays with them       *)
(*  ticks   marks on an axis of squares                                    *)
EXTENDS Wavepackets
Sizes == 1..5
Vecs(n) == {[i \in 1..n |-> RG(<<Mod(w * i * i + i, 3) - 1, IF i = 1 THEN 0 ELSE Mod(w + i, 2)>>)] : w \in 0..3} \cup {[i \in 1..n |-> IF i = 1 THEN R1 ELSE R0]}
NotZero(w) == \E i \in DOMAIN w : w[i] # R0
Len2(w) == SumSeq([i \in DOMAIN w |-> RMul(RConj(w[i]), w[i])[1]])
Key(w) == SumSeq([i \in DOMAIN w |-> (2 * i + 1) * w[i] * (w[i] + i)])
InitS ==
  /\ ready = FALSE
  /\ \/ /\ kind = "level" /\ p = <<>> /\ u = <<>>
        /\ \E n \in Sizes : /\ q \in [1..n -> {-3, 0, 1, 2, 4}] /\ Mod(Key(q) + Seed, (IF n < 3 THEN 3 ELSE IF n = 3 THEN 11 ELSE IF n = 4 THEN 97 ELSE 499) * Per) = 0
             /\ v \in {w \in Vecs(n) : NotZero(w)}
        /\ x = 0
     \/ /\ kind = "count" /\ p = <<>> /\ q = <<>> /\ v = <<>>
        /\ \E n \in 1..4 : u \in {RMat(n, n, LAMBDA i, j : RG(<<Mod(w * i + 3 * j * j + i * j + Seed, 6) - 2, Mod(w * j + i + Seed, 5) - 2>>)) : w \in 0..7}
        /\ x = 0
     \/ /\ kind = "kernel" /\ u = <<>>
        /\ \E n \in 2..4 : /\ p = <<n>> /\ q \in [1..n -> {1, 2, 3, 5, 8}] /\ Mod(Key(q) + Seed, (IF n = 2 THEN 1 ELSE IF n = 3 THEN 5 ELSE 29) * Per) = 0
             /\ v \in {w \in Vecs(n) : NotZero(w)}
        /\ x = 0
     \/ /\ kind = "bins" /\ p = <<>> /\ q = <<>> /\ v = <<>>
        /\ x \in {<<r, n, w>> : r \in {13, 17, 19}, n \in {2, 3, 6, 13}, w \in 0..5} \cup {<<17, 1250, 1 + Mod(Seed, 5)>>, <<29, 1310, 2>>}
        /\ u = [i \in 1..x[2] |-> IF i = 1 THEN 0 ELSE IF i = 2 THEN x[1] ELSE Mod(i * i * x[3] + i + Seed, x[1] + 1)]
     \/ /\ kind = "prob" /\ v = <<>>
        /\ p \in {<<a, b, c>> : a \in 1..3, b \in 1..2, c \in 1..3} /\ q \in {<<r, t>> : r \in 1..3, t \in {1, 2, 4}}
        /\ Mod(p[1] + 2 * p[2] + 3 * p[3] + 5 * q[1] + 7 * q[2] + Seed, 3 * Per) = 0
        /\ u = [i \in 1..(p[1] * p[2] * p[3] * q[1] * q[2]) |-> Mod(i * i * 5 + i + Seed, 11)] /\ x = 0
     \/ /\ kind = "rates" /\ v = <<>> /\ x = 0
        /\ \E n \in {1, 2, 3, 5}, m \in 1..3 : /\ p = <<n, m>>
             /\ u \in {[t \in 1..m |-> [i \in 1..n |-> <<Mod((i * w + t) * (i + 2), 7) - i, Mod(i + t + w, 2) * (3 + i)>>]] : w \in 0..9}
        /\ \A t \in DOMAIN u : \A i, j \in DOMAIN u[t] : i # j => u[t][i][1] * u[t][i][1] + u[t][i][2] * u[t][i][2] # u[t][j][1] * u[t][j][1] + u[t][j][2] * u[t][j][2]
        /\ q = [t \in 1..p[2] |-> [i \in 1..p[1] |-> <<-Mod(3 * i * t + Seed, 8), Mod(i + t, 3) - 1>>]]
     \/ /\ kind = "ticks" /\ p = <<>> /\ q = <<>> /\ u = <<>> /\ v = <<>>
        /\ x \in {<<a, b>> \in (0..6) \X (0..7) : a < b}
----------------------------------------------------------------------------
\* in increasing order: positions of q
Before(f, i, j) == f[i] < f[j] \/ (f[i] = f[j] /\ i < j)
Order(f) == LET g == TLCEval(f) IN [k \in DOMAIN g |-> CHOOSE i \in DOMAIN g : Cardinality({j \in DOMAIN g : Before(g, j, i)}) = k - 1]
InOrder(f) == LET g == TLCEval(f) o == TLCEval(Order(g)) IN [k \in DOMAIN g |-> g[o[k]]]
Size2(z) == RMul(RConj(z), z)[1]
\* ---- levels
SN == Len(q)
Refl == LET s == Len2(v) IN RMat(Len(v), Len(v), LAMBDA i, j : RSub(IF i = j THEN RInt(s) ELSE R0, RScale(2, RMul(v[i + 1], RConj(v[j + 1])))))
Turned(w) == RMM(RMM(Refl, RMat(Len(w), Len(w), LAMBDA i, j : IF i = j THEN w[i + 1] ELSE R0)), RAdj(Refl))   \* over Len2(v)^2
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Above == LET s == InOrder(q) IN [k \in DOMAIN s |-> s[k] - s[1]]
Occupied == LET a == Above IN [k \in DOMAIN a |-> Pow2(a[SN] - a[k])]
Partition == SumSeq(Occupied)
\* ---- counts
CN == Len(u)
Entries == RFlatten(u)
DiagOf(i) == Arr(CN, LAMBDA j : u[Mod(j - i, CN) + 1][j + 1])
DiagSize(i) == SumSeq([j \in 1..CN |-> Size2(DiagOf(i)[j])])
\* ---- kernels: operator k is column k of the reflection
Lost == LET s == InOrder(q) IN Arr(SN + 1, LAMBDA t : SumTo(t, LAMBDA k : s[k + 1]))
Ker == Turned([i \in DOMAIN q |-> RInt(q[i])])
Shifted == LET k == TLCEval(Ker) n == SN IN RMat(n, n, LAMBDA i, j : k[Mod(i - (n \div 2), n) + 1][Mod(j - (n \div 2), n) + 1])
\* (for four operators on two states) what operator k does between states i and j
OpEntry(k, i, j) == Refl[2 * i + j + 1][k + 1]
FullKer == RFlatten(RMat(4, 4, LAMBDA a, b : RSumTo(4, LAMBDA k :
   RScale(q[k + 1], RMul(RConj(OpEntry(k, a % 2, a \div 2)), OpEntry(k, b \div 2, b % 2))))))
\* ---- bins
Bins == IF x[2] \div 100 > 11 THEN x[2] \div 100 ELSE 11
Bin(w) == IF w = x[1] THEN Bins - 1 ELSE (w * Bins) \div x[1]
Filled == LET f == TLCEval([i \in DOMAIN u |-> Bin(u[i])]) IN Arr(Bins, LAMBDA b : Cardinality({i \in DOMAIN f : f[i] = b}))
\* ---- probabilities: of repeat r, at time t, of band c at site (a, b)
PV(r, t, a, b, c) == u[(((r * q[2] + t) * p[1] + a) * p[2] + b) * p[3] + c + 1]
PerBand(r) == Arr(q[2], LAMBDA t : Arr(p[3], LAMBDA c : SumTo(p[1], LAMBDA a : SumTo(p[2], LAMBDA b : PV(r, t, a, b, c)))))
PerSite(r) == Arr(q[2], LAMBDA t : Arr(p[1] * p[2], LAMBDA s : SumTo(p[3], LAMBDA c : PV(r, t, s \div p[2], s % p[2], c))))
Whole(r) == Arr(q[2], LAMBDA t : SumTo(p[3], LAMBDA c : PerBand(r)[t + 1][c + 1]))
AllRepeats == Arr(q[2], LAMBDA t : Arr(p[3], LAMBDA c : SumTo(q[1], LAMBDA r : PerBand(r)[t + 1][c + 1])))
\* ---- rates, largest part first
Part(t, i) == u[t][i][1] * u[t][i][1] + u[t][i][2] * u[t][i][2]
Decay(t) == LET o == Order([i \in 1..p[1] |-> -Part(t, i)]) IN [k \in 1..p[1] |-> -q[t][o[k]][1]]
\* ---- ticks: seven times the squares
Marks == Arr(8, LAMBDA k : (7 - k) * x[1] * x[1] + k * x[2] * x[2])

EmitS == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, p |-> p, q |-> q, x |-> x, u |-> u] @@
  (CASE kind = "level" -> [ham |-> RFlatten(Turned([i \in DOMAIN q |-> RInt(q[i])])), den |-> Len2(v) * Len2(v), above |-> Above, occ |-> Occupied, z |-> Partition,
            sizes |-> InOrder([i \in DOMAIN q |-> Abs(q[i])]), bysize |-> LET o == Order([i \in DOMAIN q |-> Abs(q[i])]) IN [k \in DOMAIN q |-> q[o[k]]],
            clear |-> \A i, j \in DOMAIN q : Abs(q[i]) = Abs(q[j]) => q[i] = q[j]]
    [] kind = "count" -> [sizes |-> InOrder([i \in 1..(CN * CN) |-> Size2(Entries[i])]), reals |-> InOrder([i \in 1..(CN * CN) |-> Entries[i][1]]),
            diags |-> InOrder([i \in 1..CN |-> DiagSize(i - 1)])]
    [] kind = "kernel" -> [ker |-> RFlatten(Ker), den |-> Len2(v) * Len2(v), lost |-> Lost, shifted |-> RFlatten(Shifted), ops |-> RFlatten(RAdj(Refl)), one |-> Len2(v),
            full |-> IF SN = 4 THEN FullKer ELSE <<>>, ordered |-> InOrder(q)]
    [] kind = "bins" -> [filled |-> Filled]
    [] kind = "prob" -> [band |-> Arr(q[1], PerBand), site |-> Arr(q[1], PerSite), whole |-> Arr(q[1], Whole), all |-> AllRepeats]
    [] kind = "rates" -> [decay |-> [t \in 1..p[2] |-> Decay(t)]]
    [] kind = "ticks" -> [marks |-> Marks])))
----------------------------------------------------------------------------
\* each unit of energy halves the occupation, the order is that of energy, and the reflection keeps lengths and energies
Halved == (ready /\ kind = "level") =>
  /\ \A a, b \in 1..SN : /\ (a < b => Above[a] <= Above[b] /\ Occupied[a] >= Occupied[b])
                         /\ (Above[b] >= Above[a] => Occupied[a] = Occupied[b] * Pow2(Above[b] - Above[a]))
  /\ RMM(Refl, RAdj(Refl)) = RMat(SN, SN, LAMBDA i, j : IF i = j THEN RInt(Len2(v) * Len2(v)) ELSE R0)
  /\ RTrace(Turned([i \in DOMAIN q |-> RInt(q[i])])) = RInt(Len2(v) * Len2(v) * SumSeq(q))
\* the diagonals hold every entry once
Shared == (ready /\ kind = "count") => SumSeq([i \in 1..CN |-> DiagSize(i - 1)]) = SumSeq([i \in 1..(CN * CN) |-> Size2(Entries[i])])
\* leaving out nothing loses nothing; each more operator loses at least as much as the one before; all of it is the trace
Lossy == (ready /\ kind = "kernel") =>
  /\ Lost[1] = 0 /\ \A t \in 2..SN : Lost[t + 1] - Lost[t] >= Lost[t] - Lost[t - 1]
  /\ RInt(Lost[SN + 1] * Len2(v) * Len2(v)) = RTrace(Ker) /\ RTrace(Shifted) = RTrace(Ker)
\* every value falls in one bin, the outermost bins are not empty
Binned == (ready /\ kind = "bins") => SumSeq(Filled) = x[2] /\ Filled[1] > 0 /\ Filled[Bins] > 0 /\ \A i \in DOMAIN u : (u[i] = 0 \/ u[i] = x[1] \/ Mod(u[i] * Bins, x[1]) # 0)
Totals == (ready /\ kind = "prob") => \A r \in 0..q[1] - 1 : \A t \in 1..q[2] : SumSeq(PerSite(r)[t]) = Whole(r)[t] /\ SumSeq(PerBand(r)[t]) = Whole(r)[t]
Kept2 == (ready /\ kind = "rates") => \A t \in DOMAIN u : SumSeq(Decay(t)) = -SumSeq([i \in 1..p[1] |-> q[t][i][1]])
Marked == (ready /\ kind = "ticks") => Marks[1] = 7 * x[1] * x[1] /\ Marks[8] = 7 * x[2] * x[2] /\ \A k \in 1..7 : Marks[k + 1] - Marks[k] = x[2] * x[2] - x[1] * x[1]
=============================================================================

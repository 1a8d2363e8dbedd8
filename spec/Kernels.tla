------------------------------ MODULE Kernels -------------------------------
(* Noise kernels: the correlation between matrix elements of a noise       *)
(* operator, K[ij,kl] = sum_s e_s conj(L_s[j,i]) L_s[k,l] for operators    *)
(* L_s with eigenvalues e_s; diagonal operators have K[i,j] = sum_s e_s    *)
(* conj(L_s[i]) L_s[j]; isotropic kernels K[i,j] = h[i - j] modulo the     *)
(* periods of the axes.  Every decomposition into operators must give the  *)
(* kernel back.  All values are exact, in Z[exp(i pi/6)] (R12).            *)
EXTENDS R12, Json
CONSTANTS Seed, Big
VARIABLES kind, shape, w, ready
vars == <<kind, shape, w>>

Sh1 == {<<n>> : n \in 1..(IF Big THEN 7 ELSE 5)}
Sh2 == {<<2, 3>>, <<3, 2>>, <<2, 2>>, <<1, 3>>} \cup (IF Big THEN {<<3, 3>>, <<2, 4>>, <<4, 2>>} ELSE {})
Sh3 == {<<2, 1, 2>>, <<2, 2, 2>>}
\* every axis divides 12, so its plane waves are in the ring
ShF == {<<n>> : n \in {1, 2, 3, 4, 6}} \cup {<<2, 3>>, <<3, 2>>, <<2, 2>>, <<4, 2>>} \cup {<<2, 2, 2>>}
       \cup (IF Big THEN {<<12>>, <<3, 3>>, <<4, 3>>} ELSE {})
\* larger grids, a few per run
Some(s, m) == {s[i] : i \in {j \in DOMAIN s : Mod(j + Seed + w, m) = 0}}
WIso == <<<<8>>, <<12>>, <<17>>, <<3, 5>>, <<9, 2>>, <<2, 3, 3>>, <<7>>, <<4, 4>>, <<25>>, <<2, 7>>, <<10>>, <<5, 5>>>>
Wide == LET m == IF Big THEN 1 ELSE 4 IN
  \/ kind = "diag" /\ w < 2 /\ shape \in Some(<<<<7, 2>>, <<5, 8>>, <<9, 9>>, <<4, 12>>, <<6, 6>>, <<8, 7>>>>, 2)
  \/ kind \in {"iso", "axis"} /\ w < 3 /\ shape \in Some(WIso, m)
  \/ kind = "ops" /\ w < 3 /\ shape \in Some(<<<<5>>, <<7>>, <<3, 2>>, <<6>>>>, 4)
  \/ kind = "herm" /\ shape \in Some(<<<<12>>, <<4, 3>>, <<2, 6>>>>, 3)
  \/ kind = "fft" /\ w < 4 /\ shape \in Some(<<<<12>>, <<4, 3>>, <<6, 2>>, <<2, 3, 2>>>>, 4)
  \/ kind = "linear" /\ w < 2 /\ shape \in Some(<<<<8>>, <<9>>, <<12>>, <<15>>, <<11>>, <<10>>>>, 2)
  \/ kind = "temp" /\ shape \in Some(<<<<6>>, <<12>>, <<2, 3>>>>, 3)
Init == ready = FALSE /\ w \in 0..5 /\
  \/ Wide
  \/ kind = "diag" /\ shape \in {<<a, b>> : a, b \in 1..3} /\ w < 2
  \/ kind = "iso" /\ shape \in Sh1 \cup Sh2 \cup Sh3 /\ w < 3
  \/ kind = "axis" /\ shape \in Sh1 \cup Sh2 \cup Sh3 /\ w < 3
  \/ kind = "ops" /\ shape \in {<<2>>, <<3>>, <<2, 2>>} /\ w < 3
  \/ kind = "herm" /\ shape \in {<<2>>, <<3>>, <<4>>, <<6>>, <<2, 2>>}
  \/ kind = "hermfull" /\ shape = <<2>>
  \/ kind = "fft" /\ shape \in ShF /\ w < 4
  \/ kind = "cos" /\ shape \in {<<4>>, <<6>>, <<12>>} /\ w < 3
  \/ kind = "moments" /\ shape \in {<<n>> : n \in 4..12} /\ w \in 1..3
  \/ kind = "linear" /\ shape \in {<<n>> : n \in 2..7} /\ w < 2
  \/ kind = "temp" /\ shape \in {<<3>>, <<4>>, <<2, 2>>} 
Next == ~ready /\ ready' = TRUE /\ UNCHANGED vars

N == ProdSeq(shape)
ND == Len(shape)
Diff(i, j) == LET x == Digits(shape, i) y == Digits(shape, j) IN Flat(shape, [a \in 1..ND |-> Mod(x[a] - y[a], shape[a])])
RMatOf(n, F(_, _)) == RMat(n, n, F)
SumOver(S, F(_)) == LET RECURSIVE Go(_) Go(T) == IF T = {} THEN R0 ELSE LET x == CHOOSE x \in T : TRUE IN RAdd(F(x), Go(T \ {x})) IN Go(S)
Tor(h) == LET g == TLCEval(h) IN RMatOf(N, LAMBDA i, j : g[Diff(i, j) + 1])

\* ---- diagonal kernels as full ones (between axes of size a and b)
DiagK == RUnflat(RData(Seed + w, N), shape[1], shape[2])
DiagFull == LET k == TLCEval(DiagK) a == shape[1] b == shape[2] IN
  Arr(a * a * b * b, LAMBDA f : LET d == Digits(<<a, a, b, b>>, f) IN
    IF d[1] = d[2] /\ d[3] = d[4] THEN k[d[1] + 1][d[3] + 1] ELSE R0)

\* ---- isotropic
Iso == RData(Seed + 3 * w + ND, N)
\* ---- kernels that are products over the axes
AxisData(a) == Arr(shape[a], LAMBDA i : IF i = 0 THEN RInt(IF w = 2 THEN 4 ELSE 1 + w)
                 ELSE IF w = 2 THEN RInt(4 - 3 * Min2(i, shape[a] - i)) ELSE RDatum(Seed + 5 * a + w, i))
RECURSIVE RProd(_)
RProd(s) == IF s = <<>> THEN R1 ELSE RMul(Head(s), RProd(Tail(s)))
Outer == LET ax == TLCEval([a \in 1..ND |-> TLCEval(AxisData(a))]) IN
  Arr(N, LAMBDA f : LET d == Digits(shape, f) IN RProd([a \in 1..ND |-> ax[a][d[a] + 1]]))

\* ---- kernels of operators
NL == 3
Op(s) == RUnflat(RData(Seed + 7 * s + w, N * N), N, N)
OpEig(s) == IF w = 0 THEN RInt(s + 1) ELSE RG(Datum(Seed + w, s + 5))
Kernel4(n, num, L(_), e(_)) ==
  LET ls == TLCEval([s \in 1..num |-> TLCEval(L(s - 1))]) es == TLCEval([s \in 1..num |-> e(s - 1)]) IN
  TLCEval(Arr(n * n * n * n, LAMBDA f : LET d == Digits(<<n, n, n, n>>, f) IN
    RSumTo(num, LAMBDA s : RMul(es[s + 1], RMul(RConj(ls[s + 1][d[2] + 1][d[1] + 1]), ls[s + 1][d[3] + 1][d[4] + 1])))))
Kernel2(n, num, L(_), e(_)) ==
  LET ls == TLCEval([s \in 1..num |-> TLCEval(L(s - 1))]) es == TLCEval([s \in 1..num |-> e(s - 1)]) IN
  RMat(n, n, LAMBDA i, j : RSumTo(num, LAMBDA s : RMul(es[s + 1], RMul(RConj(ls[s + 1][i + 1]), ls[s + 1][j + 1]))))
DiagOf(A) == [i \in DOMAIN A |-> A[i][i]]

\* ---- hermitian kernels with known eigenvectors (over N): v_s[x] = plane wave times a phase
Dim == IF kind = "hermfull" THEN 4 ELSE N
Vec(s) == Arr(Dim, LAMBDA x : RMul(RW(Mod((12 \div Dim) * s * x, 12)), RW(3 * Mod(x * w + w, 4))))
HEig(s) == CASE w = 0 -> s + 1                       \* distinct
             [] w = 1 -> IF s = 0 THEN 5 ELSE 0      \* a single operator
             [] w = 2 -> 2                           \* white noise: zeros off the diagonal
             [] w = 3 -> IF s % 2 = 0 THEN 3 ELSE 1  \* degenerate, with zeros
             [] w = 4 -> (2 * s - 3) * (s + 1)       \* indefinite
             [] w = 5 -> Dim - s
Part(lo) == Kernel2(Dim, Dim, Vec, LAMBDA s : RInt(IF s \in lo THEN HEig(s) ELSE 0))
Herm == Part(0..Dim - 1)
Abs_(i) == IF i < 0 THEN -i ELSE i
\* the k operators of largest |e| (diagonal lists) or largest e (full lists)
TopAbs(k) == {s \in 0..Dim - 1 : Cardinality({t \in 0..Dim - 1 : Abs_(HEig(t)) > Abs_(HEig(s))}) < k}
Top(k) == {s \in 0..Dim - 1 : Cardinality({t \in 0..Dim - 1 : HEig(t) > HEig(s)}) < k}
Distinct == \A s, t \in 0..Dim - 1 : s # t => HEig(s) # HEig(t) /\ Abs_(HEig(s)) # Abs_(HEig(t))
\* as a full kernel of 2x2 operators: M[(j i),(k l)] = K[ij,kl]
HermFull == LET m == TLCEval(Herm) IN Arr(16, LAMBDA f : LET d == Digits(<<2, 2, 2, 2>>, f) IN m[2 * d[2] + d[1] + 1][2 * d[3] + d[4] + 1])
\* the same kernel for operators written in the momentum basis: L' = F L F+ (times 2)
Wave == RMat(N, N, LAMBDA k, x : LET a == Digits(shape, k) b == Digits(shape, x) IN
          RW(Mod(-SumSeq([c \in 1..ND |-> (12 \div shape[c]) * a[c] * b[c]]), 12)))
OpOf(s) == IF kind = "hermfull" THEN RUnflat(Vec(s), 2, 2)
           ELSE RMat(N, N, LAMBDA i, j : IF i = j THEN Vec(s)[i + 1] ELSE R0)
KMom == Kernel4(N, Dim, LAMBDA s : RMM(Wave, RMM(OpOf(s), RAdj(Wave))), LAMBDA s : RInt(HEig(s)))   \* over Dim N^2

\* ---- isotropic kernels with h[-d] = conj h[d]; the spectrum of real operators
Neg(f) == Flat(shape, [a \in 1..ND |-> Mod(-Digits(shape, f)[a], shape[a])])
FG(i) == IF w < 2 THEN RInt(Datum(Seed + w, i)[1]) ELSE RDatum(Seed + w, i)
FftData == TLCEval(Arr(N, LAMBDA f : RAdd(FG(f), RConj(FG(Neg(f))))))
Waves(k, d) == RW(Mod(SumSeq([a \in 1..ND |-> (12 \div shape[a]) * Digits(shape, k)[a] * Digits(shape, d)[a]]), 12))
Spectrum == LET h == FftData IN Arr(N, LAMBDA k : RSumTo(N, LAMBDA d : RMul(h[d + 1], Waves(k, d))))
\* with fewer operators, only the shortest displacements are kept
Divs == {f \in [1..ND -> 1..12] : \A a \in 1..ND : shape[a] % f[a] = 0}
PadK(f) == LET h == FftData IN RMatOf(N, LAMBDA i, j :
   LET x == Digits(shape, i) y == Digits(shape, j) IN
   h[Flat(shape, [a \in 1..ND |-> Mod(Low(f[a])[Mod(x[a] - y[a], f[a]) + 1], shape[a])]) + 1])
\* a number of operators which does not divide the grid: they repeat after f points of the
\* displacement between the points nearest zero; displacements beyond the grid are not correlated
Loose == {f \in {[a \in 1..ND |-> shape[a] + 1], [a \in 1..ND |-> Max2(shape[a] - 1, 1)], [a \in 1..ND |-> 2 * shape[a]],
               [a \in 1..ND |-> IF a = 1 THEN shape[a] + 2 ELSE shape[a]]} : \E a \in 1..ND : shape[a] % f[a] # 0}
LooseK(f) == LET h == FftData low == TLCEval([a \in 1..ND |-> Low(shape[a])]) lf == TLCEval([a \in 1..ND |-> Low(f[a])]) IN
   RMatOf(N, LAMBDA i, j :
   LET x == Digits(shape, i) y == Digits(shape, j)
       d == [a \in 1..ND |-> lf[a][Mod(low[a][x[a] + 1] - low[a][y[a] + 1], f[a]) + 1]] IN
   IF \E a \in 1..ND : d[a] \notin {low[a][z] : z \in 1..shape[a]} THEN R0
   ELSE h[Flat(shape, [a \in 1..ND |-> Mod(d[a], shape[a])]) + 1])
RECURSIVE SetSeq(_)
SetSeq(X) == IF X = {} THEN <<>> ELSE LET x == TLCEval(CHOOSE x \in X : TRUE) IN <<x>> \o SetSeq(TLCEval(X \ {x}))

\* ---- cosine series: K[i,j] = sum_m c_m cos(2 pi m (i - j) / n), twice; its taylor
\* coefficients times (2m)! at displacement zero
NT == Min2(N \div 2, 4)
CosC(m) == (IF m = 0 THEN 9 ELSE 0) + Datum(Seed + w, m)[1] + (IF m = 1 THEN 8 ELSE 0) + 4 * (NT - m)
CosK == RMatOf(N, LAMBDA i, j : RSumTo(NT, LAMBDA m : RScale(CosC(m), RAdd(RW(Mod((12 \div N) * m * (i - j), 12)), RW(Mod((12 \div N) * m * (j - i), 12))))))
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
Sgn(m) == IF m % 2 = 0 THEN 1 ELSE -1
Sum0(n, F(_)) == LET S[k \in 0..n] == IF k = 0 THEN 0 ELSE S[k - 1] + F(k - 1) IN S[n]
Taylor(m) == Sgn(m) * Sum0(NT, LAMBDA i : CosC(i) * Pow(i, 2 * m))
\* ---- moments sum_i c_i i^(2m) that a cosine series must have to share the taylor
\* coefficients of exp(-q d^2) and of 1 / (1 + q d^2), q = w
MT == Min2(N \div 2, 4)
RECURSIVE Fact(_)
Fact(n) == IF n = 0 THEN 1 ELSE n * Fact(n - 1)
GaussM(m) == (Fact(2 * m) \div Fact(m)) * Pow(w, m)
LorM(m) == Fact(2 * m) * Pow(w, m)
\* ---- linear operators: powers of the displacement from the middle point
LinD(x) == LET n == N IN Mod((n \div 2) - x + (n \div 2), n) - (n \div 2)

\* ---- finite temperature: L' = L - [H, L] / (4 k T), operators (p,p) against (u,u)
Leaves(sp, s, cut) == [a \in DOMAIN s |-> LeafLow(sp[a], IF cut THEN Max2(s[a] - 1, 1) ELSE s[a], s[a])]
P == Leaves(IF ND = 1 THEN <<"x">> ELSE <<"x", "k">>, shape, w = 4)
U == CASE w \in {0, 4} -> P
       [] w \in {1, 5} -> Leaves(IF ND = 1 THEN <<"k">> ELSE <<"k", "x">>, shape, w = 5)
       [] w = 2 -> Leaves(IF ND = 1 THEN <<"x">> ELSE <<"x", "x">>, shape, TRUE)
       [] w = 3 -> Leaves(IF ND = 1 THEN <<"k">> ELSE <<"k", "k">>, shape, TRUE)
Cv(b2, b1) == LET m == TLCEval(MatS(12, b2, b1)) IN TLCEval([i \in DOMAIN m |-> TLCEval([j \in DOMAIN m[i] |-> RE(m[i][j])])])
Ham == LET a == RUnflat(RData(Seed + w, NOf(P) * NOf(P)), NOf(P), NOf(P)) b == RAdj(a) IN
       TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a |-> RAdd(a[i][j], b[i][j])])])
TOp(s) == RUnflat(RData(Seed + 3 * s + w, NOf(U) * NOf(U)), NOf(U), NOf(U))
TDiag(s) == LET a == TLCEval(TOp(s)) IN RMat(NOf(U), NOf(U), LAMBDA i, j : IF i = j THEN a[i + 1][i + 1] ELSE R0)
Minus(A, B) == LET a == TLCEval(A) b == TLCEval(B) IN TLCEval([i \in DOMAIN a |-> TLCEval([j \in DOMAIN a[i] |-> RSub(a[i][j], b[i][j])])])
Comm(A, B) == Minus(RMM(A, B), RMM(B, A))
InP(s) == RMM(Cv(P, U), RMM(TOp(s), Cv(U, P)))                        \* over S(P,U)
HInU == RMM(Cv(U, P), RMM(Ham, Cv(P, U)))                            \* over S(P,U)

Mat(A) == RFlatten(A)
Emit == ready => PrintT("@@" \o ToJson(
  [kind |-> kind, shape |-> shape, w |-> w] @@
  (CASE kind = "diag" -> [k |-> Mat(DiagK), full |-> DiagFull]
    [] kind = "iso" -> [h |-> Iso, k |-> Mat(Tor(Iso))]
    [] kind = "axis" -> [ax |-> [a \in 1..ND |-> AxisData(a)], h |-> Outer, k |-> Mat(Tor(Outer))]
    [] kind = "ops" -> [ops |-> [s \in 1..NL |-> Mat(Op(s - 1))], eig |-> [s \in 1..NL |-> OpEig(s - 1)],
                        k |-> Mat(Kernel2(N, NL, LAMBDA s : DiagOf(Op(s)), OpEig)),
                        full |-> Kernel4(N, NL, Op, OpEig)]
    [] kind = "herm" -> [den |-> Dim, k |-> Mat(Herm), eig |-> [s \in 1..Dim |-> HEig(s - 1)],
                         trunc |-> IF Distinct THEN [k \in 1..Dim |-> Mat(Part(TopAbs(k)))] ELSE <<>>,
                         mom |-> IF N <= 4 THEN KMom ELSE <<>>]
    [] kind = "hermfull" -> [den |-> Dim, full |-> HermFull, eig |-> [s \in 1..Dim |-> HEig(s - 1)],
                             ops |-> [s \in 1..Dim |-> Mat(OpOf(s - 1))],
                             trunc |-> IF Distinct THEN [k \in 1..Dim |-> LET m == TLCEval(Part(Top(k))) IN
                                Arr(16, LAMBDA f : LET d == Digits(<<2, 2, 2, 2>>, f) IN m[2 * d[2] + d[1] + 1][2 * d[3] + d[4] + 1])] ELSE <<>>,
                             mom |-> KMom]
    [] kind = "fft" -> [h |-> FftData, spec |-> Spectrum, k |-> Mat(Tor(FftData)),
                        pad |-> [i \in DOMAIN SetSeq(Divs) |-> LET f == SetSeq(Divs)[i] IN <<f, Mat(PadK(f))>>],
                        loose |-> [i \in DOMAIN SetSeq(Loose) |-> LET f == SetSeq(Loose)[i] IN <<f, Mat(LooseK(f))>>]]
    [] kind = "cos" -> [nt |-> NT, c |-> [m \in 1..NT |-> CosC(m - 1)], k2 |-> Mat(CosK), taylor |-> [m \in 1..NT |-> Taylor(m - 1)]]
    [] kind = "moments" -> [nt |-> MT, gauss |-> [m \in 1..MT |-> GaussM(m - 1)], lor |-> [m \in 1..MT |-> LorM(m - 1)]]
    [] kind = "linear" -> [d |-> [x \in 1..N |-> LinD(x - 1)]]
    [] kind = "temp" -> [p |-> P, u |-> U, s |-> ScaleS(P, U), ham |-> Mat(Ham),
                         full |-> [s \in 1..2 |-> Mat(TOp(s))], diag |-> [s \in 1..2 |-> Mat(TDiag(s))],
                         inp |-> [s \in 1..2 |-> Mat(InP(s))], comm |-> [s \in 1..2 |-> Mat(Comm(Ham, InP(s)))],
                         dcomm |-> [s \in 1..2 |-> Mat(Comm(HInU, TDiag(s)))]])))
----------------------------------------------------------------------------
\* summing an isotropic kernel against plane waves diagonalises it: the kernel is
\* the sum over k of spectrum times wave, over N
Transforms == (ready /\ kind = "fft") =>
  LET sp == TLCEval(Spectrum) h == FftData IN \A d \in 0..N - 1 :
    RSumTo(N, LAMBDA k : RMul(sp[k + 1], RConj(Waves(k, d)))) = RScale(N, h[d + 1])
RealSpectrum == (ready /\ kind = "fft") => \A k \in 1..N : Spectrum[k] = RConj(Spectrum[k])
Hermitian == (ready /\ kind = "herm") => RAdj(Herm) = Herm
\* the eigenvectors: K v~ = N e v~ for the conjugate vectors
EigenPairs == (ready /\ kind \in {"herm", "hermfull"}) => LET m == TLCEval(Herm) IN \A s \in 0..Dim - 1 :
  LET v == TLCEval(Vec(s)) col == TLCEval([i \in 1..Dim |-> <<RConj(v[i])>>]) IN
  RMM(m, col) = TLCEval([i \in 1..Dim |-> <<RScale(Dim * HEig(s), col[i][1])>>])
\* where the operators do repeat with the grid nothing is special about the points nearest zero
LooseLaw == (ready /\ kind = "fft") => \A f \in Divs : LooseK(f) = PadK(f)
\* the axis kernel is isotropic with the product of its axes
Separable == (ready /\ kind = "axis" /\ ND > 1) => LET k == TLCEval(Tor(Outer)) IN \A i, j \in 0..N - 1 :
  k[i + 1][j + 1] = RProd([a \in 1..ND |-> AxisData(a)[Mod(Digits(shape, i)[a] - Digits(shape, j)[a], shape[a]) + 1]])
=============================================================================

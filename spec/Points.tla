------------------------------ MODULE Points ------------------------------
(* Charts made of points: the points of a plane of the grid and of its     *)
(* reciprocal grid seen along two directions, Bragg points, the first      *)
(* Brillouin zone; a potential above named sites of a surface; tables of   *)
(* measured energies.  A point p is drawn at p.w / |w| for the two         *)
(* orthogonalised directions w (Geometry!GS); for a reciprocal grid both   *)
(* are in units of 2 pi / |Det|.                                           *)
EXTENDS Geometry
CONSTANTS Per
VARIABLE grid     \* sites: <<n0, n1, n2>> and offset; tables: a list of rows

PMix(f) == Mod(SumSeq([a \in DOMAIN f |-> (2 * a + 1) * f[a] * f[a] + 7 * a * f[a]]) + Seed, Per) = 0
PInit == ready = FALSE /\ (
  \/ /\ kind = "cloud" /\ grid = <<>>
     /\ \E k \in {2, 3} :
          /\ D \in (IF k = 2 THEN GLat2 ELSE GLat3)
          /\ ns \in [1..k -> 1..(IF k = 2 THEN 4 ELSE 3)]
          /\ nfs \in {[a \in 1..k |-> ns[a]], [a \in 1..k |-> ns[a] + (IF a = 1 THEN 1 ELSE IF a = 3 THEN 2 ELSE 0)]}
          /\ PMix(ns \o nfs \o D[2])
          /\ sp \in {[a \in 1..k |-> "x"], [a \in 1..k |-> IF a = 2 THEN "k" ELSE "x"], [a \in 1..k |-> "k"]}
          /\ (k = 3 => Mod(SumSeq(ns) + Seed, 3) = (IF sp[1] = "k" THEN 0 ELSE IF sp[2] = "k" THEN 1 ELSE 2))
  \/ /\ kind = "sites" /\ D \in GLat3 /\ sp = <<"x", "x", "x">>
     /\ ns \in {<<a, b, c>> : a \in 1..8, b \in 1..8, c \in 2..3} /\ nfs = ns
     /\ grid \in {<<0, 0>>, <<1, 0>>, <<-1, 1>>, <<-1, -1>>}
     /\ PMix(ns \o grid \o D[2] \o <<Len(D)>>) /\ Mod(ns[1] + 2 * ns[2] + grid[1] + Seed, 3) = 0
  \/ /\ kind = "table" /\ D = <<<<1>>>> /\ ns = <<1>> /\ nfs = ns /\ sp = <<"x">>
     /\ grid \in {Arr(n, LAMBDA i : <<Mod(h * i + i * i, w), Mod(i * (h + i + 1) + h, 3), Mod(5 * i + h, 11) + i, Mod(7 * i * i + h, 23) - 9>>) :
                    n \in 1..9, h \in 0..4, w \in 1..3} )
PNext == ~ready /\ ready' = TRUE /\ UNCHANGED <<D, ns, nfs, sp, kind, grid>>

Sgn == IF Det > 0 THEN 1 ELSE -1
XDir(f) == [i \in 1..2 |-> GS([j \in 1..2 |-> D[f[j]]], i)]
KDir(f) == [i \in 1..2 |-> GS([j \in 1..2 |-> LET k == KNum(UnitA(f[j])) IN [c \in DOMAIN k |-> Sgn * k[c]]], i)]
Pairs == {f \in [1..2 -> 1..ND] : f[1] # f[2]}
\* where a point is drawn: numerators p.w; the denominators are sqrt(Sq(w))
DrawnAt(p, w) == <<Dot(p, w[1]), Dot(p, w[2])>>
Rest(f) == SelectSeq([a \in 1..ND |-> a], LAMBDA a : a # f[1] /\ a # f[2])
\* the indices of the points in the plane of axes f through the index r of the other axes
InPlane(order, f, r) == SelectSeq(order, LAMBDA d : \A j \in DOMAIN Rest(f) : d[Rest(f)[j]] = r[j])
Planes(f) == IF ND = 2 THEN <<<<>>>> ELSE Arr(nfs[Rest(f)[1]], LAMBDA i : <<i>>)
\* the index of position i along an axis of the reciprocal grid is Low(n)[i]
KPlane(f, r) == [j \in DOMAIN r |-> Low(nfs[Rest(f)[j]])[r[j] + 1]]
\* a film of the surface: one point along the third axis
Film == KOrder([a \in 1..ND |-> IF a = 3 THEN 1 ELSE ns[a]])
\* folded until no Bragg plane is left between the point and the origin
RECURSIVE FoldAll(_)
FoldAll(S) == LET T == UNION {Fold(e) : e \in S} IN IF T = S THEN S ELSE FoldAll(T)
Zone(d) == SeqOf(FoldAll({d}))
Bragg == BraggIdx(1)
\* a few grid points
Spots == LET o == XOrder(nfs) IN [i \in 1..(IF Len(o) < 3 THEN Len(o) ELSE 3) |-> o[Mod(5 * i * i + Seed, Len(o)) + 1]]

View(f) ==
  LET xw == TLCEval(XDir(f)) kw == TLCEval(KDir(f)) IN
  [axes |-> f, xs |-> <<Sq(xw[1]), Sq(xw[2])>>, ks |-> <<Sq(kw[1]), Sq(kw[2])>>,
   x |-> [i \in DOMAIN Planes(f) |-> [at |-> Planes(f)[i], pts |-> Each(InPlane(XOrder(nfs), f, Planes(f)[i]), LAMBDA d : DrawnAt(XNum(nfs, d), xw))]],
   k |-> [i \in DOMAIN Planes(f) |-> [at |-> Planes(f)[i], pts |-> Each(InPlane(KOrder(nfs), f, KPlane(f, Planes(f)[i])), LAMBDA d : DrawnAt(KNum(d), kw))]],
   bragg |-> Each(Bragg, LAMBDA d : DrawnAt(KNum(d), kw)),
   zone |-> IF ND = 3 THEN Each(Film, LAMBDA d : Each(Zone(d), LAMBDA e : DrawnAt(KNum(e), kw))) ELSE <<>>,
   spots |-> Each(Spots, LAMBDA d : DrawnAt(XNum(nfs, d), xw))]

\* ---- a potential above sites; indices count from the end when negative
Vs(i, j, k) == Mod(31 * i * i + 17 * j + 5 * i * j + 11 * k * k + 3 * k + Seed, 41) - 13
Heights == LET h == Mod(Seed + ns[1], 3) IN Arr(ns[3], LAMBDA k : 2 * k + (IF k > 1 THEN h ELSE 0) - 1)
Site(p) == <<Mod(p[1] + grid[1], ns[1]), Mod(p[2] + grid[2], ns[2])>>
Sites111 == <<<<"Top Site", Site(<<(2 * ns[1]) \div 3, (2 * ns[2]) \div 3>>)>>, <<"Bridge Site", Site(<<ns[1] \div 6, ns[2] \div 6>>)>>,
              <<"FCC Site", Site(<<0, 0>>)>>, <<"HCP Site", Site(<<ns[1] \div 3, ns[2] \div 3>>)>>>>
Sites100 == <<<<"Hollow Site", Site(<<0, 0>>)>>, <<"Bridge Site", Site(<<ns[1] \div 2, 0>>)>>, <<"Top Site", Site(<<ns[1] \div 2, ns[2] \div 2>>)>>>>
\* the offset keeps every site on the grid
Inside(n, o) == /\ o >= -n /\ \A q \in {n \div 2, (2 * n) \div 3} : q + o < n
OffsetFits == Inside(ns[1], grid[1]) /\ Inside(ns[2], grid[2])
Above(s) == Arr(ns[3], LAMBDA k : Vs(s[1], s[2], k))
SiteCurves(t) == [i \in DOMAIN t |-> <<t[i][1], t[i][2], Above(t[i][2])>>]

\* ---- tables of <<x, y, z, energy>>
Locs == LET S == {<<grid[i][1], grid[i][2]>> : i \in DOMAIN grid}
            RECURSIVE Sorted(_)
            Sorted(T) == IF T = {} THEN <<>> ELSE
              LET m == CHOOSE p \in T : \A q \in T : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2]) IN <<m>> \o Sorted(T \ {m})
        IN Sorted(S)
RowsAt(p) == SelectSeq(grid, LAMBDA r : r[1] = p[1] /\ r[2] = p[2])
TableCurves == Each(Locs, LAMBDA p : Each(RowsAt(p), LAMBDA r : <<r[3], r[4]>>))

PEmit == (ready /\ (kind = "sites" => OffsetFits)) => PrintT("@@" \o ToJson(
  IF kind = "cloud" THEN [kind |-> kind, D |-> D, n |-> ns, nf |-> nfs, sp |-> sp, det |-> Abs(Det), sgn |-> Sgn, N |-> NF,
        spots |-> Spots, views |-> Each(SeqOf(Pairs), View)]
  ELSE IF kind = "sites" THEN [kind |-> kind, D |-> D, n |-> ns, off |-> grid, z |-> Heights, d2 |-> Sq(D[3]),
        data |-> Each(XOrder(ns), LAMBDA d : Vs(d[1], d[2], d[3])), s111 |-> SiteCurves(Sites111), s100 |-> SiteCurves(Sites100)]
  ELSE [kind |-> kind, rows |-> grid, locs |-> Locs, curves |-> TableCurves]))
----------------------------------------------------------------------------
\* the planes through all indices of the other axes partition the points of the grid
Partition == (ready /\ kind = "cloud") => \A f \in Pairs :
  /\ SumSeq(Each(Planes(f), LAMBDA r : Len(InPlane(XOrder(nfs), f, r)))) = NF
  /\ SumSeq(Each(Planes(f), LAMBDA r : Len(InPlane(KOrder(nfs), f, KPlane(f, r))))) = NF
\* no point of the zone is closer to a Bragg point than to the origin
InZone == (ready /\ kind = "cloud" /\ ND = 3 /\ Film # <<>>) => \A i \in DOMAIN Film : \A e \in {Zone(Film[i])[j] : j \in DOMAIN Zone(Film[i])} :
  \A g \in {Bragg[j] : j \in DOMAIN Bragg} : Sq(KNum(e)) <= Sq(KNum([a \in 1..ND |-> e[a] - g[a]]))
\* every row of a table is drawn exactly once
AllRows == (ready /\ kind = "table") => SumSeq(Each(TableCurves, Len)) = Len(grid)
=============================================================================

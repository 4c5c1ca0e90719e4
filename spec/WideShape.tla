----------------------------- MODULE WideShape -----------------------------
(***************************************************************************)
(* The layout algebra of NDShape over BigInt: the same mapping, bounds,    *)
(* resolution, slicing and splitting where the numbers are as large as the *)
(* index type allows.  MC_WideShape shows that it agrees with NDShape on   *)
(* small numbers.  A stride that is not known yet is WUNR.                 *)
(***************************************************************************)
EXTENDS BigInt, FiniteSets

WUNR == [i \in 1..(Limbs + 1) |-> 0]
WMn(d) == d[1]
WEx(d) == d[2]
WSt(d) == d[3]
WMx(d) == BSub(BAdd(d[1], d[2]), BOne)

RECURSIVE WSumTo(_, _)
WSumTo(f, n) == IF n = 0 THEN BZero ELSE BAdd(WSumTo(f, n - 1), f[n])
WSum(f) == WSumTo(f, Len(f))
RECURSIVE WProdTo(_, _)
WProdTo(f, n) == IF n = 0 THEN BOne ELSE BMul(WProdTo(f, n - 1), f[n])

WMins(s) == [i \in DOMAIN s |-> WMn(s[i])]
WMaxs(s) == [i \in DOMAIN s |-> WMx(s[i])]
WExts(s) == [i \in DOMAIN s |-> WEx(s[i])]
WStrs(s) == [i \in DOMAIN s |-> WSt(s[i])]
WSize(s) == WProdTo(WExts(s), Len(s))
WEmpty(s) == \E i \in DOMAIN s : IsZero(WEx(s[i]))
WResolved(s) == \A i \in DOMAIN s : WSt(s[i]) # WUNR
WInDim(d, x) == BLe(WMn(d), x) /\ BLe(x, WMx(d))
WInRange(s, x) == \A i \in DOMAIN s : WInDim(s[i], x[i])
WOffset(s, x) == WSum([i \in DOMAIN s |-> BMul(BSub(x[i], WMn(s[i])), WSt(s[i]))])
WFlatMin(s) == WSum([i \in DOMAIN s |-> BMul(BSub(WEx(s[i]), BOne), BMin(BZero, WSt(s[i])))])
WFlatMax(s) == WSum([i \in DOMAIN s |-> BMul(BSub(WEx(s[i]), BOne), BMax(BZero, WSt(s[i])))])
WFlatExtent(s) == BAdd(BSub(WFlatMax(s), WFlatMin(s)), BOne)

WSpan(d) == BMul(BAbs(WSt(d)), WEx(d))
WNested(s) ==
  LET known == {i \in DOMAIN s : WSt(s[i]) # WUNR /\ BLt(BOne, WEx(s[i]))} IN
  /\ \A i \in known : ~IsZero(WSt(s[i]))
  /\ \A i, j \in known :
       i # j => \/ BLe(WSpan(s[i]), BAbs(WSt(s[j])))
                \/ BLe(WSpan(s[j]), BAbs(WSt(s[i])))

WFits(stride, extent, d) ==
  \/ WSt(d) = WUNR
  \/ /\ ~(extent = BOne /\ stride = BAbs(WSt(d)) /\ BLt(BOne, WEx(d)))
     /\ \/ BLe(WSpan(d), stride)
        \/ BLe(BMul(extent, stride), BAbs(WSt(d)))
WCandidates(s) ==
  {BOne} \cup {BMax(BOne, WSpan(s[i])) : i \in {j \in DOMAIN s : WSt(s[j]) # WUNR}}
WBestStride(s, extent) ==
  LET c == {x \in WCandidates(s) : \A i \in DOMAIN s : WFits(x, extent, s[i])}
  IN CHOOSE x \in c : \A y \in c : BLe(x, y)
RECURSIVE WResolveFrom(_, _)
WResolveFrom(s, i) ==
  IF i > Len(s) THEN s
  ELSE IF WSt(s[i]) # WUNR THEN WResolveFrom(s, i + 1)
  ELSE WResolveFrom([s EXCEPT ![i] = <<@[1], @[2], WBestStride(s, WEx(s[i]))>>], i + 1)
WResolve(s) == WResolveFrom(s, 1)

(* Slice arguments: <<0, x, 0>>, <<1, min, extent>>, <<2, 0, 0>> (numbers  *)
(* are BigInts, the kind is not).                                          *)
RECURSIVE WSliceFrom(_, _, _)
WSliceFrom(s, args, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET rest == WSliceFrom(s, args, i + 1)
       IN IF args[i][1] = 0 THEN rest
          ELSE <<IF args[i][1] = 2 THEN s[i] ELSE <<args[i][2], args[i][3], WSt(s[i])>>>> \o rest
WSlice(s, args) == WSliceFrom(s, args, 1)
WSliceOffset(s, args) ==
  WSum([i \in DOMAIN s |->
    IF args[i][1] = 2 THEN BZero ELSE BMul(BSub(args[i][2], WMn(s[i])), WSt(s[i]))])

(* Pieces of an interval.                                                  *)
WPieceAt(v, n, fx, k) ==
  LET at == BAdd(v[1], BMul(k, n))
      last == BSub(BAdd(v[1], v[2]), BOne)
      over == BLt(last, BSub(BAdd(at, n), BOne))
  IN IF ~over THEN <<at, n>>
     ELSE IF fx THEN <<BAdd(BSub(last, n), BOne), n>>
     ELSE <<at, BAdd(BSub(last, at), BOne)>>
WPiece(v, n, fx, k) == WPieceAt(v, n, fx, B(k))
(* k pieces are exactly what covers v.                                     *)
WCovers(v, n, k) ==
  IF IsZero(v[2]) THEN k = 0
  ELSE k > 0 /\ BLt(BMul(B(k - 1), n), v[2]) /\ BLe(v[2], BMul(B(k), n))

(* The k-th index in the order perm (innermost first), for small extents:  *)
(* exts are plain numbers.                                                 *)
RECURSIVE PProd(_, _)
PProd(f, n) == IF n = 0 THEN 1 ELSE PProd(f, n - 1) * f[n]
WNth(mins, exts, perm, k) ==
  [d \in DOMAIN mins |->
     LET p == CHOOSE p \in DOMAIN perm : perm[p] = d
     IN BAdd(mins[d], B((k \div PProd([q \in DOMAIN perm |-> exts[perm[q]]], p - 1)) % exts[d]))]
=============================================================================

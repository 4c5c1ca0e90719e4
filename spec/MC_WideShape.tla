---------------------------- MODULE MC_WideShape ----------------------------
(* WideShape agrees with NDShape wherever NDShape can be evaluated.        *)
EXTENDS WideShape, TLC
CONSTANTS MinsSet, ExtsSet, StrsSet, MaxRank
N == INSTANCE NDShape
S == INSTANCE Split WITH outer <- <<0, 0>>, inner <- 1, fixed <- FALSE, piece <- <<0, 0>>, walked <- 0
VARIABLE s
FewMins == {-2, 3}
SomeMins == {-2, 0, 3}
SomeStrs == {-3, 0, 1, 2, 4, N!UNR}
Dims == {<<m, e, t>> : m \in MinsSet, e \in ExtsSet, t \in StrsSet}
Init == s = <<>>
Next == Len(s) < MaxRank /\ \E d \in Dims : s' = Append(s, d)

W(d) == <<B(d[1]), B(d[2]), IF d[3] = N!UNR THEN WUNR ELSE B(d[3])>>
WS(t) == [i \in DOMAIN t |-> W(t[i])]
WX(x) == [i \in DOMAIN x |-> B(x[i])]
Agree ==
  LET w == WS(s) IN
  /\ WResolve(w) = WS(N!Resolve(s))
  /\ WSize(w) = B(N!Size(s)) /\ WEmpty(w) = N!Empty(s)
  /\ WMaxs(w) = WX(N!Maxs(s)) /\ WMins(w) = WX(N!Mins(s))
  /\ WNested(w) = N!Nested(s)
  /\ WResolved(w) = N!Resolved(s)
  /\ N!Resolved(s) =>
       /\ WFlatMin(w) = B(N!FlatMin(s)) /\ WFlatMax(w) = B(N!FlatMax(s))
       /\ WFlatExtent(w) = B(N!FlatExtent(s))
       /\ N!Nested(s) /\ ~N!Empty(s) => N!OneToOne(s)
       /\ (N!Nested(s) /\ ~N!Empty(s)) => (N!Compact(s) = (WSize(w) = WFlatExtent(w)))
       /\ \A x \in N!Indices(s) : WOffset(w, WX(x)) = B(N!Offset(s, x))
  /\ \A k \in 1..N!Size(s) :
       WNth(WMins(w), N!Exts(s), [i \in DOMAIN s |-> i], k - 1) = WX(N!NthIndex(s, k - 1))
SliceAgree ==
  Len(s) = 2 /\ N!Resolved(s) =>
    \A a \in {<<0, -1, 0>>, <<0, 2, 0>>, <<1, 1, 2>>, <<1, -3, 0>>, <<2, 0, 0>>},
       b \in {<<0, 1, 0>>, <<1, 0, 1>>, <<2, 0, 0>>} :
      LET wa == [i \in 1..2 |-> LET q == <<a, b>>[i] IN <<q[1], B(q[2]), B(q[3])>>] IN
      /\ WSlice(WS(s), wa) = WS(N!Slice(s, <<a, b>>))
      /\ WSliceOffset(WS(s), wa) = B(N!SliceOffset(s, <<a, b>>))
SplitAgree ==
  Len(s) = 1 =>
    \A n \in 1..5, fx \in BOOLEAN : (fx => s[1][2] >= n) =>
      LET v == <<s[1][1], s[1][2]>> wv == WX(v) IN
      /\ \A k \in 0..6 : WCovers(wv, B(n), k) = (k = S!NumPieces(v, n))
      /\ \A k \in 0..(S!NumPieces(v, n) - 1) :
           WPiece(wv, B(n), fx, k) = WX(S!Piece(v, n, fx, k))
=============================================================================

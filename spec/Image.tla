-------------------------------- MODULE Image --------------------------------
(***************************************************************************)
(* Images (C19): views with dimensions x, y and c.  A crop to the rectangle*)
(* [x0, x1) x [y0, y1) is the view of the pixels of the image inside it,   *)
(* with their coordinates, or with the corner at the origin (`zero`).      *)
(***************************************************************************)
EXTENDS Views

CropDim(d, lo, hi) ==
  LET mn == Max2(lo, Mn(d))
  IN <<mn, Max2(0, Min2(hi, Mx(d) + 1) - mn), St(d)>>
AtZero(d) == <<0, Ex(d), St(d)>>
ViewCrop(v, r, zero) ==
  LET x == CropDim(v.d[1], r[1], r[3])
      y == CropDim(v.d[2], r[2], r[4])
  IN View(v.nul,
          IF v.nul \/ Ex(x) = 0 \/ Ex(y) = 0 THEN v.b ELSE v.b + Offset(v.d, <<Mn(x), Mn(y), Mn(v.d[3])>>),
          v.t, IF zero THEN <<AtZero(x), AtZero(y), v.d[3]>> ELSE <<x, y, v.d[3]>>)

(* One channel, a plane.                                                   *)
ViewChannel(v, c) ==
  View(v.nul, IF v.nul THEN v.b ELSE v.b + (c - Mn(v.d[3])) * St(v.d[3]), SubSeq(v.t, 1, 2), SubSeq(v.d, 1, 2))
=============================================================================

------------------------------ MODULE MC_Image ------------------------------
(***************************************************************************)
(* All sequences of crops of small images.  `pix` says independently of    *)
(* all layouts which pixels of the original are left, `shift` what is added*)
(* to a coordinate to find the original one.                               *)
(***************************************************************************)
EXTENDS Image, TLC, Json

CONSTANTS Roots, Depth, Lo, Hi

VARIABLES root, v, pix, shift, path
vars == <<root, v, pix, shift, path>>

DynT == [i \in 1..3 |-> <<DYN, DYN, DYN>>]
Plane(d) == Indices(SubSeq(d, 1, 2))
Init ==
  /\ root \in Roots
  /\ v = View(FALSE, 0, DynT, root)
  /\ pix = Plane(root) /\ shift = <<0, 0>> /\ path = <<>>
Rects == {<<x0, y0, x1, y1>> : x0, y0, x1, y1 \in Lo..Hi}
Crop ==
  \E r \in Rects, zero \in BOOLEAN :
    LET here == {p \in pix : LET x == p[1] - shift[1]
                                 y == p[2] - shift[2]
                             IN r[1] <= x /\ x < r[3] /\ r[2] <= y /\ y < r[4]}
        corner == <<SetMin({p[1] : p \in here}), SetMin({p[2] : p \in here})>>
    IN /\ pix' = here
       /\ v' = ViewCrop(v, r, zero)
       /\ shift' = IF here # {} /\ zero THEN corner ELSE shift
       /\ path' = Append(path, [r |-> r, zero |-> zero])
Next == Len(path) < Depth /\ Crop /\ UNCHANGED root
Spec == Init /\ [][Next]_vars

(* The crop has exactly the pixels left, where they were.                  *)
Exact == {<<x[1] + shift[1], x[2] + shift[2]>> : x \in Plane(v.d)} = pix
Aliases == \A x \in Indices(v.d) : Addr(v, x) = Offset(root, <<x[1] + shift[1], x[2] + shift[2], x[3]>>)
Strides == Strs(v.d) = Strs(root) /\ v.d[3] = root[3]
EmptyOnlyWhenOutside == Empty(v.d) <=> pix = {}
Origin == (path # <<>> /\ path[Len(path)].zero) => Mn(v.d[1]) = 0 /\ Mn(v.d[2]) = 0
Channels ==
  \A c \in Mn(root[3])..Mx(root[3]) :
    LET w == ViewChannel(v, c)
    IN \A x \in Indices(w.d) : Addr(w, x) = Addr(v, Append(x, c))

EmitPlan == Len(path) = Depth => PrintT("PLAN " \o ToJson([root |-> root, path |-> path]))

SmallRoots == { <<<<0, 2, 2>>, <<0, 2, 4>>, <<0, 2, 1>>>>, <<<<1, 2, 1>>, <<-1, 3, 2>>, <<1, 1, 9>>>>,
                <<<<0, 3, -1>>, <<1, 1, 5>>, <<0, 1, 1>>>> }
OneRoot == { <<<<-1, 3, 1>>, <<0, 2, 4>>, <<0, 1, 8>>>> }
(* Histories that lead to the same view need not be told apart.            *)
Short == <<root, v, pix, shift, Len(path), IF path = <<>> THEN FALSE ELSE path[Len(path)].zero>>
Lo1 == -1
Lo2 == -2
=============================================================================

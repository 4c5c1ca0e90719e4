------------------------------ MODULE MC_Views ------------------------------
(***************************************************************************)
(* All compositions of up to Depth view operations on small roots:         *)
(* aliasing composes, views never reach outside the memory of the root     *)
(* while their indices are in range, and bounds and strides are those      *)
(* requested.  The paths TLC walks are also printed as plans for the       *)
(* driver (MC_Views_gen.cfg).                                              *)
(***************************************************************************)
EXTENDS Views, TLC, Json

CONSTANTS Roots, Depth, Lo, Hi, MaxExt, Outside

VARIABLES root, v, path
vars == <<root, v, path>>

DynT(n) == [i \in 1..n |-> <<DYN, DYN, DYN>>]
Init == /\ root \in Roots
        /\ v = View(FALSE, 0, DynT(Len(root)), root)
        /\ path = <<>>

(* Arguments for one dimension: inside it, and (Outside) around it.        *)
Args(d) ==
  {<<2, 0, 0>>}
  \cup {<<0, x, 0>> : x \in {y \in Lo..Hi : InDim(d, y)}}
  \cup {<<1, m, e>> : m \in {y \in Lo..Hi : Outside \/ InDim(d, y)}, e \in 0..MaxExt}
ArgOk(d, a) == IF a[1] = 1 /\ ~Outside THEN a[3] = 0 \/ InDim(d, a[2] + a[3] - 1) ELSE TRUE

RECURSIVE ArgLists(_, _)
ArgLists(d, i) ==
  IF i > Len(d) THEN {<<>>}
  ELSE {<<a>> \o r : a \in {x \in Args(d[i]) : ArgOk(d[i], x)}, r \in ArgLists(d, i + 1)}

Sty(args) == [i \in DOMAIN args |-> <<args[i][1], DYN, DYN>>]

DoSlice ==
  /\ Len(v.d) > 0
  /\ \E args \in ArgLists(v.d, 1) :
       /\ \E i \in DOMAIN args : args[i][1] # 0
       /\ \E i \in DOMAIN args : args[i][1] # 2
       /\ v' = ViewSlice(v, args, Sty(args))
       /\ path' = Append(path, [k |-> "slice", args |-> args])

InjSeqs(n) ==
  UNION {{p \in [1..k -> 1..n] : \A i, j \in 1..k : p[i] = p[j] => i = j} : k \in 1..n}
DoReorder ==
  \E p \in InjSeqs(Len(v.d)) :
    /\ \A i \in DOMAIN v.d : i \in SeqRange(p) \/ Ex(v.d[i]) > 0  (* else memory would be uncovered *)
    /\ v' = ViewReorder(v, p)
    /\ path' = Append(path, [k |-> "reorder", p |-> p, mins |-> Mins(v.d)])

DoConvert ==
  \E n \in {Len(v.d) - 1, Len(v.d) + 1} :
    /\ n \in 1..3
    /\ Outside => n < Len(v.d)     (* nothing lies outside a dimension added by conversion *)
    /\ ConvertOk(DynT(n), v.d)
    /\ v' = [ViewConvert(v, DynT(n)) EXCEPT !.d = Resolve(@)]
    /\ path' = Append(path, [k |-> "convert", n |-> n, mins |-> Mins(v.d)])

Next == /\ Len(path) < Depth
        /\ DoSlice \/ DoReorder \/ DoConvert
        /\ UNCHANGED root
Stop == Len(path) = Depth /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Stop]_vars

----------------------------------------------------------------------------
(* Element x of the view is the element of the root that the operations    *)
(* say it is.                                                              *)
Aliasing == \A x \in Indices(v.d) : Addr(v, x) = Offset(root, Back(path, x))
(* Views made by operations that stay inside address only root memory.     *)
Contained == ~Outside => AddrSet(v) \subseteq Offsets(root)
(* Distinct elements stay distinct.                                        *)
Distinct == OneToOne(root) /\ (\A i \in DOMAIN path : path[i].k # "convert") /\ ~Outside
            => Cardinality(AddrSet(v)) = Size(v.d)

EmitPlan == (Len(path) = Depth) => PrintT("PLAN " \o ToJson([root |-> root, path |-> path]))

RootsSmall == {
  <<<<0, 3, 1>>>>, <<<<1, 3, -2>>>>,
  <<<<0, 2, 1>>, <<1, 2, 2>>>>, <<<<1, 2, 3>>, <<0, 2, -1>>>> }
Roots3 == { <<<<0, 2, 1>>, <<1, 2, 2>>, <<0, 1, 4>>>>, <<<<0, 2, -3>>, <<0, 1, 7>>, <<1, 2, 1>>>> }
=============================================================================

----------------------------- MODULE ShapeTrace -----------------------------
(***************************************************************************)
(* Conformance of shape objects (C01, C02, C18): the real shape classes,   *)
(* driven through a history of changes, against the layout algebra.        *)
(* State: the static type and the dimensions of the shape under test.      *)
(***************************************************************************)
EXTENDS NDShape, TraceBase

VARIABLES ty, v
vars == <<sid, l, ty, v>>

Init == TInit /\ ty = <<>> /\ v = <<>>

----------------------------------------------------------------------------
(* Everything a shape reports about itself.                                *)
NamesFor(s) ==
  CASE Len(s) = 0 -> <<>>
    [] Len(s) = 1 -> <<s[1], s[1]>>
    [] OTHER ->
       <<s[1], s[1], s[2], s[2], <<Ex(s[1]), Ex(s[2]), 0>>, <<Ex(s[1]), Ex(s[2]), 0>>>>
       \o (IF Len(s) >= 3 THEN <<s[3], s[3], s[3], <<Ex(s[3]), 0, 0>>>> ELSE <<>>)
       \o (IF Len(s) >= 4 THEN <<s[4]>> ELSE <<>>)

Reports(e, s) ==
  /\ e.dims = s
  /\ e.rank = Len(s)
  /\ e.scalar = (Len(s) = 0)
  /\ e.mins = Mins(s)
  /\ e.maxs = Maxs(s)
  /\ e.exts = Exts(s)
  /\ e.strs = Strs(s)
  /\ e.size = Size(s)
  /\ e.empty = (Size(s) = 0)
  /\ e.res = Resolved(s)
  /\ e.rdims = s
  /\ e.iter = [i \in DOMAIN s |-> <<Mn(s[i]), Mn(s[i]) + Ex(s[i]), Ex(s[i])>>]
  /\ e.names = NamesFor(s)
  /\ e.mnames = NamesFor(s)
  /\ (Resolved(s) /\ ~Empty(s)) =>
       /\ e.fmin = FlatMin(s)
       /\ e.fmax = FlatMax(s)
       /\ e.fext = FlatExtent(s)
       (* The injectivity and compactness tests are only documented to be  *)
       (* right (issue 2) where the map is one-to-one.                     *)
       /\ OneToOne(s) => (e.o2o /\ e.compact = Compact(s))
       /\ ~OneToOne(s) /\ FlatExtent(s) < Size(s) => ~e.o2o

(* The value of a dimension of type t after the setter `what`.             *)
SetValue(t, d, what, x) ==
  CASE what = 0 -> <<x, d[2], d[3]>>
    [] what = 1 -> <<d[1], x, d[3]>>
    [] what = 2 -> <<d[1], d[2], IF IsStatic(t[3]) THEN t[3] ELSE x>>
    [] what = 3 -> <<d[1], x - d[1] + 1, d[3]>>

DynType(n) == [i \in 1..n |-> <<DYN, DYN, DYN>>]

----------------------------------------------------------------------------
Default(e) ==
  /\ e.op = "default"
  /\ Reports(e, DefaultShape(e.st))
  /\ ty' = e.st /\ v' = DefaultShape(e.st)

New(e) ==
  /\ e.op = "new"
  /\ Reports(e, Convert(e.st, e.arg))
  /\ ty' = e.st /\ v' = Convert(e.st, e.arg)

Set(e) ==
  /\ e.op = "set"
  /\ LET w == [v EXCEPT ![e.d] = SetValue(ty[e.d], v[e.d], e.what, e.v)]
     IN Reports(e, w) /\ v' = w
  /\ UNCHANGED ty

BoundsOf(e) ==
  /\ e.op = "bounds"
  /\ e.st = DynType(Len(v))
  /\ Reports(e, Unresolve(v))
  /\ UNCHANGED <<ty, v>>

Assign(e) ==
  /\ e.op = "assign"
  /\ e.eq
  /\ Reports(e, v)
  /\ UNCHANGED <<ty, v>>

(* Which strides resolution chooses is C02; here only what it must keep.   *)
ResolveAny(e) ==
  /\ e.op = "resolve"
  /\ Len(e.dims) = Len(v)
  /\ \A i \in DOMAIN v :
       /\ Mn(e.dims[i]) = Mn(v[i]) /\ Ex(e.dims[i]) = Ex(v[i])
       /\ St(e.dims[i]) # UNR
       /\ St(v[i]) # UNR => St(e.dims[i]) = St(v[i])
  /\ Reports(e, e.dims)
  /\ v' = e.dims
  /\ UNCHANGED ty

Data(e) ==
  /\ e.op = "data"
  /\ e.base = 0
  /\ e.data = FlatMin(v) /\ e.cdata = FlatMin(v)
  /\ UNCHANGED <<ty, v>>

(* An array or a reference repeats what its shape reports.                 *)
Facade(e) ==
  /\ e.op = "facade"
  /\ e.names = NamesFor(v)
  /\ e.tdims = v /\ e.rdims = v /\ e.dims = v
  /\ e.rank = Len(v)
  /\ e.scalar = (Len(v) = 0)
  /\ e.size = Size(v)
  /\ e.empty = (Size(v) = 0 \/ e.null)
  /\ e.bst = DynType(Len(v)) /\ e.bdims = Unresolve(v)
  /\ (Size(v) > 0 /\ OneToOne(v)) => e.compact = Compact(v)
  /\ UNCHANGED <<ty, v>>

At(e) ==
  /\ e.op = "at"
  /\ \A i \in DOMAIN e.offs : e.offs[i] = Offset(v, e.idx)
  /\ Len(e.offs) = 6
  /\ UNCHANGED <<ty, v>>

InR(e) ==
  /\ e.op = "inr"
  /\ \A i \in DOMAIN e.in : e.in[i] = InRange(v, e.idx)
  /\ UNCHANGED <<ty, v>>

InRI(e) ==
  /\ e.op = "inri"
  /\ e.in = \A i \in DOMAIN v :
               Mn(v[i]) <= e.args[i][1] /\ e.args[i][1] + e.args[i][2] - 1 <= Mx(v[i])
  /\ UNCHANGED <<ty, v>>

Want(e) == e.op = "want" /\ v' = e.arg /\ UNCHANGED ty

(* An owning array: its elements lie at base + offset, inside what it      *)
(* allocated, and nothing is allocated for an array without elements.      *)
Own(e) ==
  /\ e.op = "own"
  /\ SameBounds(e.dims, v)
  /\ \A i \in DOMAIN v : St(e.dims[i]) # UNR /\ (St(v[i]) # UNR => St(e.dims[i]) = St(v[i]))
  /\ e.size = Size(v)
  /\ e.empty = (Size(v) = 0)
  /\ e.null = ~e.has
  /\ Size(v) > 0 =>
       /\ e.has
       /\ e.cbase = e.base
       /\ e.data = e.base + FlatMin(e.dims)
       /\ e.cdata = e.data
       /\ Len(e.offs) = 4
       /\ \A k \in 1..4 : e.offs[k] = [i \in 1..Size(v) |-> e.base + OffsetOrder(e.dims)[i]]
       /\ \A i \in 1..Size(v) : e.offs[1][i] \in 0..(e.n - 1)
       /\ e.rbase = e.base
       /\ e.rdims = e.dims /\ e.crdims = e.dims
  /\ v' = e.dims
  /\ UNCHANGED ty

----------------------------------------------------------------------------
(* C02: one resolution, in every place that resolves.                      *)
RCase(e) ==
  /\ e.op = "rcase"
  /\ e.ures = Resolved(e.arg)
  /\ LET want == Resolve(e.arg) IN
     /\ e.out = want
     /\ e.again = want
     /\ e.res
     /\ e.ref = want /\ e.mref = want /\ e.tup = want
     /\ e.arrok => /\ e.arr = want /\ e.arrv = want /\ e.asg = want
                   /\ e.rsh = want /\ e.mk = want
     /\ (Nested(e.arg) /\ ~Empty(e.arg)) => OneToOne(e.out)
     /\ ((\A i \in DOMAIN e.arg : St(e.arg[i]) = UNR) /\ ~Empty(e.arg)) => Compact(e.out)
  /\ UNCHANGED <<ty, v>>

----------------------------------------------------------------------------
(* C18: compaction of a shape of type e.st with run-time dims e.dims.      *)
(* The strides which compaction may choose are those that are not          *)
(* compile-time constants.                                                 *)
NumStatic(t) == Cardinality({i \in DOMAIN t : IsStatic(t[i][3])})
ColMajor(s) == [i \in DOMAIN s |-> <<Mn(s[i]), Ex(s[i]), ProdExts(s, i - 1)>>]
(* Does some choice of the free strides give a layout without gaps?  Only  *)
(* claimed where the statement does: no constant stride, or exactly one,   *)
(* equal to one.                                                           *)
MustCompact(t) ==
  \/ NumStatic(t) = 0
  \/ NumStatic(t) = 1 /\ \E i \in DOMAIN t : t[i][3] = 1
FullStatic(t) == \A i \in DOMAIN t : IsStatic(t[i][2]) /\ ~IsStatic(t[i][3])

Compacted(e) ==
  /\ e.op = "compact"
  /\ Len(e.out) = Len(e.dims) /\ Len(e.ost) = Len(e.dims)
  /\ SameBounds(e.out, e.dims)
  /\ \A i \in DOMAIN e.st :
       /\ e.ost[i][1] = e.st[i][1] /\ e.ost[i][2] = e.st[i][2]      (* constants survive  *)
       /\ IsStatic(e.st[i][3]) => (e.ost[i][3] = e.st[i][3] /\ St(e.out[i]) = e.st[i][3])
       /\ IsStatic(e.ost[i][3]) => St(e.out[i]) = e.ost[i][3]       (* and are right      *)
  /\ Resolved(e.out)
  /\ (~Empty(e.dims) /\ Nested([i \in DOMAIN e.st |->
         <<Mn(e.dims[i]), Ex(e.dims[i]), IF IsStatic(e.st[i][3]) THEN e.st[i][3] ELSE UNR>>]))
       => OneToOne(e.out)
  /\ (~Empty(e.dims) /\ MustCompact(e.st)) => (OneToOne(e.out) /\ Compact(e.out))
  /\ FullStatic(e.st) => (e.out = ColMajor(e.dims) /\ \A i \in DOMAIN e.st : e.ost[i][3] = St(e.out[i]))
  (* A copy made compactly has these bounds and strides and the contents.  *)
  /\ e.copied => (e.cst = e.ost /\ e.cdims = e.out /\ e.vals = e.src /\ e.sep)
  /\ UNCHANGED <<ty, v>>

----------------------------------------------------------------------------
Step(e) ==
  \/ Default(e) \/ New(e) \/ Set(e) \/ BoundsOf(e) \/ Assign(e) \/ ResolveAny(e)
  \/ Data(e) \/ Facade(e) \/ At(e) \/ InR(e) \/ InRI(e) \/ Want(e) \/ Own(e)
  \/ RCase(e) \/ Compacted(e)

Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================

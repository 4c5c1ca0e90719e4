------------------------------ MODULE ViewTrace ------------------------------
(***************************************************************************)
(* Conformance of views (C05, C16, C19): every view the real code makes is the  *)
(* one Views.tla makes, and all views of a session read and write one      *)
(* memory.  While a view is being made the memory is unmapped, so that     *)
(* any access of an element would end the session.                         *)
(***************************************************************************)
EXTENDS Image, TraceBase

VARIABLES
  views,    (* sequence of views; views[1] is the root                     *)
  cst,      (* sequence: does view i refer to constant elements            *)
  mem,      (* flat offset -> value, on the watched window                 *)
  block     (* <<first offset, length>> of the buffer an array owns        *)
vars == <<sid, l, views, cst, mem, block>>

Init == TInit /\ views = <<>> /\ cst = <<>> /\ mem = <<>> /\ block = <<>>

(* What the driver saw of a view.                                          *)
Seen(r, v, c) ==
  /\ r.null = v.nul
  /\ ~v.nul => r.b = v.b
  /\ r.st = v.t
  /\ r.dims = v.d
  /\ r.c = c
(* data() is the first element of the flat range.                          *)
SeenData(r, v) == (~v.nul /\ ~Empty(v.d) /\ Resolved(v.d)) => r.data = v.b + FlatMin(v.d)

AddView(v, c) == views' = Append(views, v) /\ cst' = Append(cst, c)
Same == UNCHANGED <<mem, block>>

Root(e) ==
  /\ e.op = "root" /\ views = <<>>
  /\ LET v == View(e.res.null, IF e.res.null THEN 0 ELSE e.res.b, e.st, Resolve(Convert(e.st, e.arg))) IN
     /\ Seen(e.res, v, e.c) /\ SeenData(e.res, v)
     (* an array owns its block, addresses only elements of it             *)
     /\ e.own => \/ v.nul /\ Empty(v.d)
                 \/ Empty(v.d)
                 \/ v.b + FlatMin(v.d) >= e.block[1] /\ v.b + FlatMax(v.d) < e.block[1] + e.block[2]
     /\ AddView(v, e.c)
  /\ mem' = [o \in e.lo..e.hi |-> 5000 + o]
  /\ block' = IF e.own THEN e.block ELSE <<>>

MakeView(e) ==
  /\ e.op = "view"
  /\ LET f == views[e.from]
         w == CASE e.k = "slice" -> ViewSlice(f, e.args, e.sty)
                [] e.k = "reorder" -> ViewReorder(f, FullPerm(e.p, e.n))
                [] e.k = "same" -> f
                [] e.k = "resolve" -> [f EXCEPT !.d = Resolve(@)]
                [] e.k = "convert" ->
                     LET g == ViewConvert(f, e.t)
                     (* nothing is promised about the stride of a new      *)
                     (* dimension                                          *)
                     IN [g EXCEPT !.d = [i \in DOMAIN @ |->
                           IF i > Len(f.d) /\ i \in DOMAIN e.res.dims
                           THEN <<@[i][1], @[i][2], IF IsStatic(e.t[i][3]) THEN @[i][3] ELSE e.res.dims[i][3]>>
                           ELSE @[i]]]
                [] e.k = "channel" -> ViewChannel(f, e.x)
                [] e.k = "crop" ->
                     LET g == ViewCrop(f, e.r, e.zero)
                     (* Of an empty crop only the emptiness, the strides   *)
                     (* and the channels matter.                           *)
                     IN IF ~Empty(g.d) THEN g
                        ELSE [g EXCEPT !.d = [i \in DOMAIN @ |->
                                IF i < 3 THEN <<e.res.dims[i][1], e.res.dims[i][2], @[i][3]>> ELSE @[i]],
                              !.b = e.res.b, !.nul = e.res.null]
                [] e.k = "reshape" -> ViewReshape(f, e.t, Convert(e.t, e.arg), e.off)
         c == CASE e.to = "same" -> cst[e.from] [] e.to = "const" -> TRUE [] e.to = "mutable" -> FALSE
     IN /\ (e.k = "convert" => ConvertOk(e.t, f.d))
        /\ (e.k = "crop" => Empty(w.d) = Empty(ViewCrop(f, e.r, e.zero).d))
        /\ (e.k = "reshape" => ReshapeOk(f, e.arg, e.off))
        /\ Seen(e.res, w, c)
        /\ SeenData(e.res, w)
        /\ AddView(w, c)
  /\ Same

(* The same operation on the shape alone.                                  *)
ShapeOp(e) ==
  /\ e.op = "shapeop"
  /\ LET f == views[e.from] IN
     CASE e.k = "slice" -> e.st = SliceType(f.t, e.sty) /\ e.dims = Slice(f.d, e.args)
       [] e.k = "reorder" ->
            /\ e.st = Reorder(f.t, FullPerm(e.p, e.n))
            /\ e.dims = Reorder(f.d, FullPerm(e.p, e.n))
  /\ UNCHANGED <<views, cst, mem, block>>

(* The shape of view e.from itself changes (set_shape).                    *)
SetShape(e) ==
  /\ e.op = "setshape"
  /\ LET f == views[e.from]
         w == ViewReshape(f, f.t, e.arg, e.off)
     IN /\ Resolved(e.arg) /\ ReshapeOk(f, e.arg, e.off)
        /\ Seen(e.res, w, cst[e.from]) /\ SeenData(e.res, w)
        /\ views' = [views EXCEPT ![e.from] = w]
  /\ UNCHANGED <<cst, mem, block>>

(* An array moves into a new shape: the new array (a new view) keeps the   *)
(* block, the old one (shape type with no constants) is left empty.        *)
MoveReshape(e) ==
  /\ e.op = "mreshape"
  /\ LET f == views[e.from]
         w == ViewReshape(f, e.t, Convert(e.t, e.arg), e.off)
     IN /\ ReshapeOk(f, e.arg, e.off)
        /\ Seen(e.res, w, FALSE) /\ SeenData(e.res, w)
        /\ e.moves = 0
        /\ e.dyn => e.left = <<0, 1>>       (* size 0, null base *)
        /\ AddView(w, FALSE)
  /\ Same

(* Element access; x is in the bounds of the view.                         *)
Peek(e) ==
  /\ e.op = "peek"
  /\ LET v == views[e.v] IN
     /\ Len(e.xs) = Len(e.vals)
     /\ \A i \in DOMAIN e.xs : e.vals[i] = mem[Addr(v, e.xs[i])]
  /\ UNCHANGED <<views, cst, mem, block>>

Poke(e) ==
  /\ e.op = "poke"
  /\ ~cst[e.v]
  /\ mem' = [mem EXCEPT ![Addr(views[e.v], e.x)] = e.val]
  /\ UNCHANGED <<views, cst, block>>

Memory(e) ==
  /\ e.op = "mem"
  /\ e.mem = [i \in 1..(e.hi - e.lo + 1) |-> mem[e.lo + i - 1]]
  /\ e.hi - e.lo + 1 = Cardinality(DOMAIN mem)
  /\ UNCHANGED <<views, cst, mem, block>>

(* The owner releases exactly the block it allocated.                      *)
Free(e) ==
  /\ e.op = "free"
  /\ e.block = block
  /\ block' = <<>>
  /\ UNCHANGED <<views, cst, mem>>

Step(e) == Root(e) \/ MakeView(e) \/ ShapeOp(e) \/ SetShape(e) \/ MoveReshape(e)
           \/ Peek(e) \/ Poke(e) \/ Memory(e) \/ Free(e)

Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ block = <<>> /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================

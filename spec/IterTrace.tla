------------------------------ MODULE IterTrace ------------------------------
(***************************************************************************)
(* Conformance of iteration (C03, C04, C20): every call the real code      *)
(* makes, and every element it touches, is a step of the loop nest and of  *)
(* the traversal.  An index-driven fill runs both at the same time: a call *)
(* produces a value which has to be stored at the offset of its index.     *)
(***************************************************************************)
EXTENDS LoopNest, Traversal, TraceBase

VARIABLES
  lay,     (* the layout being iterated *)
  how,     (* what is running: "", "index", "read", "write", "fill", "generate", "transform" *)
  pend,    (* values computed and not yet stored: set of <<offset, value>> *)
  fillv,   (* the value being filled in *)
  quiet,   (* plain elements: assignments are not seen, only what they leave *)
  gens     (* quiet: the values generated so far *)
iterVars == <<lay, how, pend, fillv, quiet, gens>>
vars == <<sid, l, nest, order, cur, going, todo, mem, busy, lay, how, pend, fillv, quiet, gens>>
plain == <<fillv, quiet, gens>>

Init == TInit /\ NestInit /\ TravInit /\ lay = <<>> /\ how = "" /\ pend = {}
        /\ fillv = 0 /\ quiet = FALSE /\ gens = <<>>

(* The documented orders: matrices iterate columns innermost, chunky       *)
(* images channels, then x, then y.                                        *)
OrderFor(kind, n) ==
  CASE kind = 0 -> [i \in 1..n |-> i]
    [] kind = 1 -> <<2, 1>>
    [] kind = 2 -> <<3, 1, 2>>

TheOrder(e) ==
  CASE e.expl = 0 -> OrderFor(e.kind, Len(e.dims))
    [] e.expl = 1 -> e.order
    [] e.expl = 2 -> DefaultOrder(e.dims)

BeginIndex(e) ==
  /\ e.op = "begin"
  /\ how = ""
  /\ how' = "index"
  /\ Begin(e.dims, TheOrder(e))
  /\ lay' = e.dims
  /\ UNCHANGED plain /\ UNCHANGED <<todo, mem, busy, pend>>

CallIndex(e) ==
  /\ e.op = "call"
  /\ how = "index"
  /\ Call(e.x)
  /\ UNCHANGED plain /\ UNCHANGED <<todo, mem, busy, lay, how, pend>>

EndIndex(e) ==
  /\ e.op = "end"
  /\ how = "index"
  /\ e.usable
  /\ End
  /\ how' = ""
  /\ UNCHANGED plain /\ UNCHANGED <<todo, mem, busy, lay, pend>>

----------------------------------------------------------------------------
(* The layout the session works on.                                        *)
Shape_(e) ==
  /\ e.op = "shape" /\ how = ""
  /\ Resolved(e.dims)
  /\ lay' = e.dims
  /\ UNCHANGED plain /\ UNCHANGED <<nest, order, cur, going, todo, mem, busy, how, pend>>

IsTransform(h) == h \in {"transform_index ref", "transform_indices ref",
                         "transform_index array", "transform_indices array"}
IsRead(h) == h \in {"const array.for_each_value", "cref.for_each_value"}
IsCallback(h) == h \in {"counted for_each_value", "array.for_each_value", "ref.for_each_value", "shape_traits"}

BeginValues(e) ==
  /\ e.op = "vbegin"
  /\ how = ""
  /\ how' = e.how
  /\ e.dims = lay
  /\ pend' = {}
  /\ BeginTraversal(lay, e.null, [o \in e.lo..e.hi |-> e.init[o - e.lo + 1]])
  /\ fillv' = e.fv /\ quiet' = (e.quiet = 1) /\ gens' = <<>>
  /\ IF IsTransform(e.how) THEN Begin(lay, OrderFor(e.kind, Len(lay)))
     ELSE UNCHANGED <<nest, order, cur, going>>
  /\ UNCHANGED lay

TouchValue(e) ==
  /\ e.op = "touch"
  /\ ~IsTransform(how)
  /\ quiet => (IsRead(how) \/ IsCallback(how))
  /\ Touch(e.o, e.r, e.w)
  /\ CASE IsRead(how) -> e.w = e.r /\ pend' = pend
       [] how = "fill" -> e.w = fillv /\ pend' = pend
       [] how = "generate" -> \E p \in pend : p[2] = e.w /\ pend' = pend \ {p}
       [] OTHER -> IsCallback(how) /\ pend' = pend
  /\ UNCHANGED plain /\ UNCHANGED <<nest, order, cur, going, lay, how>>

(* One call of the generator; its value goes to the next element touched.  *)
Gen(e) ==
  /\ e.op = "gen" /\ how = "generate"
  /\ IF quiet THEN gens' = Append(gens, e.v) /\ pend' = pend
     ELSE pend = {} /\ pend' = {<<0, e.v>>} /\ gens' = gens
  /\ UNCHANGED <<nest, order, cur, going, todo, mem, busy, lay, how, fillv, quiet>>

CallTransform(e) ==
  /\ e.op = "fcall" /\ IsTransform(how)
  /\ Call(e.x)
  /\ pend' = pend \cup {<<Offset(lay, e.x), e.v>>}
  /\ UNCHANGED plain /\ UNCHANGED <<todo, mem, busy, lay, how>>

StoreTransform(e) ==
  /\ e.op = "touch" /\ IsTransform(how) /\ ~quiet
  /\ <<e.o, e.w>> \in pend
  /\ Touch(e.o, e.r, e.w)
  /\ pend' = pend \ {<<e.o, e.w>>}
  /\ UNCHANGED plain /\ UNCHANGED <<nest, order, cur, going, lay, how>>

(* At the end everything has been touched, and the watched memory is as    *)
(* the specification left it.                                              *)
EndLoud ==
  /\ pend = {}
  /\ EndTraversal

(* The same, seen only from the memory that is left (m: offset -> value).  *)
(* An element that several indices address keeps one of the values stored. *)
Addressed == {o \in DOMAIN todo : todo[o] > 0}
Untouched(m) == \A o \in DOMAIN mem \ Addressed : m[o] = mem[o]
QuietFill(m) == \A o \in Addressed : m[o] = fillv
CountIn(f, v, S) == Cardinality({o \in S : f[o] = v})
QuietGenerate(m) ==
  /\ Len(gens) = SumSeq([k \in 1..Cardinality(Addressed) |->
                          todo[CHOOSE o \in Addressed : Cardinality({p \in Addressed : p < o}) = k - 1]])
  /\ \A o \in Addressed : CountIn(gens, m[o], DOMAIN gens) >= CountIn(m, m[o], Addressed)
QuietTransform(m) ==
  \A o \in Addressed : <<o, m[o]>> \in pend
EndQuiet(m) ==
  /\ busy /\ busy' = FALSE
  /\ IF IsRead(how) \/ IsCallback(how) THEN AllTouched /\ m = mem
     ELSE /\ Untouched(m)
          /\ CASE how = "fill" -> QuietFill(m)
               [] how = "generate" -> QuietGenerate(m)
               [] IsTransform(how) -> QuietTransform(m)
  /\ mem' = m /\ todo' = todo

EndValues(e) ==
  /\ e.op = "vend"
  /\ e.usable
  /\ Len(e.mem) = Cardinality(DOMAIN mem)
  /\ LET lo == SetMin(DOMAIN mem)
         m == IF DOMAIN mem = {} THEN mem ELSE [o \in DOMAIN mem |-> e.mem[o - lo + 1]]
     IN IF quiet THEN EndQuiet(m) ELSE m = mem /\ EndLoud
  /\ IF IsTransform(how) THEN End ELSE UNCHANGED <<nest, order, cur, going>>
  /\ how' = ""
  /\ pend' = {}
  /\ UNCHANGED <<lay, fillv, quiet, gens>>

Step(e) ==
  \/ BeginIndex(e) \/ CallIndex(e) \/ EndIndex(e)
  \/ Shape_(e) \/ BeginValues(e) \/ TouchValue(e) \/ Gen(e)
  \/ CallTransform(e) \/ StoreTransform(e) \/ EndValues(e)

Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ how = "" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
=============================================================================

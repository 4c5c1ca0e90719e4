---------------------------- MODULE ArrayTrace -----------------------------
(***************************************************************************)
(* Conformance of histories of array operations.  A session starts with    *)
(* the shape type and the allocator policy, and then repeats               *)
(*   call       the operation and its arguments                            *)
(*   alloc, dealloc, ctor, asg, dtor   what happened to memory meanwhile   *)
(*   ret / reshaped   every array afterwards: place and value of each      *)
(*              element, shape, allocator                                  *)
(* The same machine serves four properties; Aspect names the one whose     *)
(* claims are the guards, the others are merely followed:                  *)
(*   C10  the discipline of memory and element lifetimes                   *)
(*   C10p the blocks of elements that do not report                        *)
(*   C11  the value every array has                                        *)
(*   C12  reshape                                                          *)
(*   C13  allocators, and operations that take over memory                 *)
(*   C14  arrays with a fixed-capacity allocator: lifetimes and values,    *)
(*        and no array uses the storage inside another; block 9000 + s is  *)
(*        the inside of the array in slot s                                *)
(*   C14p the same with elements that do not report: values and places     *)
(*   C14u arrays whose allocator does not initialise: values               *)
(***************************************************************************)
EXTENDS ArrayValues, TraceBase

CONSTANT Aspect

VARIABLES t, pol,  (* shape type, allocator policy                         *)
          arr,     (* slot -> array value                                  *)
          place,   (* slot -> sequence of <<block, offset>>                *)
          blk,     (* block -> [n, al], the blocks not released            *)
          live,    (* the <<block, offset>> where elements live            *)
          cur,     (* the operation in progress                            *)
          work     (* what it did so far: a set of words                   *)
vars == <<sid, l, t, pol, arr, place, blk, live, cur, work>>
mem == <<blk, live>>

NoCall == [f |-> ""]
Fun0 == [x \in {} |-> 0]

Init == /\ TInit
        /\ t = <<>> /\ pol = NoCall
        /\ arr = Fun0 /\ place = Fun0 /\ blk = Fun0 /\ live = {}
        /\ cur = NoCall /\ work = {}

Start(e) ==
  /\ e.op = "start"
  /\ t' = e.st /\ pol' = e.pol
  /\ UNCHANGED <<arr, place, mem, cur, work>>

Call(e) ==
  /\ e.op = "call" /\ cur = NoCall
  /\ Legal(t, pol, arr, e)      (* the driver stays within the contract *)
  /\ cur' = e /\ work' = {}
  /\ UNCHANGED <<t, pol, arr, place, mem>>

----------------------------------------------------------------------------
(* Memory.                                                                 *)
Cell(e) == <<e.b, e.o>>
Inside(b) == b > 9000
InBlock(b, o) == \/ b \in DOMAIN blk /\ o >= 0 /\ o < blk[b].n
                 \/ Inside(b) /\ o >= 0 /\ o < 1000

Alloc(e) ==
  /\ e.op = "alloc"
  /\ e.b \notin DOMAIN blk
  /\ blk' = [b \in DOMAIN blk \cup {e.b} |-> IF b = e.b THEN [n |-> e.n, al |-> e.al] ELSE blk[b]]
  /\ work' = work \cup {"alloc"}
  /\ UNCHANGED <<t, pol, arr, place, live, cur>>
Dealloc(e) ==
  /\ e.op = "dealloc"
  /\ Aspect \in {"C10", "C10p", "C14"} =>
       /\ e.b \in DOMAIN blk
       /\ blk[e.b].n = e.n /\ blk[e.b].al = e.al
       /\ \A c \in live : c[1] # e.b
  /\ Aspect = "C13" => e.b \in DOMAIN blk /\ blk[e.b].al = e.al   (* released where it came from *)
  /\ blk' = [b \in DOMAIN blk \ {e.b} |-> blk[b]]
  /\ work' = work \cup {"dealloc"}
  /\ UNCHANGED <<t, pol, arr, place, live, cur>>
Ctor(e) ==
  /\ e.op = "ctor"
  /\ Aspect \in {"C10", "C14"} =>
       /\ InBlock(e.b, e.o)
       /\ Cell(e) \notin live
       /\ e.fb = 0 \/ <<e.fb, e.fo>> \in live      (* copied from an element *)
  /\ live' = live \cup {Cell(e)}
  /\ work' = work \cup {"ctor", e.how}
  /\ UNCHANGED <<t, pol, arr, place, blk, cur>>
Asg(e) ==
  /\ e.op = "asg"
  /\ Aspect \in {"C10", "C14"} => Cell(e) \in live /\ (e.fb = 0 \/ <<e.fb, e.fo>> \in live)
  /\ work' = work \cup {"asg", e.how}
  /\ UNCHANGED <<t, pol, arr, place, mem, cur>>
Dtor(e) ==
  /\ e.op = "dtor"
  /\ Aspect \in {"C10", "C14"} => InBlock(e.b, e.o) /\ Cell(e) \in live
  /\ live' = live \ {Cell(e)}
  /\ work' = work \cup {"dtor"}
  /\ UNCHANGED <<t, pol, arr, place, blk, cur>>

----------------------------------------------------------------------------
(* The arrays after the operation.                                         *)
Slots(e) == {e.arrs[i].s : i \in DOMAIN e.arrs}
Obs(e, s) == e.arrs[CHOOSE i \in DOMAIN e.arrs : e.arrs[i].s = s]
Value(o) == [d |-> o.dims, vals |-> o.vals, al |-> o.al, ok |-> o.ok]
NewArr(e) == [s \in Slots(e) |-> Value(Obs(e, s))]
NewPlace(e) == [s \in Slots(e) |-> Obs(e, s).at]
Cells(e) == UNION {{Obs(e, s).at[k] : k \in DOMAIN Obs(e, s).at} : s \in Slots(e)}
Holders(e) == {s \in Slots(e) : Len(Obs(e, s).at) > 0}

NoAl(a) == [s \in DOMAIN a |-> [a[s] EXCEPT !.al = 0]]
AlOnly(a) == [s \in DOMAIN a |-> a[s].al]
(* Strides of an array without elements mean nothing.                      *)
Norm(a) == IF ~a.ok THEN [a EXCEPT !.d = <<>>]
           ELSE IF Empty(a.d) THEN [a EXCEPT !.d = [i \in DOMAIN @ |-> <<@[i][1], @[i][2], 0>>]] ELSE a
NormAll(a) == [s \in DOMAIN a |-> Norm(a[s])]

Lifetimes(e) ==
  /\ live = Cells(e)
  /\ Cardinality(live) = SumSeq([i \in DOMAIN e.arrs |-> Len(e.arrs[i].at)])
  (* No block is lost: one without elements belongs to an empty array.     *)
  /\ Cardinality({b \in DOMAIN blk : \A c \in live : c[1] # b}) <= Cardinality(Slots(e) \ Holders(e))
  (* Every array has its elements in one block, its own.                   *)
  /\ \A s \in Holders(e) :
       LET bs == {Obs(e, s).at[k][1] : k \in DOMAIN Obs(e, s).at}
       IN Cardinality(bs) = 1 /\ \A r \in Holders(e) : r # s => bs \cap {Obs(e, r).at[k][1] : k \in DOMAIN Obs(e, r).at} = {}
(* Elements that do not report: every one is in a block, every array has   *)
(* its own, and no other block is left.                                    *)
Blocks(e) ==
  LET Bs(s) == {Obs(e, s).at[k][1] : k \in DOMAIN Obs(e, s).at} IN
  /\ \A s \in Holders(e) :
       /\ Cardinality(Bs(s)) = 1 /\ Bs(s) \subseteq DOMAIN blk
       /\ Cardinality({Obs(e, s).at[k] : k \in DOMAIN Obs(e, s).at}) = Len(Obs(e, s).at)
       /\ \A k \in DOMAIN Obs(e, s).at : LET c == Obs(e, s).at[k] IN c[2] >= 0 /\ c[2] < blk[c[1]].n
       /\ \A r \in Holders(e) : r # s => Bs(r) \cap Bs(s) = {}
  /\ Cardinality(DOMAIN blk) <= Cardinality(Slots(e))
ValuesOk(e) ==
  /\ NormAll(NoAl(NewArr(e))) \in {NormAll(NoAl(r)) : r \in Results(t, pol, arr, cur)}
  /\ \A s \in DOMAIN arr : s \notin Operands(cur) => NewPlace(e)[s] = place[s]
(* Memory that nothing was stored to may hold anything, if memory is not   *)
(* known to be new.                                                        *)
AnyFresh(a, b) ==
  /\ DOMAIN a = DOMAIN b
  /\ \A s \in DOMAIN a : /\ a[s].d = b[s].d /\ a[s].ok = b[s].ok
                         /\ \A k \in DOMAIN b[s].vals : b[s].vals[k] \in {a[s].vals[k], 0}
UninitOk(e) ==
  LET obs == NormAll(NoAl(NewArr(e)))
      res == {NormAll(NoAl(r)) : r \in Results(t, pol, arr, cur)}
  IN \/ obs \in res
     \/ pol.fresh = "any" /\ cur.f \notin {"new", "def"} /\ \E r \in res : AnyFresh(obs, r)
(* The elements are where they were.                                       *)
PlaceKept(e) ==
  cur.f \in {"setsh", "mvre"} =>
    LET s == IF cur.f = "mvre" THEN cur.src ELSE cur.dst
        old == CellsIn(arr[s].d, 0)
        new == CellsIn(Convert(t, cur.dims), cur.k)
    IN NewPlace(e)[cur.dst] = [k \in DOMAIN new |-> place[s][CHOOSE j \in DOMAIN old : old[j] = new[k]]]
InsideOwn(e) ==
  \A s \in Holders(e) : \A k \in DOMAIN Obs(e, s).at :
    Inside(Obs(e, s).at[k][1]) => Obs(e, s).at[k][1] = 9000 + s
ReshapeOk(e) ==
  cur.f = "reshape" =>
    /\ NormAll(NoAl(NewArr(e))) \in {NormAll(NoAl(r)) : r \in Results(t, pol, arr, cur)}
    /\ Idle(t, arr, cur) => NewPlace(e) = place /\ "alloc" \notin work
AllocatorsOk(e) ==
  /\ AlOnly(NewArr(e)) \in {AlOnly(r) : r \in Results(t, pol, arr, cur)}
  /\ \A s \in Holders(e) : \A k \in DOMAIN Obs(e, s).at :
       LET b == Obs(e, s).at[k][1] IN b \in DOMAIN blk /\ blk[b].al = Obs(e, s).al
  /\ TakesOver(t, pol, arr, cur) => work \cap {"alloc", "ctor", "asg"} = {}
  /\ Moving(cur) => "copy" \notin work
  /\ Copying(cur) => "move" \notin work

Return(e) ==
  /\ e.op \in {"ret", "reshaped"} /\ cur # NoCall
  /\ e.op = "reshaped" <=> cur.f = "reshape"
  /\ CASE Aspect = "C10" -> Lifetimes(e)
       [] Aspect = "C10p" -> Blocks(e)
       [] Aspect = "C11" -> ValuesOk(e) /\ PlaceKept(e)
       [] Aspect = "C12" -> ReshapeOk(e)
       [] Aspect = "C13" -> AllocatorsOk(e) /\ PlaceKept(e)
       [] Aspect = "C14" -> Lifetimes(e) /\ ValuesOk(e) /\ InsideOwn(e)
       [] Aspect = "C14p" -> ValuesOk(e) /\ InsideOwn(e)
       [] Aspect = "C14u" -> UninitOk(e)
  /\ arr' = NewArr(e) /\ place' = NewPlace(e)
  /\ cur' = NoCall /\ work' = {}
  /\ UNCHANGED <<t, pol, mem>>

Quit(e) ==
  /\ e.op = "quit" /\ cur = NoCall /\ arr = Fun0
  /\ Aspect \in {"C10", "C10p", "C14"} => blk = Fun0 /\ live = {}
  /\ UNCHANGED <<t, pol, arr, place, mem, cur, work>>

(* Using a moved-from array as a source works like with any other array.   *)
Reuse(e) ==
  /\ e.op = "reuse"
  /\ Aspect = "C11" => e.usable
  /\ UNCHANGED <<t, pol, arr, place, mem, cur, work>>

Step(e) == Start(e) \/ Call(e) \/ Alloc(e) \/ Dealloc(e) \/ Ctor(e) \/ Asg(e) \/ Dtor(e)
           \/ Return(e) \/ Quit(e) \/ Reuse(e)
Consume == More /\ Step(Ev) /\ Advance
Next == Consume \/ (Done /\ UNCHANGED vars)
=============================================================================

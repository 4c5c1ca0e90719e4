----------------------------- MODULE MC_Arrays -----------------------------
(***************************************************************************)
(* Every history of operations on a few arrays: the memory-level machine   *)
(* (ArrayImpl) against the value-level machine (ArrayValues).              *)
(***************************************************************************)
EXTENDS ArrayImpl, TLC, Json

CONSTANTS Type, DimsSet, Allocs, Slots, Policies, Depth, Ops, Emit

VARIABLES st, last, n, pol,
          hist     (* how this state was first reached *)
vars == <<st, last, n, pol, hist>>

Init == /\ pol \in Policies
        /\ st = State(Heap0, [x \in {} |-> 0])
        /\ last = [ok |-> TRUE]
        /\ n = 0 /\ hist = <<>>

arr == AbsAll(Type, st)
AlSet == Allocs \cup {NONE}
Ev(f, d, s, dims, al, k, v) == [f |-> f, dst |-> d, src |-> s, dims |-> dims, al |-> al, k |-> k, v |-> v]

Cand ==
  UNION {
    {Ev("new", d, 0, x, al, 0, 0) : d \in Slots, x \in DimsSet, al \in AlSet},
    {Ev("newv", d, 0, x, al, 0, 5) : d \in Slots, x \in DimsSet, al \in AlSet},
    {Ev("def", d, 0, <<>>, al, 0, 0) : d \in Slots, al \in AlSet},
    {Ev(f, d, s, <<>>, al, 0, 0) : f \in {"copyc", "movec"}, d \in Slots, s \in Slots, al \in AlSet},
    {Ev(f, d, s, <<>>, NONE, 0, 0) : f \in {"copya", "movea", "mvfree", "assc", "assm", "swap"}, d \in Slots, s \in Slots},
    {Ev(f, d, 0, x, NONE, 0, 6) : f \in {"assv", "reshape"}, d \in Slots, x \in DimsSet},
    {Ev(f, d, 0, <<>>, NONE, 0, 7) : f \in {"clear", "destroy", "fill"}, d \in Slots},
    {Ev("setsh", d, 0, x, NONE, k, 0) : d \in Slots, x \in DimsSet, k \in -3..3},
    {Ev("mvre", d, s, x, NONE, k, 0) : d \in Slots, s \in Slots, x \in DimsSet, k \in -3..3},
    {Ev("set", d, 0, <<>>, NONE, k, 8) : d \in Slots, k \in 1..2},
    {Ev(f, d, s, x, al, 0, 0) : f \in {"mkcopy", "mkmove", "mkmover"}, d \in Slots, s \in Slots, x \in DimsSet, al \in AlSet} }

(* Constructing into slots in order keeps the number of histories small.   *)
InOrder(e) == e.dst \in DOMAIN arr \/ \A x \in Slots : x < e.dst => x \in DOMAIN arr

Do ==
  /\ n < Depth
  /\ \E e \in Cand :
       /\ e.f \in Ops
       /\ InOrder(e)
       /\ Legal(Type, pol, arr, e)
       /\ LET s2 == Exec(Type, pol, st, e)
              a2 == AbsAll(Type, s2)
          IN /\ st' = s2
             /\ last' = [ok |->
                  /\ NormAll(a2) \in {NormAll(r) : r \in Results(Type, pol, arr, e)}
                  /\ TakesOver(Type, pol, arr, e) => s2.h.work = 0
                  /\ Idle(Type, arr, e) => s2 = [st EXCEPT !.h.work = 0]
                  /\ \A s \in DOMAIN arr : s \notin Operands(e) =>
                       a2[s] = arr[s] /\ s2.ia[s] = st.ia[s]]
             /\ hist' = Append(hist, e)
             (* Every transition of the last step becomes a plan: a history   *)
             (* that leads to its state, then its operation.                  *)
             /\ (Emit > 0 /\ n + 1 = Depth /\ (Emit = 1 \/ RandomElement(1..Emit) = 1)) =>
                  PrintT("PLAN " \o ToJson([pol |-> pol, ev |-> Append(hist, e)]))
  /\ n' = n + 1 /\ UNCHANGED pol
Spec == Init /\ [][Do]_vars
(* Two states that differ only in how long it took to get there are one.   *)
View_ == <<st.ia, st.h.blk, last, pol, n>>

Refines == last.ok
NoErrors == st.h.err = {}
Discipline ==
  /\ IF Trivial THEN Addressed(st) \subseteq LiveCells(st.h) ELSE LiveCells(st.h) = Addressed(st)
  /\ \A s \in DOMAIN st.ia : LET a == st.ia[s] IN
       a.b # 0 => a.b \in DOMAIN st.h.blk /\ st.h.blk[a.b].al = a.al
  /\ \A r, s \in DOMAIN st.ia : r # s /\ st.ia[r].b # 0 => st.ia[r].b # st.ia[s].b
  /\ \A b \in DOMAIN st.h.blk : \E s \in DOMAIN st.ia : st.ia[s].b = b
AllGone == st.ia = [x \in {} |-> 0] => st.h.blk = [b \in {} |-> 0]

P(a, b, c, s) == [cca |-> a, cma |-> b, cs |-> c, sel |-> s]
AllPolicies == {P(a, b, c, s) : a \in BOOLEAN, b \in BOOLEAN, c \in BOOLEAN, s \in {"same", "default"}}
SomePolicies == {P(FALSE, FALSE, FALSE, "same"), P(TRUE, TRUE, TRUE, "same"), P(FALSE, TRUE, FALSE, "default")}
OnePolicy == {P(FALSE, FALSE, FALSE, "same")}
AllOps == {"new", "newv", "def", "copyc", "movec", "copya", "movea", "mvfree", "assc", "assm", "swap", "assv", "reshape",
           "clear", "destroy", "fill", "set", "mkcopy", "mkmove", "mkmover"}
TrivialPolicies == {[cca |-> p.cca, cma |-> p.cma, cs |-> p.cs, sel |-> p.sel, triv |-> TRUE] : p \in SomePolicies}
TrivialOps == {"new", "newv", "movec", "copya", "movea", "assc", "swap", "assv", "reshape", "clear", "destroy", "set", "setsh", "mvre"}
FewOps == {"new", "movec", "movea", "swap", "assv", "reshape", "destroy", "set", "setsh", "mvre"}
DimsT3 == {<<<<0, 3, 1>>>>, <<<<2, 2, -1>>>>, <<<<0, 2, 2>>>>}
DimsT == {<<<<0, 3, 1>>>>, <<<<0, 2, 1>>>>, <<<<2, 2, -1>>>>, <<<<0, 2, 2>>>>, <<<<1, 1, 1>>>>}
Type1 == <<<<DYN, DYN, DYN>>>>
(* One dimension, nothing known; fixed; partly known; no dimensions.       *)
Dims1 == {<<<<0, 0, UNR>>>>, <<<<0, 2, UNR>>>>, <<<<1, 2, -2>>>>}
TypeF == <<<<0, 2, 1>>>>
DimsF == {<<<<0, 2, 1>>>>}
TypeP == <<<<DYN, 2, DYN>>, <<0, DYN, 1>>>>
DimsP == {<<<<0, 2, UNR>>, <<0, 0, 1>>>>, <<<<1, 2, UNR>>, <<0, 1, 1>>>>, <<<<0, 2, -3>>, <<0, 2, 1>>>>}
Type0 == <<>>
Dims0 == {<<>>}
TwoAllocs == {10, 25}
=============================================================================

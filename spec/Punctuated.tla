----------------------------- MODULE Punctuated -----------------------------
(***************************************************************************)
(* Comma-separated lists under any history of edits (src/punctuated.rs).   *)
(*                                                                         *)
(* Two descriptions side by side:                                          *)
(*  - `els`, `tail`: what the user sees.  els[i] = [v, c] is an element    *)
(*    with the comma that comes after it when another element follows;     *)
(*    tail tells whether the last element came with a comma.               *)
(*  - `inner`, `skip`: how it is kept, a vector of (element, comma) pairs  *)
(*    and the flag that hides the last comma.                              *)
(* The invariants tie them together.                                       *)
(*                                                                         *)
(* Commas: 0 is a comma made up by the list; n > 0 is the comma given with *)
(* the n-th edit (or written in the source of the initial list); -1 is a   *)
(* comma whose origin is left open: a list may or may not use the comma    *)
(* given to an insertion before the end.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, Random,
          Inside     \* TRUE: also changes through the mutable slice (exchange two pairs, replace an element)

VARIABLES start,   \* initial list: "new", or number of elements and trailing comma of a parsed one
          hist,    \* edits so far
          els, tail,
          inner, skip,
          out

vars == <<start, hist, els, tail, inner, skip, out>>

InsertAt(s, i, x) == SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))   \* i: 0-based

Starts == {[n |-> 0, tail |-> FALSE, how |-> "new"], [n |-> 0, tail |-> FALSE, how |-> "parsed"]}
          \cup {[n |-> k, tail |-> t, how |-> "parsed"] : k \in (IF Random THEN {1, 2, 3, 4, 7, 12} ELSE 1..3), t \in BOOLEAN}

(* Element v and comma c have the same number; the source gives 1..n. *)
Init == /\ start \in Starts
        /\ hist = <<>>
        /\ els = [i \in 1..start.n |-> [v |-> i, c |-> IF i < start.n \/ start.tail THEN i ELSE 0]]
        /\ tail = start.tail
        /\ inner = els
        /\ skip = (~start.tail /\ start.n > 0)
        /\ out = "start"

New == start.n + Len(hist) + 1     \* number of the next element and of its comma

Push(comma) ==
  LET c == IF comma THEN New ELSE 0 IN
  /\ els' = Append(els, [v |-> New, c |-> c])
  /\ tail' = comma
  /\ inner' = Append(inner, [v |-> New, c |-> c])
  /\ skip' = ~comma
  /\ hist' = Append(hist, [op |-> "push", at |-> 0, comma |-> comma])
  /\ out' = "ok"
  /\ UNCHANGED start

Insert(i, comma) ==
  /\ hist' = Append(hist, [op |-> "insert", at |-> i, comma |-> comma])
  /\ UNCHANGED start
  /\ IF i > Len(els)                              \* refused, nothing changes
     THEN out' = "panic" /\ UNCHANGED <<els, tail, inner, skip>>
     ELSE IF i = Len(els)
     THEN LET c == IF comma THEN New ELSE 0 IN
          /\ els' = Append(els, [v |-> New, c |-> c])
          /\ tail' = comma
          /\ inner' = Append(inner, [v |-> New, c |-> c])
          /\ skip' = ~comma
          /\ out' = "ok"
     ELSE /\ els' = InsertAt(els, i, [v |-> New, c |-> IF comma THEN -1 ELSE 0])
          /\ inner' = InsertAt(inner, i, [v |-> New, c |-> IF comma THEN -1 ELSE 0])
          /\ out' = "ok"
          /\ UNCHANGED <<tail, skip>>

(* Through the mutable slice: pairs change places with their commas; an element is replaced by another one. *)
Put(s, i, x) == [s EXCEPT ![i + 1] = x]
Swap(i, j) ==
  /\ els' = Put(Put(els, i, els[j + 1]), j, els[i + 1])
  /\ inner' = Put(Put(inner, i, inner[j + 1]), j, inner[i + 1])
  /\ hist' = Append(hist, [op |-> "swap", at |-> i, to |-> j, comma |-> FALSE])
  /\ out' = "ok"
  /\ UNCHANGED <<start, tail, skip>>

Set(i) ==
  /\ els' = Put(els, i, [v |-> New, c |-> els[i + 1].c])
  /\ inner' = Put(inner, i, [v |-> New, c |-> inner[i + 1].c])
  /\ hist' = Append(hist, [op |-> "set", at |-> i, comma |-> FALSE])
  /\ out' = "ok"
  /\ UNCHANGED <<start, tail, skip>>

Ops == {[op |-> "push", at |-> 0, comma |-> b] : b \in BOOLEAN}
       \cup {[op |-> "insert", at |-> i, comma |-> b] : i \in 0..(Len(els) + 1), b \in BOOLEAN}
       \cup (IF Inside THEN {[op |-> "set", at |-> i, to |-> 0, comma |-> FALSE] : i \in 0..(Len(els) - 1)} ELSE {})
       \cup (IF Inside THEN {o \in {[op |-> "swap", at |-> i, to |-> j, comma |-> FALSE] : i, j \in 0..(Len(els) - 1)} : o.at < o.to} ELSE {})

Edit == /\ Len(hist) < MaxOps
        /\ \E o \in (IF Random THEN {RandomElement(Ops)} ELSE Ops) :
             CASE o.op = "push" -> Push(o.comma) [] o.op = "insert" -> Insert(o.at, o.comma)
               [] o.op = "swap" -> Swap(o.at, o.to) [] o.op = "set" -> Set(o.at)

--------------------------------------------------------------------------
(* What is seen.  Printed: element v as [v |-> v], comma as [c |-> c]. *)
Seps == IF tail \/ Len(els) = 0 THEN Len(els) ELSE Len(els) - 1

RECURSIVE PrintFrom(_)
PrintFrom(i) == IF i > Len(els) THEN <<>>
                ELSE <<[k |-> "el", x |-> els[i].v]>>
                     \o (IF i < Len(els) \/ tail THEN <<[k |-> "comma", x |-> els[i].c]>> ELSE <<>>)
                     \o PrintFrom(i + 1)

View == [start |-> start, hist |-> hist, out |-> out, len |-> Len(els),
         items |-> [i \in 1..Len(els) |-> els[i].v],
         puncts |-> [i \in 1..Seps |-> els[i].c],
         printed |-> PrintFrom(1)]

Show == /\ out # "shown"
        /\ PrintT(ToJson(View))
        /\ out' = "shown"
        /\ UNCHANGED <<start, hist, els, tail, inner, skip>>

(* In simulation every state on the way is shown. *)
Next == IF Random /\ out # "shown" THEN Show ELSE (Show \/ (out # "shown" /\ ~Random /\ Edit) \/ (Random /\ Edit))

Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
(* The representation shows what the user sees. *)
RECURSIVE InnerPrint(_)
InnerPrint(i) == IF i > Len(inner) THEN <<>>
                 ELSE <<[k |-> "el", x |-> inner[i].v]>>
                      \o (IF i = Len(inner) /\ skip THEN <<>> ELSE <<[k |-> "comma", x |-> inner[i].c]>>)
                      \o InnerPrint(i + 1)
Refines == InnerPrint(1) = PrintFrom(1)

(* Elements: exactly those put in, each once. *)
Accepted == {start.n + j : j \in {j \in 1..Len(hist) : TRUE}}
NoneTwice == \A i, j \in 1..Len(els) : i # j => els[i].v # els[j].v
OnlyThose == {els[i].v : i \in 1..Len(els)} \subseteq ((1..start.n) \cup Accepted)

(* Printed form alternates, starting with an element. *)
Alternates == LET p == PrintFrom(1) IN \A i \in 1..Len(p) : p[i].k = IF i % 2 = 1 THEN "el" ELSE "comma"

(* A trailing comma is printed only if the last element came with one. *)
Trailing == LET p == PrintFrom(1) IN (Len(p) > 0 /\ p[Len(p)].k = "comma") <=> (Len(els) > 0 /\ tail)

Consistent == Refines /\ NoneTwice /\ OnlyThose /\ Alternates /\ Trailing

\* Action properties: an edit never loses or reorders the elements that were there.
RECURSIVE Without(_, _)
Without(s, v) == IF s = <<>> THEN <<>> ELSE (IF Head(s).v = v THEN <<>> ELSE <<Head(s).v>>) \o Without(Tail(s), v)
Vals(s) == [i \in 1..Len(s) |-> s[i].v]
KeepsOrder == [][(hist' # hist /\ hist'[Len(hist')].op \in {"push", "insert"}) => Vals(els) = Without(els', New)]_vars
=============================================================================

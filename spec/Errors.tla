------------------------------- MODULE Errors -------------------------------
(***************************************************************************)
(* Error values (src/error.rs) under any history of creating, cloning and  *)
(* combining them.                                                         *)
(*                                                                         *)
(* An error is a sequence of messages; a message is [m |-> text number,    *)
(* a |-> first, b |-> last position it is located at, c |-> last position  *)
(* of its first token tree, d |-> first position of its last token tree];  *)
(* a = 0 is the call site.  Positions are those of a fixed stream of the   *)
(* harness; positions 4..7 form one group, hence one token tree.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxOps, MaxLive, Texts, Random

VARIABLES hist,
          live,     \* the error values, in order of creation
          gone,     \* numbers of the values that were moved into another one
          out
vars == <<hist, live, gone, out>>

(* Tokens an error can be created for: [from, to] of the fixed stream      *)
(* x y z ( p q ) w ; from > to is an empty stream. *)
Spots == {[a |-> 1, b |-> 0], [a |-> 1, b |-> 1], [a |-> 2, b |-> 3], [a |-> 1, b |-> 8], [a |-> 4, b |-> 7],
          [a |-> 4, b |-> 8], [a |-> 3, b |-> 7]}

(* Spans an error can be created at: of one token, of several. *)
Spans == {[a |-> 2, b |-> 2], [a |-> 8, b |-> 8], [a |-> 2, b |-> 5]}

Nowhere == [a |-> 0, b |-> 0, c |-> 0, d |-> 0]
InSpan(s) == [a |-> s.a, b |-> s.b, c |-> s.b, d |-> s.a]
InTokens(s) == IF s.a > s.b THEN Nowhere
               ELSE [a |-> s.a, b |-> s.b, c |-> IF s.a = 4 THEN 7 ELSE s.a, d |-> IF s.b = 7 THEN 4 ELSE s.b]
Msg(t, at) == [m |-> t, a |-> at.a, b |-> at.b, c |-> at.c, d |-> at.d]

Init == hist = <<>> /\ live = <<>> /\ gone = {} /\ out = "start"

Add(msgs, h) == /\ live' = Append(live, msgs)
                /\ hist' = Append(hist, h)
                /\ UNCHANGED gone

Op(op, t, a, b) == [op |-> op, t |-> t, a |-> a, b |-> b]

Creations == {Op("new", t, 0, 0) : t \in Texts}
             \cup {Op("at_span", t, s.a, s.b) : t \in Texts, s \in Spans}
             \cup {Op("at_tokens", t, s.a, s.b) : t \in Texts, s \in Spots}
Present == (1..Len(live)) \ gone
Merges == {o \in {Op("combine", 0, i, j) : i \in Present, j \in Present} : o.a # o.b}
Clones == {Op("clone", 0, i, 0) : i \in Present}

Ops == (IF Len(live) < MaxLive THEN Creations \cup Clones ELSE {}) \cup Merges

Do(o) ==
  CASE o.op = "new" -> Add(<<Msg(o.t, Nowhere)>>, o)
    [] o.op = "at_span" -> Add(<<Msg(o.t, InSpan(o))>>, o)
    [] o.op = "at_tokens" -> Add(<<Msg(o.t, InTokens(o))>>, o)
    [] o.op = "clone" -> Add(live[o.a], o)
    [] o.op = "combine" -> /\ live' = [live EXCEPT ![o.a] = live[o.a] \o live[o.b]]
                           /\ gone' = gone \cup {o.b}
                           /\ hist' = Append(hist, o)

Edit == /\ Len(hist) < MaxOps /\ Ops # {}
        /\ \E o \in (IF Random THEN {RandomElement(Ops)} ELSE Ops) : Do(o)
        /\ out' = "ok"

View == [hist |-> hist, live |-> [i \in 1..Len(live) |-> IF i \in gone THEN <<>> ELSE live[i]]]

Show == /\ out = "ok"
        /\ PrintT(ToJson(View))
        /\ out' = "shown"
        /\ UNCHANGED <<hist, live, gone>>

Next == IF Random /\ out = "ok" THEN Show ELSE (Show \/ (out # "shown" /\ ~Random /\ Edit) \/ (Random /\ Edit))
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
RECURSIVE Total(_)
Total(S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN Len(live[i]) + Total(S \ {i})

(* No error is ever without a message. *)
NonEmpty == \A i \in Present : Len(live[i]) > 0
(* A message is where it was created: at the call site, or at a first and a last token in order. *)
Placed ==
  \A i \in Present : \A j \in 1..Len(live[i]) :
    LET x == live[i][j]
    IN  \/ x.a = 0 /\ x.b = 0 /\ x.c = 0 /\ x.d = 0
        \/ x.a >= 1 /\ x.a <= x.c /\ x.c <= x.b /\ x.a <= x.d /\ x.d <= x.b
(* Combining moves messages and never loses one; the first message of an error stays first. *)
Conserves == [][(hist' # hist /\ hist'[Len(hist')].op = "combine") =>
                  LET o == hist'[Len(hist')] IN
                  /\ Len(live'[o.a]) = Len(live[o.a]) + Len(live[o.b])
                  /\ live'[o.a][1] = live[o.a][1]
                  /\ \A i \in Present \ {o.a, o.b} : live'[i] = live[i]]_vars
=============================================================================

---------------------------- MODULE VenialTrace ----------------------------
(***************************************************************************)
(* Validation of recorded parses.                                          *)
(*                                                                         *)
(* Each recorded trace is a token sequence with what the real parser made  *)
(* of it: the outcome, the position it stopped at and, token by token, the *)
(* node part of the returned item that holds the token.  The parser        *)
(* machine runs on the same tokens and must take the same way: every       *)
(* emission of the machine is compared with the recorded labels, and the   *)
(* final outcome with the recorded one.  Departures are printed.           *)
(***************************************************************************)
EXTENDS VenialParser, Json, IOUtils, TLCExt

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Inputs == TLCEval([k \in 1..Len(Traces) |-> Input(Traces[k].t)])

VARIABLES k,     \* which trace
          s,     \* state of the machine
          ok     \* FALSE after a departure

TInit == /\ k \in 1..Len(Traces)
         /\ s = CASE Traces[k].e = "path" -> Start(Inputs[k], "Path", "")
              [] Traces[k].e = "pred" -> Start(Inputs[k], "Pred", "")
              [] OTHER -> Start(Inputs[k], "Item", "top")
         /\ ok = TRUE

(* Tokens of an emission that the code put elsewhere. *)
Departs(tr, em) ==
  {i \in UNION {(em[j][1])..(em[j][2]) : j \in 1..Len(em)} :
     \E j \in 1..Len(em) : /\ em[j][1] <= i /\ i <= em[j][2]
                           /\ (i > Len(tr.labs) \/ tr.labs[i] # em[j][3])}
LabelOf(em, i) == LET j == CHOOSE j \in 1..Len(em) : em[j][1] <= i /\ i <= em[j][2] IN em[j][3]

Move ==
  /\ s.r = "run"
  /\ LET tr == Traces[k]
         n  == Step(Inputs[k], s)
         d  == IF tr.r = "ok" THEN Departs(tr, n.em) ELSE {}
     IN /\ s' = State(n)
        /\ ok' = (ok /\ d = {})
        /\ \A i \in d : PrintT(ToJson([k |-> k, what |-> "part", i |-> i, want |-> LabelOf(n.em, i),
                                       got |-> IF i <= Len(tr.labs) THEN tr.labs[i] ELSE <<"?end">>]))
  /\ UNCHANGED k

(* The machine has stopped: same outcome, same place. *)
SameEnd(tr) == /\ tr.r = s.r
               /\ s.r \in {"ok", "err"} => tr.p = s.p
               /\ s.r = "err" => tr.at = s.at
               /\ s.r = "ok" => Len(tr.labs) = s.p - 1

Judge ==
  /\ s.r \in {"ok", "fail", "err", "none"}
  /\ ok' = (ok /\ SameEnd(Traces[k]))
  /\ IF SameEnd(Traces[k]) THEN TRUE ELSE PrintT(ToJson([k |-> k, what |-> "outcome", want |-> [r |-> s.r, p |-> s.p, at |-> s.at],
                                          got |-> [r |-> Traces[k].r, p |-> Traces[k].p, at |-> Traces[k].at]]))
  /\ s' = [s EXCEPT !.r = "judged"]
  /\ UNCHANGED k

TNext == Move \/ Judge

Conforms == ok
=============================================================================

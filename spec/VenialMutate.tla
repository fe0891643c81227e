---------------------------- MODULE VenialMutate ----------------------------
(***************************************************************************)
(* Declarations with slips of the pen.                                     *)
(*                                                                         *)
(* A sentence of the grammar is generated as in VenialGen; then up to      *)
(* MaxSlips token trees are deleted, doubled, exchanged, replaced or       *)
(* inserted, groups get other delimiters or none, the rest of a group is   *)
(* cut off, or a run of token trees is written twice.  All places and all  *)
(* words of the vocabulary are taken.                                      *)
(* The machine gives its verdict on the result; what it rejects the code   *)
(* has to reject, what it still takes for a declaration the code has to    *)
(* read in the same way.                                                   *)
(***************************************************************************)
EXTENDS VenialGen

CONSTANTS MaxSlips,    \* number of slips
          Words        \* "few" or "many": the vocabulary; "twins": only runs written twice

Few == << <<";">>, <<",">>, <<":">>, <<"=">>, <<"<">>, <<">">>, <<"!">>, <<"mut">>, <<"pub">>, <<"where">>, <<"x">>, <<"1">>, <<"(", ")">>, <<"{", "}">> >>
Many == Few \o << <<":^", ":">>, <<"-", ">">>, <<"-">>, <<"#">>, <<"&">>, <<"'", "a">>, <<"[", "]">>, <<"/(", "/)">>, <<"(", "crate", ")">>,
                  <<"#", "[", "a", "]">>, <<"#", "!", "[", "a", "]">>, <<"crate">>, <<"const">>, <<"static">>, <<"unsafe">>, <<"extern">>, <<"\"C\"">>, <<"default">>,
                  <<"async">>, <<"fn">>, <<"struct">>, <<"enum">>, <<"union">>, <<"mod">>, <<"trait">>, <<"impl">>, <<"type">>, <<"use">>,
                  <<"for">>, <<"as">>, <<"self">>, <<"_">>, <<"r#fn">>, <<"+">>, <<"?">>, <<"*">>, <<".">>, <<"=", "1">>, <<"<", "T", ">">>, <<"x", ":", "A">>,
                  <<"/(", "x", "/)">>, <<":^">>, <<"in">>, <<"'">>, <<"macro_rules">> >>
Vocabulary == IF Words = "few" THEN Few ELSE Many

Splice(t, a, b, w) == SubSeq(t, 1, a - 1) \o w \o SubSeq(t, b, Len(t))     \* replaces a..b-1

(* The end of the group that p stands in: the position of its closing delimiter. *)
RECURSIVE GroupEnd(_, _)
GroupEnd(in, p) == IF p > Len(in.t) \/ in.t[p] \in Closes THEN p ELSE GroupEnd(in, After(in, p))

Delims == << <<"(", ")">>, <<"[", "]">>, <<"{", "}">>, <<"/(", "/)">> >>

(* Runs of two to seven token trees (and single groups) written twice. *)
RECURSIVE Ends(_, _, _)
Ends(in, p, k) == IF k = 0 \/ p > Len(in.t) \/ in.t[p] \in Closes THEN {} ELSE {After(in, p)} \cup Ends(in, After(in, p), k - 1)
Twins(in) == LET t == in.t  starts == {p \in 1..Len(t) : t[p] \notin Closes} IN
             UNION {{Splice(t, e, e, SubSeq(t, p, e - 1)) : e \in Ends(in, p, 7)} : p \in starts}

Slips(in) == IF Words = "twins" THEN Twins(in) ELSE
  LET t == in.t
      starts == {p \in 1..Len(t) : t[p] \notin Closes}
      gaps   == 1..(Len(t) + 1)
      tree(p) == SubSeq(t, p, After(in, p) - 1)
      next(p) == After(in, p) <= Len(t) /\ t[After(in, p)] \notin Closes
  IN {Splice(t, p, After(in, p), <<>>) : p \in starts}
     \cup Twins(in)
     \cup {Splice(t, p, After(in, After(in, p)), tree(After(in, p)) \o tree(p)) : p \in {q \in starts : next(q)}}
     \cup {Splice(t, p, GroupEnd(in, p), <<>>) : p \in starts}
     \cup {Splice(t, p, p, Vocabulary[j]) : p \in gaps, j \in 1..Len(Vocabulary)}
     \cup {Splice(t, p, After(in, p), Vocabulary[j]) : p \in starts, j \in 1..Len(Vocabulary)}
     \cup {Splice(t, p, After(in, p), SubSeq(t, p + 1, in.m[p] - 1)) : p \in {q \in starts : t[q] \in Opens}}
     \cup {Splice(t, p, After(in, p), <<Delims[j][1]>> \o SubSeq(t, p + 1, in.m[p] - 1) \o <<Delims[j][2]>>)
             : p \in {q \in starts : t[q] \in Opens}, j \in 1..4}
     \cup {Splice(t, p, p + 1, <<IF t[p] = ":" THEN ":^" ELSE ":">>) : p \in {q \in starts : t[q] \in {":", ":^"}}}

(* After generation, `budget` counts the slips left and `labs` is dropped: *)
(* the same token sequence reached in two ways is one state.               *)
Turn == /\ todo = <<>> /\ out.r = "gen"
        /\ labs' = <<>> /\ budget' = MaxSlips /\ out' = [r |-> "slip"]
        /\ UNCHANGED <<todo, toks>>

Slip == /\ out.r = "slip" /\ budget > 0
        /\ \E w \in (IF Random THEN {RandomElement(Slips(Input(toks)))} ELSE Slips(Input(toks))) : toks' = w
        /\ budget' = budget - 1
        /\ UNCHANGED <<todo, labs, out>>

Verdict == /\ out.r = "slip"
           /\ Random => budget = 0
           /\ LET in == Input(toks)  res == Result(in) IN
              /\ out' = res
              /\ PrintT(ToJson(Report(in, res, Want, Entry)))
           /\ UNCHANGED <<todo, toks, labs, budget>>

MutNext == Choose \/ Turn \/ Slip \/ Verdict

Decided == out.r \in {"gen", "slip", "ok", "err", "fail", "none"}
=============================================================================

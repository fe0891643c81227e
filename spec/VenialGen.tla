----------------------------- MODULE VenialGen -----------------------------
(***************************************************************************)
(* Behaviours of the specification: build a token sequence, then parse it. *)
(*                                                                         *)
(* Grammar mode expands the nonterminal `StartSym` one choice at a time,   *)
(* keeping for every token the label the user means by it.  Symbols in     *)
(* `Free` range over all their alternatives; the others take the first     *)
(* one.  When the sentence is complete the parser machine runs on it.      *)
(*                                                                         *)
(* The invariants state that the machine recovers what was meant.          *)
(* Every completed behaviour is printed as JSON for replay on the real     *)
(* parser.                                                                 *)
(***************************************************************************)
EXTENDS VenialGrammar, VenialParser, VenialView, Json

CONSTANTS StartSym,    \* nonterminal to start from
          Free,        \* set of nonterminals that are not pinned to their first alternative
          FreeAll,     \* TRUE: all nonterminals are free
          Random,      \* TRUE: one random alternative per choice (simulation)
          Bias,        \* in simulation, extra weight of the alternatives that make lists longer and types deeper
          MaxChoices,  \* bound on the number of choices other than the first alternative
          Want         \* which views to print: subset of {"nodes", "obs"}

VARIABLES todo,        \* grammar elements still to expand, outermost first
          toks, labs,  \* tokens so far and what each is meant to be
          budget,      \* choices left
          out          \* [r |-> "gen"] while generating, then what the machine says

vars == <<todo, toks, labs, budget, out>>

IsFree(s) == FreeAll \/ s \in Free

(* Emit terminals and expand pinned nonterminals until a choice is needed. *)
RECURSIVE Norm(_, _, _, _)
Norm(td, tk, lb, bud) ==
  IF td = <<>> THEN [todo |-> td, toks |-> tk, labs |-> lb]
  ELSE LET x == Head(td) IN
       CASE x.g = "T" -> Norm(Tail(td), Append(tk, x.t), Append(lb, x.l), bud)
         [] x.g = "R" -> Norm(Tail(td), tk \o x.ts, lb \o [i \in 1..Len(x.ts) |-> x.l], bud)
         [] x.g = "N" -> LET a == Alts(x) IN
                         IF (IsFree(x.s) /\ bud > 0) /\ Len(a) > 1 THEN [todo |-> td, toks |-> tk, labs |-> lb]
                         ELSE Norm(a[1] \o Tail(td), tk, lb, bud)

Begin == Norm(<<N(StartSym, <<>>, 1, "top", 0)>>, <<>>, <<>>, MaxChoices)

GenInit == /\ todo = Begin.todo
           /\ toks = Begin.toks
           /\ labs = Begin.labs
           /\ budget = MaxChoices
           /\ out = [r |-> "gen"]

(* One alternative at random.  The last alternative of a list is the one   *)
(* that goes on; the last ones of a type are those with types inside.      *)
Lists == {"GParams", "WPreds", "TFields", "NFields", "Variants", "BadVariants", "ParamList", "PArgs", "Members", "BadMembers", "Attrs", "Inner", "PMore", "Stream", "BadStream"}
Nested == {"Ty", "Bound"}
Draw(x, as) ==
  LET k == RandomElement(1..(Len(as) + Bias)) IN
  IF k <= Len(as) THEN k
  ELSE IF x.s \in Lists THEN Len(as)
  ELSE IF x.s \in Nested /\ x.d < MaxDepth THEN Len(as) - RandomElement(0..2)
  ELSE RandomElement(1..Len(as))

Choose ==
  /\ todo # <<>>
  /\ LET as == Alts(Head(todo)) IN
     \E j \in (IF Random THEN {Draw(Head(todo), as)} ELSE 1..Len(as)) :
       LET b == IF j = 1 THEN budget ELSE budget - 1
           n == Norm(as[j] \o Tail(todo), toks, labs, b)
       IN /\ todo' = n.todo /\ toks' = n.toks /\ labs' = n.labs /\ budget' = b
  /\ UNCHANGED out

(* How the finished sentence is parsed. *)
Result(in) == CASE StartSym \in {"Stream", "BadStream"} -> ParseStream(in)
                [] StartSym = "PathTy" -> AsPath(in)
                [] StartSym = "WPred" -> AsPred(in)
                [] OTHER -> Consume(in)

Entry == CASE StartSym = "PathTy" -> "path" [] StartSym = "WPred" -> "pred" [] OTHER -> "item"

(* `crate` in front of a type that starts with `::` reads as a path: nobody can mean it as a visibility. *)
Ambiguous == \E i \in 1..(Len(toks) - 1) : toks[i] = "crate" /\ Len(labs[i]) > 1 /\ labs[i][Len(labs[i])] = "tok" /\ labs[i][Len(labs[i]) - 1] = "vis" /\ toks[i + 1] = ":^"

Parse ==
  /\ todo = <<>> /\ out.r = "gen"
  /\ ~Ambiguous
  /\ LET in == Input(toks)  res == Result(in) IN
     /\ out' = res
     /\ PrintT(ToJson(Report(in, res, Want, Entry)))
  /\ UNCHANGED <<todo, toks, labs, budget>>

GenNext == Choose \/ Parse

Spec == GenInit /\ [][GenNext]_vars

--------------------------------------------------------------------------
Done == out.r # "gen"

IsBad == \E i \in 1..Len(labs) : labs[i][Len(labs[i])] = "badvalue"
FirstBad == CHOOSE i \in 1..Len(labs) : labs[i][Len(labs[i])] = "badvalue"
                     /\ \A j \in 1..(i - 1) : labs[j][Len(labs[j])] # "badvalue"

Misplaced == \E i \in 1..Len(labs) : \E j \in 1..Len(labs[i]) : labs[i][j] = "badmember"

(* Every declaration of the grammar is accepted, to its last token, and the *)
(* tree the machine recovers is the tree that was meant.                    *)
Recovered == (Done /\ ~IsBad /\ ~Misplaced) => /\ out.r = "ok"
                                 /\ out.p = Len(toks) + 1
                                 /\ out.labs = labs

(* A member of a kind that its block cannot hold is not dropped: the whole is rejected. *)
Rejected == (Done /\ Misplaced) => out.r = "fail"

(* The one recoverable error, at the first discriminant that causes it. *)
Located == (Done /\ IsBad /\ StartSym # "BadStream") => /\ out.r = "err"
                              /\ out.at = FirstBad
                              /\ out.p = Len(toks) + 1

(* In a stream, each declaration with such a discriminant is one error, located there, and takes exactly its own tokens. *)
ItemOf(i) == labs[i][1]
BadIn(c) == {i \in 1..Len(labs) : ItemOf(i) = c /\ labs[i][Len(labs[i])] = "badvalue"}
SameStream ==
  (Done /\ StartSym = "BadStream") =>
    /\ out.r = "ok" /\ out.p = Len(toks) + 1
    /\ \A k \in 1..Len(out.items) :
         LET it == out.items[k]  c == ToString(k) IN
         /\ \A i \in it.from..(it.p - 1) : ItemOf(i) = c
         /\ it.p <= Len(toks) => ItemOf(it.p) = ToString(k + 1)
         /\ IF BadIn(c) = {} THEN it.r = "ok" /\ \A i \in it.from..(it.p - 1) : out.labs[i] = labs[i]
            ELSE it.r = "err" /\ it.at \in BadIn(c) /\ \A i \in BadIn(c) : it.at <= i

(* What names and literals are called makes no difference. *)
Symmetric == Done => Result(Input(Renamed(toks))) = out

(* Every consumed token has exactly one place in the tree. *)
Lossless == Done => (out.r = "ok" => Len(out.labs) = out.p - 1)
=============================================================================

---------------------------- MODULE VenialParts ----------------------------
(***************************************************************************)
(* A declaration is the sum of its parts.                                  *)
(*                                                                         *)
(* Macro authors take declarations apart and put them together again: they *)
(* give one function the body of another, drop attributes, hide or publish *)
(* fields, remove members.  A behaviour builds two declarations of the     *)
(* same kind and then makes a new one of them:                             *)
(*                                                                         *)
(*   Mix    some parts of the first are replaced by those of the second    *)
(*          (which may be absent, so parts also come and go)               *)
(*   Drop   one element of a list of attributes or members is removed      *)
(*   Strip  a sort of part is removed everywhere, at every depth           *)
(*   Spread the visibility or the attributes of the second are given to    *)
(*          every part of the first that can have them, at every depth     *)
(*                                                                         *)
(* The result is written down as positions of the original tokens, so that *)
(* printing it has to give those very tokens, and, wherever the result is  *)
(* a declaration again, the machine has to read it as the parts it is made *)
(* of.                                                                     *)
(***************************************************************************)
EXTENDS VenialGen, FiniteSets

CONSTANT Single     \* TRUE: one part is exchanged at a time, FALSE: a random set of parts

VARIABLE made       \* [op |-> "none"], or what was made of the two declarations

pvars == <<vars, made>>

(* The label of token i inside its declaration, and the number of the declaration. *)
Own(i) == Tail(labs[i])
Decl(i) == labs[i][1]

--------------------------------------------------------------------------
(* The parts of each kind of declaration, in the order they are written.   *)
(* `key` is the part a token belongs to.                                   *)
Key(i) ==
  LET l == Own(i)  h == l[1] IN
  CASE h = "q" -> l[2]
    [] h \in {"tuple", "named"} -> "fields"
    [] h \in {"Struct", "Enum", "Union", "Mod", "Trait", "Impl", "Type", "Fn", "Const", "Use", "ExternBlock", "ExternCrate", "crate"} -> "kw"
    [] h = "Macro" -> "name"
    [] h \in {"body", "delim", "params"} -> IF Len(l) > 1 THEN h ELSE IF toks[i] \in {"{", "(", "[", "/("} THEN "open" ELSE "close"
    [] OTHER -> h

(* The order of the parts.  Where the where clause of a struct is written depends on its fields; a module with a semicolon
   has no body, and without braces it has none either. *)
Order(isNamed, hasSemi, hasBraces) ==
  CASE StartSym = "D_Struct" -> IF isNamed THEN <<"attr", "vis", "kw", "name", "gen", "where", "fields", "semi">>
                                ELSE <<"attr", "vis", "kw", "name", "gen", "fields", "where", "semi">>
    [] StartSym = "D_Enum" -> <<"attr", "vis", "kw", "name", "gen", "where", "open", "body", "close">>
    [] StartSym = "D_Union" -> <<"attr", "vis", "kw", "name", "gen", "where", "fields">>
    [] StartSym = "D_Mod" -> <<"attr", "vis", "unsafe", "kw", "name">> \o
                             (IF hasSemi THEN <<"semi">> ELSE IF hasBraces THEN <<"open", "inner", "body", "close">> ELSE <<>>)
    [] StartSym = "D_Trait" -> <<"attr", "vis", "unsafe", "kw", "name", "gen", "bound", "where", "open", "inner", "body", "close">>
    [] StartSym = "D_Impl" -> <<"attr", "unsafe", "kw", "gen", "trait", "for", "self", "where", "open", "inner", "body", "close">>
    [] StartSym = "D_Type" -> <<"attr", "vis", "kw", "name", "bound", "eq", "ty", "semi">>
    [] StartSym = "D_Fn" -> <<"attr", "vis", "default", "const", "async", "unsafe", "extern", "abi", "kw", "name", "gen", "open", "params", "close", "arrow", "ret", "where", "block", "semi">>
    [] StartSym \in {"D_Const", "D_Static"} -> <<"attr", "vis", "kw", "mut", "name", "colon", "ty", "eq", "init", "semi">>
    [] StartSym = "D_Use" -> <<"attr", "vis", "kw", "tree", "semi">>
    [] StartSym = "D_Macro" -> <<"attr", "name", "bang", "decl", "open", "tok", "close", "semi">>
    [] StartSym = "D_ExternBlock" -> <<"attr", "vis", "unsafe", "kw", "abi", "open", "inner", "body", "close">>
    [] StartSym = "D_ExternCrate" -> <<"attr", "vis", "kw", "name", "as", "alias", "semi">>

(* What is exchanged as one: delimiters. *)
Slot(k) == IF k \in {"open", "close"} THEN "delim" ELSE k
LOCAL RangeOf(s) == {s[i] : i \in 1..Len(s)}
Slots == {Slot(k) : k \in RangeOf(Order(TRUE, FALSE, TRUE)) \cup (IF StartSym = "D_Mod" THEN {"semi"} ELSE {})}

Where(S, k) == IF Slot(k) \in S THEN "2" ELSE "1"
PartAt(S, k) == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : Decl(i) = Where(S, k) /\ Key(i) = k)
IsNamed(S) == \E i \in 1..Len(toks) : Decl(i) = Where(S, "fields") /\ Own(i)[1] = "named"

RECURSIVE Concat(_, _)
Concat(S, ks) == IF ks = <<>> THEN <<>> ELSE PartAt(S, Head(ks)) \o Concat(S, Tail(ks))
MixOf(S) == LET src == Concat(S, Order(IsNamed(S), PartAt(S, "semi") # <<>>, PartAt(S, "open") # <<>>)) IN
            [op |-> "mix", what |-> S, src |-> src, labs |-> [i \in 1..Len(src) |-> Own(src[i])]]

(* A function with a body and a semicolon, or with neither, or with an arrow and no type, is not a declaration, but it prints as it is; likewise a struct
   without a body in braces and without a semicolon, and a macro call with braces and a semicolon, or with neither. *)
HasPart(m, h) == \E j \in 1..Len(m.src) : m.labs[j][1] = h
HasQ(m, q) == \E j \in 1..Len(m.src) : m.labs[j] = <<"q", q>>
Together(m, g, h) == HasPart(m, g) = HasPart(m, h)
IsDecl(m) == CASE m.op = "strip" /\ m.what = {"ref"} -> ~ \E j \in 1..Len(m.src) : \E k \in 1..Len(m.labs[j]) : m.labs[j][k] = "life"
              [] m.op # "mix" -> TRUE
              [] StartSym = "D_Struct" -> HasPart(m, "named") \/ HasPart(m, "semi")
              [] StartSym = "D_Fn" -> HasPart(m, "block") # HasPart(m, "semi") /\ Together(m, "arrow", "ret") /\ (HasQ(m, "abi") => HasQ(m, "extern"))
              [] StartSym = "D_Macro" -> HasPart(m, "semi") # (\E j \in 1..Len(m.src) : m.labs[j] = <<"delim">> /\ toks[m.src[j]] = "{")
              [] StartSym = "D_Mod" -> HasPart(m, "semi") \/ HasPart(m, "body")
              [] StartSym \in {"D_Const", "D_Static"} -> Together(m, "eq", "init")
              [] StartSym = "D_Type" -> Together(m, "eq", "ty")
              [] StartSym = "D_Impl" -> Together(m, "trait", "for")
              [] StartSym = "D_ExternCrate" -> Together(m, "as", "alias")
              [] OTHER -> TRUE

--------------------------------------------------------------------------
(* Removing one element of a list of the first declaration. *)
First == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : Decl(i) = "1")
ListOf(l) == IF l = <<>> \/ Len(l) < 2 THEN "" ELSE IF l[1] \in {"attr", "inner"} THEN l[1] ELSE IF l[1] = "body" /\ StartSym # "D_Enum" THEN "body" ELSE ""
Index(x) == CHOOSE j \in 1..300 : ToString(j) = x
SizeOf(k) == LET s == {Index(Own(i)[2]) : i \in {i \in RangeOf(First) : ListOf(Own(i)) = k}} IN IF s = {} THEN 0 ELSE CHOOSE n \in s : \A m \in s : m <= n
DropOf(k, n) ==
  LET src == SelectSeq(First, LAMBDA i : ~(ListOf(Own(i)) = k /\ Index(Own(i)[2]) = n))
      re(l) == IF ListOf(l) = k /\ Index(l[2]) > n THEN [l EXCEPT ![2] = ToString(Index(l[2]) - 1)] ELSE l
  IN [op |-> "drop", what |-> {k, ToString(n)}, src |-> src, labs |-> [i \in 1..Len(src) |-> re(Own(src[i]))]]

(* Removing a sort of part everywhere. *)
IsIn(l, s) == \E j \in 1..Len(l) : l[j] = s
Stripped(l, s) ==
  CASE s = "val" -> Len(l) > 3 /\ l[1] = "body" /\ l[3] = "val" /\ StartSym = "D_Enum"
    [] s = "attrval" -> \E j \in 1..(Len(l) - 2) : l[j] \in {"attr", "inner"} /\ l[j + 2] = "val"
    [] s = "bound" -> IsIn(l, "bound") /\ ~IsIn(l, "where")      \* a predicate always has one
    [] s = "ret" -> IsIn(l, "ret") \/ IsIn(l, "arrow")
    [] OTHER -> IsIn(l, s)
Sorts == {"attr", "vis", "inner", "val", "attrval", "bound", "ret", "gen", "where", "mut", "life", "q", "ref", "prefix"}
StripOf(s) ==
  LET src == SelectSeq(First, LAMBDA i : ~Stripped(Own(i), s)) IN
  [op |-> "strip", what |-> {s}, src |-> src, labs |-> [i \in 1..Len(src) |-> Own(src[i])]]

--------------------------------------------------------------------------
(* Giving the visibility or the attributes of the second declaration to all that can have them: the declaration itself,
   fields, variants, members (but macro calls and impls have no visibility), parameters (attributes only). *)
Beneath(l, b) == Len(l) >= Len(b) /\ SubSeq(l, 1, Len(b)) = b
IsNode(b) == b = <<>> \/ (Len(b) > 1 /\ b[Len(b) - 1] \in {"named", "tuple", "body", "params"})
Bearers(s) ==
  LET all == {b \in UNION {{SubSeq(Own(i), 1, n) : n \in 0..Len(Own(i))} : i \in RangeOf(First)} : IsNode(b)}
      open(b) == \A i \in RangeOf(First) : Own(i) # Append(b, "Macro") /\ Own(i) # Append(b, "Impl")
  IN IF s = "attr" THEN all ELSE {b \in all : (b = <<>> \/ b[Len(b) - 1] # "params") /\ open(b)}

Given(s) == SelectSeq([i \in 1..Len(toks) |-> i], LAMBDA i : Decl(i) = "2" /\ Own(i)[1] = s)
(* The token before which the part of b goes. *)
Place(s, b) == Head(SelectSeq(First, LAMBDA j : Beneath(Own(j), b) /\ ~Beneath(Own(j), Append(b, s)) /\ (s = "vis" => ~Beneath(Own(j), Append(b, "attr")))))

SpreadOf(s) ==
  LET bs == Bearers(s)
      gv == Given(s)
      at == [b \in bs |-> Place(s, b)]
      gone(i) == LET l == Own(i) IN \E n \in 1..Len(l) : l[n] = s /\ SubSeq(l, 1, n - 1) \in bs
      put(i) == LET here == {b \in bs : at[b] = i} IN
                IF here = {} THEN <<>> ELSE LET b == CHOOSE b \in here : TRUE IN [k \in 1..Len(gv) |-> [p |-> gv[k], l |-> b \o Own(gv[k])]]
      RECURSIVE all(_)
      all(is) == IF is = <<>> THEN <<>>
                 ELSE (IF gone(Head(is)) THEN <<>> ELSE put(Head(is)) \o <<[p |-> Head(is), l |-> Own(Head(is))]>>) \o all(Tail(is))
      r == all(First)
  IN [op |-> "spread", what |-> {s}, src |-> [i \in 1..Len(r) |-> r[i].p], labs |-> [i \in 1..Len(r) |-> r[i].l]]

--------------------------------------------------------------------------
(* Two declarations that would be read as something else side by side stay apart: without parameters of its own, an impl
   cannot start with `<`, nor an inherent one with `for`; `crate` in front of `::` is a path. *)
TokAt(m, j) == toks[m.src[j]]
LastOf(l) == l[Len(l)]
Apart(m) ==
  /\ ~ \E j \in 1..(Len(m.src) - 1) : TokAt(m, j) = "crate" /\ LastOf(m.labs[j]) = "tok" /\ TokAt(m, j + 1) = ":^"
  /\ ~ \E j \in 1..(Len(m.src) - 1) : LastOf(m.labs[j]) = "Impl" /\ TokAt(m, j + 1) = "<" /\ ~IsIn(m.labs[j + 1], "gen")
  /\ StartSym = "D_Impl" =>
       /\ (~ \E j \in 1..Len(m.src) : m.labs[j] = <<"trait">>) => ~ \E j \in 2..Len(m.src) : m.labs[j] = <<"self">> /\ m.labs[j - 1] # <<"self">> /\ TokAt(m, j) = "for"

Show(m) == PrintT(ToJson([t |-> toks, mid |-> Len(First), op |-> m.op, what |-> m.what, src |-> m.src, labs |-> IF IsDecl(m) THEN m.labs ELSE <<>>]))

Begins == Norm(<<N(StartSym, <<"1">>, 1, "top", 0), N(StartSym, <<"2">>, 1, "top", 0)>>, <<>>, <<>>, MaxChoices)
PInit == /\ todo = Begins.todo /\ toks = Begins.toks /\ labs = Begins.labs
         /\ budget = MaxChoices /\ out = [r |-> "gen"] /\ made = [op |-> "none"]

Ready == todo = <<>> /\ made.op = "none" /\ ~Ambiguous
Make(m) == Apart(m) /\ made' = m /\ Show(m) /\ UNCHANGED vars

Mix == Ready /\ \E S \in (IF Single THEN {{s} : s \in Slots} \cup {Slots \ {s} : s \in Slots} ELSE {RandomElement(SUBSET Slots), RandomElement(SUBSET Slots)}) : Make(MixOf(S))
Drop == Ready /\ \E k \in {"attr", "inner", "body"} : \E n \in 1..SizeOf(k) : Make(DropOf(k, n))
Strip == Ready /\ \E s \in Sorts : LET m == StripOf(s) IN m.src # First /\ Make(m)
HandOut == Ready /\ \E s \in {"attr", "vis"} : LET m == SpreadOf(s) IN m.src # First /\ Make(m)

PNext == (Choose /\ UNCHANGED made) \/ Mix \/ Drop \/ Strip \/ HandOut

--------------------------------------------------------------------------
(* What was made is a declaration, made of exactly those parts. *)
Sum == (made.op # "none" /\ IsDecl(made)) =>
  LET t == [i \in 1..Len(made.src) |-> toks[made.src[i]]]
      r == Consume(Input(t))
  IN r.r = "ok" /\ r.p = Len(t) + 1 /\ r.labs = made.labs

(* No token is used twice, unless it is handed around. *)
Once == made.op \notin {"none", "spread"} => Cardinality({made.src[i] : i \in 1..Len(made.src)}) = Len(made.src)

(* Exchanging all the parts gives the second declaration, exchanging none the first. *)
Texts(ps) == [i \in 1..Len(ps) |-> toks[ps[i]]]
Swapped == todo = <<>> => /\ MixOf({}).src = First
                          /\ Texts(MixOf(Slots).src) = [i \in 1..(Len(toks) - Len(First)) |-> toks[Len(First) + i]]
=============================================================================

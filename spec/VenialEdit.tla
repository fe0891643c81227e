----------------------------- MODULE VenialEdit -----------------------------
(***************************************************************************)
(* Building on a parsed struct, enum or union (with_param,                 *)
(* with_where_predicate) or on the lists of a function, trait or impl      *)
(* (GenericParamList::with_param, WhereClause::with_predicate and          *)
(* from_predicate), the inline generic arguments and the derived where     *)
(* clause (src/types_edition.rs).                                          *)
(*                                                                         *)
(* A behaviour of VenialGen produces a declaration; it is taken apart into *)
(* a document, edited, and after each edit written out again.  The         *)
(* invariants state that what is written out is a well-formed declaration  *)
(* whose decomposition is the document.                                    *)
(***************************************************************************)
EXTENDS VenialGen

CONSTANTS MaxEdits,
          Rich       \* TRUE: parameters and predicates from all the pools

VARIABLES doc,    \* the document, or <<>> before there is one
          edits   \* edits so far

evars == <<vars, doc, edits>>

(* A piece is a sequence of [t |-> token, l |-> label relative to the piece]. *)
Piece(ts, l) == [i \in 1..Len(ts) |-> [t |-> ts[i], l |-> l]]
TokOf(pc) == [i \in 1..Len(pc) |-> pc[i].t]

DropN(l, n) == SubSeq(l, n + 1, Len(l))
PieceOf(tk, lb, pre) == LET ps == Range(lb, pre) IN [i \in 1..Len(ps) |-> [t |-> tk[ps[i]], l |-> DropN(lb[ps[i]], Len(pre))]]

RECURSIVE Elements(_, _, _, _)
Elements(tk, lb, pre, i) == IF ~Has(lb, Append(pre, Num(i))) THEN <<>>
                            ELSE <<PieceOf(tk, lb, Append(pre, Num(i)))>> \o Elements(tk, lb, pre, i + 1)

Trail(lb, pre) == LET n == Count(lb, pre) IN n > 0 /\ HasLab(lb, pre \o <<Num(n), "comma">>)

Region(l) == IF l = <<>> THEN "pre"
             ELSE CASE l[1] \in {"attr", "vis", "q", "unsafe", "Struct", "Enum", "Union", "Fn", "Trait", "Impl", "name"} -> "pre"
                    [] l[1] = "gen" -> "gen" [] l[1] = "where" -> "where"
                    [] l[1] \in {"tuple", "params", "arrow", "ret", "bound", "trait", "for", "self"} -> "mid"
                    [] l[1] \in {"named", "body", "block", "inner"} -> "tail" [] l[1] = "semi" -> "semi"

RegionOf(tk, lb, r) == LET ps == Pick(lb, LAMBDA x : Region(x) = r) IN [i \in 1..Len(ps) |-> [t |-> tk[ps[i]], l |-> lb[ps[i]]]]

DocOf(tk, lb) ==
  [pre |-> RegionOf(tk, lb, "pre"),
   hasGen |-> Has(lb, <<"gen">>), params |-> Elements(tk, lb, <<"gen">>, 1), ptrail |-> Trail(lb, <<"gen">>),
   hasWhere |-> Has(lb, <<"where">>), preds |-> Elements(tk, lb, <<"where">>, 1), wtrail |-> Trail(lb, <<"where">>),
   mid |-> RegionOf(tk, lb, "mid"), tail |-> RegionOf(tk, lb, "tail"), semi |-> RegionOf(tk, lb, "semi"),
   data |-> \E k \in {"Struct", "Enum", "Union"} : Has(lb, <<k>>)]

(* What a struct, enum or union consists of. *)
FieldsOf(d) == IF d.data THEN d.mid \o d.tail ELSE <<>>

--------------------------------------------------------------------------
(* Writing a document out.  trail: whether the edited lists end with a comma (open). *)
RECURSIVE WriteList(_, _, _, _)
WriteList(els, at, i, trail) ==
  IF i > Len(els) THEN <<>>
  ELSE [j \in 1..Len(els[i]) |-> [t |-> els[i][j].t, l |-> at \o <<Num(i)>> \o els[i][j].l]]
       \o (IF i < Len(els) \/ trail THEN <<[t |-> ",", l |-> at \o <<Num(i), "comma">>]>> ELSE <<>>)
       \o WriteList(els, at, i + 1, trail)

WriteGen(d, trail) == IF ~d.hasGen THEN <<>>
  ELSE <<[t |-> "<", l |-> <<"gen", "lt">>]>> \o WriteList(d.params, <<"gen">>, 1, trail) \o <<[t |-> ">", l |-> <<"gen", "gt">>]>>
WriteWhere(d, trail) == IF ~d.hasWhere THEN <<>>
  ELSE <<[t |-> "where", l |-> <<"where", "kw">>]>> \o WriteList(d.preds, <<"where">>, 1, trail)

Write(d, pt, wt) ==
  d.pre \o WriteGen(d, pt) \o d.mid \o WriteWhere(d, wt) \o d.tail \o d.semi

EditedP == \E i \in 1..Len(edits) : edits[i].op = "param"
EditedW == \E i \in 1..Len(edits) : edits[i].op = "pred"
PTrails == IF EditedP THEN BOOLEAN ELSE {doc.ptrail}
WTrails == IF EditedW THEN BOOLEAN ELSE {doc.wtrail}
Variants == {Write(doc, pt, wt) : pt \in PTrails, wt \in WTrails}

--------------------------------------------------------------------------
(* The edits. *)
Life(n) == <<[t |-> "'", l |-> <<"prefix">>], [t |-> n, l |-> <<"name">>]>>
Nm(n) == <<[t |-> n, l |-> <<"name">>]>>
Bd(ts) == <<[t |-> ":", l |-> <<"bound", "colon">>]>> \o Piece(ts, <<"bound", "tok">>)

P(kind, n, ts, pc) == [op |-> "param", kind |-> kind, name |-> n, ts |-> ts, pc |-> pc]
NewParams == <<
   P("lifetime", "b", <<>>, Life("b")),
   P("ty", "U", <<>>, Nm("U")),
   P("bounded_ty", "V", <<"A", "<", "B", ",", "C", ">", "+", "D">>, Nm("V") \o Bd(<<"A", "<", "B", ",", "C", ">", "+", "D">>)),
   P("const_param", "N", <<"usize">>, <<[t |-> "const", l |-> <<"prefix">>]>> \o Nm("N") \o Bd(<<"usize">>)),
   P("bounded_lifetime", "c", <<"'", "a", "+", "'", "b">>, Life("c") \o Bd(<<"'", "a", "+", "'", "b">>)),
   P("bounded_ty", "W", <<"Fn", "(", "A", ",", "B", ")", "-", ">", "C">>, Nm("W") \o Bd(<<"Fn", "(", "A", ",", "B", ")", "-", ">", "C">>)),
   P("const_param", "M", <<"[", "u8", ";", "1", "]">>, <<[t |-> "const", l |-> <<"prefix">>]>> \o Nm("M") \o Bd(<<"[", "u8", ";", "1", "]">>)) >>

W(left, bound) == [op |-> "pred", kind |-> "", name |-> "", ts |-> left \o <<":">> \o bound, pc |-> Piece(left, <<"left">>) \o Bd(bound)]
NewPreds == <<
   W(<<"T">>, <<"Clone">>),
   W(<<"T", ":^", ":", "Item">>, <<"A", "<", "B", ",", "C", ">", "+", "D">>),
   W(<<"for", "<", "'", "a">> \o <<">", "F">>, <<"Fn", "(", "&", "'", "a", "A", ")", "-", ">", "B">>),
   W(<<"'", "a">>, <<"'", "b">>),
   W(<<"Vec", "<", "T", ",", "U", ">">>, <<>>),
   W(<<"<", "T", "as", "Tr", ">", ":^", ":", "X">>, <<"a", ":^", ":", "B">>) >>

(* With all the fragments of the pools. *)
LOCAL AllBounds == Bounds \o RareBounds
LOCAL AllLefts == Lefts \o RareLefts
LOCAL AllConstTys == ConstTys \o RareConstTys
RichEdits ==
  {P("bounded_ty", "V", AllBounds[i], Nm("V") \o Bd(AllBounds[i])) : i \in 1..Len(AllBounds)}
  \cup {P("bounded_lifetime", "c", AllBounds[i], Life("c") \o Bd(AllBounds[i])) : i \in {i \in 1..Len(AllBounds) : AllBounds[i] = <<>> \/ AllBounds[i][1] = "'"}}
  \cup {P("const_param", "N", AllConstTys[i], <<[t |-> "const", l |-> <<"prefix">>]>> \o Nm("N") \o Bd(AllConstTys[i])) : i \in 1..Len(AllConstTys)}
  \cup {W(AllLefts[i], AllBounds[j]) : i \in 1..Len(AllLefts), j \in 1..Len(AllBounds)}
  \cup {P("lifetime", n, <<>>, Life(n)) : n \in {"static", "_", "a", "zz"}}
  \cup {P("ty", n, <<>>, Nm(n)) : n \in {"_", "T", "union", "a", "const_", "default"}}

Edits == IF Rich THEN RichEdits ELSE {NewParams[i] : i \in 1..Len(NewParams)} \cup {NewPreds[i] : i \in 1..Len(NewPreds)}

Apply(d, e) ==
  IF e.op = "param"
  THEN [d EXCEPT !.hasGen = TRUE,
                 !.params = IF e.kind \in {"lifetime", "bounded_lifetime"} THEN <<e.pc>> \o @ ELSE Append(@, e.pc)]
  ELSE [d EXCEPT !.hasWhere = TRUE, !.preds = Append(@, e.pc)]

--------------------------------------------------------------------------
(* Inline arguments: the names, lifetimes with their apostrophe. *)
Sort(pc) == IF pc[1].l # <<"prefix">> THEN "ty" ELSE IF pc[1].t = "'" THEN "lifetime" ELSE "const"
NameOf(pc) == LET i == CHOOSE i \in 1..Len(pc) : pc[i].l = <<"name">> IN pc[i].t
Arg(pc) == IF Sort(pc) = "lifetime" THEN <<"'", NameOf(pc)>> ELSE <<NameOf(pc)>>
Inline(d) == [i \in 1..Len(d.params) |-> Arg(d.params[i])]

RECURSIVE JoinArgs(_, _)
JoinArgs(args, i) == IF i > Len(args) THEN <<>> ELSE args[i] \o (IF i < Len(args) THEN <<",">> ELSE <<>>) \o JoinArgs(args, i + 1)

(* The derived where clause: the declared predicates, and one per type parameter. *)
Traits == << <<"Clone">>, <<"A", "+", "B">>, <<"?", "Sized">>, <<"a", ":^", ":", "B", "<", "C", ",", "D", ">">>, <<"Fn", "(", "A", ")", "-", ">", "B", "+", "Send">> >>
RECURSIVE TyParams(_, _)
TyParams(d, i) == IF i > Len(d.params) THEN <<>>
                  ELSE (IF Sort(d.params[i]) = "ty" THEN <<NameOf(d.params[i])>> ELSE <<>>) \o TyParams(d, i + 1)
Derived(d, tr) == LET tys == TyParams(d, 1) IN
  [i \in 1..Len(d.preds) |-> TokOf(d.preds[i])] \o [i \in 1..Len(tys) |-> <<tys[i], ":">> \o tr]

--------------------------------------------------------------------------
EInit == GenInit /\ doc = <<>> /\ edits = <<>>

LabsOf(wr) == [i \in 1..Len(wr) |-> wr[i].l]

Show(d, es, base) ==
  LET vs == Variants' IN
  PrintT(ToJson([base |-> base, edits |-> [i \in 1..Len(es) |-> [op |-> es[i].op, kind |-> es[i].kind, name |-> es[i].name, ts |-> es[i].ts]],
                 variants |-> {[t |-> TokOf(v), labs |-> LabsOf(v)] : v \in vs},
                 params |-> [i \in 1..Len(d.params) |-> TokOf(d.params[i])],
                 sorts |-> [i \in 1..Len(d.params) |-> Sort(d.params[i])],
                 preds |-> [i \in 1..Len(d.preds) |-> TokOf(d.preds[i])],
                 lefts |-> [i \in 1..Len(d.preds) |-> Cardinality({j \in 1..Len(d.preds[i]) : d.preds[i][j].l = <<"left">>})],
                 names |-> [i \in 1..Len(d.params) |-> NameOf(d.params[i])],
                 fields |-> TokOf(FieldsOf(d)), hasGen |-> d.hasGen,
                 inline |-> Inline(d),
                 derived |-> [k \in 1..(IF d.data THEN Len(Traits) ELSE 0) |-> [trait |-> Traits[k], preds |-> Derived(d, Traits[k])]]]))

Take == /\ out.r = "ok" /\ doc = <<>>
        /\ doc' = DocOf(toks, labs)
        /\ edits' = <<>>
        /\ UNCHANGED vars
        /\ Show(doc', edits', toks)

(* Without the printing of Parse. *)
Settle == /\ todo = <<>> /\ out.r = "gen" /\ ~Ambiguous
          /\ out' = Consume(Input(toks))
          /\ UNCHANGED <<todo, toks, labs, budget, doc, edits>>

Edit == /\ doc # <<>> /\ Len(edits) < MaxEdits
        /\ \E e \in (IF Random THEN {RandomElement(Edits)} ELSE Edits) :
             doc' = Apply(doc, e) /\ edits' = Append(edits, e)
        /\ UNCHANGED vars
        /\ Show(doc', edits', toks)

ENext == (Choose /\ UNCHANGED <<doc, edits>>) \/ Settle \/ Take \/ Edit

--------------------------------------------------------------------------
(* Taking apart and writing out is the identity. *)
Faithful == (doc # <<>> /\ edits = <<>>) =>
  Write(doc, doc.ptrail, doc.wtrail) = [i \in 1..Len(toks) |-> [t |-> toks[i], l |-> labs[i]]]

(* Every way of writing an edited document is a declaration that parses back to that document. *)
WellFormed == doc # <<>> => \A v \in Variants :
  LET r == Consume(Input(TokOf(v))) IN r.r = "ok" /\ r.p = Len(v) + 1 /\ r.labs = LabsOf(v)

(* Added lifetimes come first, other parameters last, predicates last; the rest stays. *)
LifeFirst == doc # <<>> => LET d0 == DocOf(toks, labs)
                               ls == SelectSeq(edits, LAMBDA e : e.kind \in {"lifetime", "bounded_lifetime"})
                               os == SelectSeq(edits, LAMBDA e : e.op = "param" /\ e.kind \notin {"lifetime", "bounded_lifetime"})
                               ps == SelectSeq(edits, LAMBDA e : e.op = "pred")
                           IN /\ doc.params = [i \in 1..Len(ls) |-> ls[Len(ls) + 1 - i].pc] \o d0.params \o [i \in 1..Len(os) |-> os[i].pc]
                              /\ doc.preds = d0.preds \o [i \in 1..Len(ps) |-> ps[i].pc]
                              /\ doc.pre = d0.pre /\ doc.mid = d0.mid /\ doc.tail = d0.tail /\ doc.semi = d0.semi

(* The inline arguments are an argument list with one argument per parameter. *)
ArgsWellFormed == (doc # <<>> /\ doc.hasGen) =>
  LET r == AsPath(Input(<<"X", "<">> \o JoinArgs(Inline(doc), 1) \o <<">">>)) IN
  r.r = "ok" /\ Count(r.labs, <<"1", "args">>) = Len(doc.params)
=============================================================================

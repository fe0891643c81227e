----------------------------- MODULE VenialView -----------------------------
(***************************************************************************)
(* What an observer sees of a parsed declaration: the report of one        *)
(* behaviour, the nodes of the tree with the tokens they cover, and the    *)
(* answers of the query methods, all read off the labelled tokens.         *)
(***************************************************************************)
EXTENDS VenialParser, FiniteSets

(* Consuming declarations one after the other.  Each one is parsed by the  *)
(* machine with its index as label prefix.                                 *)
StartAt(in, p, i) == [p |-> p, st |-> <<Sym("Item", <<Num(i)>>, Len(in.t) + 1, "top", 0)>>, r |-> "run", at |-> 0]

RECURSIVE StreamFrom(_, _, _, _, _)
StreamFrom(in, p, i, labs, items) ==
  IF p > Len(in.t) THEN [r |-> "ok", p |-> p, at |-> 0, labs |-> labs, items |-> items]
  ELSE LET res == Exec(in, StartAt(in, p, i), <<>>)
           its == Append(items, [r |-> res.r, from |-> p, p |-> res.p, at |-> res.at])
       IN CASE res.r = "ok" -> StreamFrom(in, res.p, i + 1, labs \o res.labs, its)
            \* the enum of a recoverable error is consumed; what follows is not touched
            [] res.r = "err" -> StreamFrom(in, res.p, i + 1, labs \o [j \in 1..(res.p - p) |-> <<Num(i), "error">>], its)
            [] OTHER -> [r |-> res.r, p |-> res.p, at |-> res.at, labs |-> labs, items |-> its]

ParseStream(in) == StreamFrom(in, 1, 1, <<>>, <<>>)

--------------------------------------------------------------------------
(* The nodes of the tree: every prefix of a label is a node; it covers its *)
(* tokens, without the comma that separates it from the next node.         *)

Prefix(l, n) == SubSeq(l, 1, n)
Under(l, pre) == Len(l) >= Len(pre) /\ Prefix(l, Len(pre)) = pre
OwnComma(l, pre) == Len(l) = Len(pre) + 1 /\ l[Len(l)] = "comma"

NodePaths(labs) == UNION {{Prefix(labs[i], n) : n \in 0..Len(labs[i])} : i \in 1..Len(labs)}

Covers(l, pre) == Under(l, pre) /\ ~OwnComma(l, pre)

FirstIn(labs, pre) == CHOOSE i \in 1..Len(labs) : Covers(labs[i], pre) /\ \A j \in 1..(i - 1) : ~Covers(labs[j], pre)
LastIn(labs, pre)  == LET n == Len(labs)
                          k == CHOOSE i \in 0..(n - 1) : Covers(labs[n - i], pre) /\ \A j \in 0..(i - 1) : ~Covers(labs[n - j], pre)
                      IN n - k

(* Every label prefix is a node, except for a label that is an own comma of its parent only. *)
Nodes(labs) == {[n |-> pre, a |-> FirstIn(labs, pre), b |-> LastIn(labs, pre)]
                : pre \in {q \in NodePaths(labs) : \E i \in 1..Len(labs) : Covers(labs[i], q)}}

--------------------------------------------------------------------------
(* Answers of the query methods: a set of [n |-> node, q |-> query,        *)
(* s |-> strings, p |-> lists of token positions].                         *)

Has(labs, pre) == \E i \in 1..Len(labs) : Under(labs[i], pre)

RECURSIVE PickFrom(_, _, _)
PickFrom(labs, P(_), i) ==
  IF i > Len(labs) THEN <<>> ELSE (IF P(labs[i]) THEN <<i>> ELSE <<>>) \o PickFrom(labs, P, i + 1)
Pick(labs, P(_)) == PickFrom(labs, P, 1)

Exactly(labs, l) == Pick(labs, LAMBDA x : x = l)
Range(labs, pre) == Pick(labs, LAMBDA x : Under(x, pre) /\ ~OwnComma(x, pre))

RECURSIVE CountFrom(_, _, _)
CountFrom(labs, pre, n) == IF Has(labs, Append(pre, Num(n + 1))) THEN CountFrom(labs, pre, n + 1) ELSE n
Count(labs, pre) == CountFrom(labs, pre, 0)

KindNames == {"Struct", "Enum", "Union", "Mod", "Trait", "Impl", "Const", "Type", "Fn", "Use", "Macro", "ExternBlock", "ExternCrate"}
HasLab(labs, l) == \E i \in 1..Len(labs) : labs[i] = l
KindOf(labs, n) == CHOOSE K \in KindNames : HasLab(labs, Append(n, K))
IsItemNode(labs, n) == \E K \in KindNames : HasLab(labs, Append(n, K))

(* Nodes that are returned as items: the declaration, and the members of modules. *)
RECURSIVE Items(_, _)
Items(labs, n) ==
  {n} \cup (IF KindOf(labs, n) = "Mod"
            THEN UNION {Items(labs, n \o <<"body", Num(i)>>) : i \in 1..Count(labs, Append(n, "body"))}
            ELSE {})

Yes(b) == IF b THEN <<"yes">> ELSE <<"no">>
Text(in, ps) == [i \in 1..Len(ps) |-> in.t[ps[i]]]

(* The name tokens of the parameters of a given sort. *)
ParamSort(in, labs, g) ==
  LET pre == Exactly(labs, Append(g, "prefix")) IN
  IF pre = <<>> THEN "ty" ELSE IF in.t[pre[1]] = "'" THEN "lifetime" ELSE "const"
RECURSIVE ParamsFrom(_, _, _, _, _)
ParamsFrom(in, labs, gen, sort, i) ==
  IF ~Has(labs, Append(gen, Num(i))) THEN <<>>
  ELSE (IF ParamSort(in, labs, Append(gen, Num(i))) = sort THEN Exactly(labs, gen \o <<Num(i), "name">>) ELSE <<>>)
       \o ParamsFrom(in, labs, gen, sort, i + 1)

(* Inline arguments: the names of all the parameters, lifetimes with their apostrophe. *)
RECURSIVE InlineFrom(_, _, _, _)
InlineFrom(in, labs, gen, i) ==
  LET g == Append(gen, Num(i)) IN
  IF ~Has(labs, g) THEN <<>>
  ELSE (IF ParamSort(in, labs, g) = "lifetime" THEN Exactly(labs, Append(g, "prefix")) ELSE <<>>) \o Exactly(labs, Append(g, "name"))
       \o InlineFrom(in, labs, gen, i + 1)

RECURSIVE ConcatFields(_, _, _, _)
ConcatFields(labs, pre, part, i) ==
  IF ~Has(labs, Append(pre, Num(i))) THEN <<>>
  ELSE <<Exactly(labs, pre \o <<Num(i), part>>)>> \o ConcatFields(labs, pre, part, i + 1)

RECURSIVE AttrsBack(_, _, _)
AttrsBack(labs, n, i) == IF i = 0 THEN <<>> ELSE Range(labs, n \o <<"attr", Num(i)>>) \o AttrsBack(labs, n, i - 1)

QS(n, q, v)  == [n |-> n, q |-> q, s |-> v, p |-> <<>>]
QPP(n, q, v) == [n |-> n, q |-> q, s |-> <<>>, p |-> v]
QP(n, q, v)  == QPP(n, q, <<v>>)

ItemQueries(in, labs, n) ==
  LET kind == KindOf(labs, n)
      name == CASE kind = "Macro" -> Exactly(labs, Append(n, "Macro"))
                [] kind \in {"Impl", "Use", "ExternBlock"} -> <<>>
                [] OTHER -> Exactly(labs, Append(n, "name"))
      all == Range(labs, n)
  IN { QS(n, "kind", <<kind>>), QP(n, "name", name),
       QPP(n, "attributes", [i \in 1..Count(labs, Append(n, "attr")) |-> Range(labs, n \o <<"attr", Num(i)>>)]),
       QP(n, "generic_params", Range(labs, Append(n, "gen"))),
       \* edits through the mutable accessors, as seen in what is printed
       QP(n, "attributes_mut.clear", Pick(labs, LAMBDA x : Under(x, n) /\ ~OwnComma(x, n) /\ ~Under(x, Append(n, "attr")))),
       QP(n, "attributes_mut.reverse", AttrsBack(labs, n, Count(labs, Append(n, "attr")))
            \o Pick(labs, LAMBDA x : Under(x, n) /\ ~OwnComma(x, n) /\ ~Under(x, Append(n, "attr")))),
       QP(n, "generic_params_mut.clear",
            Pick(labs, LAMBDA x : /\ Under(x, n) /\ ~OwnComma(x, n)
                                  /\ (Under(x, Append(n, "gen")) => x \in {n \o <<"gen", "lt">>, n \o <<"gen", "gt">>}))) }

DataQueries(in, labs, n) ==
  { QP(n, "get_" \o sort \o "_params", ParamsFrom(in, labs, Append(n, "gen"), sort, 1)) : sort \in {"lifetime", "ty", "const"} }
  \cup { QP(n, "derive.params", ParamsFrom(in, labs, Append(n, "gen"), "ty", 1)),
         QPP(n, "derive.declared", [i \in 1..Count(labs, Append(n, "where")) |-> Range(labs, n \o <<"where", Num(i)>>)]) }

InlineQueries(in, labs, n) ==
  LET inline == InlineFrom(in, labs, Append(n, "gen"), 1) IN { QP(n, "inline.tokens", inline), QP(n, "inline.owned", inline) }

StructQueries(in, labs, n) ==
  LET tup == Has(labs, Append(n, "tuple"))
      pre == Append(n, IF tup THEN "tuple" ELSE "named")
      k   == Count(labs, pre)
      nm  == IF tup THEN [i \in 1..k |-> Num(i - 1)] ELSE [i \in 1..k |-> Text(in, Exactly(labs, pre \o <<Num(i), "name">>))[1]]
  IN { QS(n, "field_names", nm), QS(n, "field_tokens", nm), QPP(n, "field_types", ConcatFields(labs, pre, "ty", 1)) }

VariantQueries(labs, v) ==
  LET tup == Append(v, "tuple")
      unit == ~Has(labs, tup) /\ ~Has(labs, Append(v, "named"))
  IN { QS(v, "is_empty_variant", Yes(unit)),
       QP(v, "get_single_type", IF Count(labs, tup) = 1 THEN Range(labs, Append(tup, "1")) ELSE <<>>) }

EnumQueries(labs, n) ==
  LET k == Count(labs, Append(n, "body"))
      v(i) == n \o <<"body", Num(i)>>
  IN { QS(n, "is_c_enum", Yes(\A i \in 1..k : ~Has(labs, Append(v(i), "tuple")) /\ ~Has(labs, Append(v(i), "named")))) }
     \cup UNION {VariantQueries(labs, v(i)) : i \in 1..k}

AttrQueries(in, labs, n) ==
  LET path == Exactly(labs, Append(n, "path"))
      ids  == SelectSeq(path, LAMBDA i : IsIdent(in.t[i]))
  IN { QP(n, "get_single_path_segment", IF Len(ids) = 1 THEN ids ELSE <<>>),
       QP(n, "get_value_tokens", Exactly(labs, n \o <<"val", "tok">>)) }

Obs(in, labs) ==
  LET np == NodePaths(labs)
      items == Items(labs, <<>>)
  IN UNION {ItemQueries(in, labs, n) : n \in items}
     \cup UNION {DataQueries(in, labs, n) : n \in {m \in items : KindOf(labs, m) \in {"Struct", "Enum", "Union"}}}
     \cup UNION {InlineQueries(in, labs, n) : n \in {m \in np \cup {<<>>} : HasLab(labs, m \o <<"gen", "lt">>)}}
     \cup UNION {StructQueries(in, labs, n) : n \in {m \in items : KindOf(labs, m) = "Struct"}}
     \cup UNION {EnumQueries(labs, n) : n \in {m \in items : KindOf(labs, m) = "Enum"}}
     \cup UNION {AttrQueries(in, labs, n) : n \in {m \in np : HasLab(labs, Append(m, "hash"))}}
     \cup {QS(n, "is_static", Yes(in.t[Exactly(labs, Append(n, "Const"))[1]] = "static")) : n \in {m \in np : HasLab(labs, Append(m, "Const"))}}
     \cup UNION {{QS(n, "is_" \o sort, Yes(ParamSort(in, labs, n) = sort)) : sort \in {"lifetime", "ty", "const"}}
                 : n \in {m \in np : Len(m) >= 2 /\ m[Len(m) - 1] = "gen" /\ m[Len(m)] \notin {"lt", "gt"}}}

--------------------------------------------------------------------------
Report(in, res, want, e) ==
  [t |-> in.t, e |-> e, res |-> res,
   nodes |-> IF "nodes" \in want /\ res.r = "ok" THEN Nodes(res.labs) ELSE {},
   obs |-> IF "obs" \in want /\ res.r = "ok" THEN Obs(in, res.labs) ELSE {}]
=============================================================================

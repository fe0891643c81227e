--------------------------- MODULE VenialGrammar ---------------------------
(***************************************************************************)
(* The declarations a user writes, and the tree that is meant by each.     *)
(*                                                                         *)
(* A labelled grammar: expanding a nonterminal yields tokens together with *)
(* the label path of the node part each token belongs to.  This is the     *)
(* intended decomposition, stated without any reference to lookahead; the  *)
(* parser machine (VenialParser) has to recover the labels from the tokens *)
(* alone.                                                                  *)
(*                                                                         *)
(* Alts(x) lists the alternatives of nonterminal x; the first one is the   *)
(* smallest.  Elements of an alternative:                                  *)
(*   T(t, l)          one token                                            *)
(*   R(ts, l)         a run of tokens with one label                       *)
(*   N(s, l, i, k, d) a nonterminal: name, label path, list index,         *)
(*                    context, nesting depth                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, VenialPools, TLC

CONSTANTS MaxList,     \* bound on the length of lists
          MaxDepth,    \* bound on the nesting of blocks and of type constructors
          MaxAttrs     \* bound on the number of attributes in one place

T(t, l)  == [g |-> "T", t |-> t, l |-> l]
R(ts, l) == [g |-> "R", ts |-> ts, l |-> l]
N(s, l, i, k, d) == [g |-> "N", s |-> s, l |-> l, i |-> i, k |-> k, d |-> d]

LOCAL Sb(l, x) == Append(l, x)
LOCAL Sb2(l, x, y) == l \o <<x, y>>
LOCAL Nu(i) == ToString(i)

(* A choice among token sequences, all with label l. *)
FromPool(pool, l) == [j \in 1..Len(pool) |-> <<R(pool[j], l)>>]
(* The same, with a second pool behind one more choice. *)
OrRare(pool, rare, l) == FromPool(pool, l) \o << <<N(rare, l, 1, "", 0)>> >>

(* A list with separators: nothing, a last element without comma, or an element, a comma and more. *)
ListAlts(x, el) ==
  << <<>>, <<el>> >>
  \o (IF x.i < MaxList THEN <<<<el, T(",", Sb(el.l, "comma")), [x EXCEPT !.i = x.i + 1]>>>>
      ELSE <<<<el, T(",", Sb(el.l, "comma"))>>>>)

MacroNames == <<"foo", "macro_rules", "r#union", "x", "m", "thread_local", "r#fn", "auto", "safe", "r#struct", "_m">>

(* How deep the deep fragments are. *)
DeepSizes == <<1, 2, 3, 4, 7, 9, 16, 17, 33, 65, 130, 260>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

TopKinds == <<"D_Struct", "D_Enum", "D_Union", "D_Mod", "D_Trait", "D_Impl", "D_Type", "D_Fn", "D_Const", "D_Static",
              "D_Use", "D_Macro", "D_ExternBlock", "D_ExternCrate">>
FlatKinds == <<"D_Struct", "D_Enum", "D_Union", "D_Type", "D_Fn", "D_Const", "D_Static", "D_Use", "D_Macro", "D_ExternCrate">>
ImplKinds == <<"D_Fn", "D_Const", "D_Type", "D_Macro">>
ExtKinds  == <<"D_Fn", "D_Static", "D_Type", "D_Macro", "D_Const">>

\* (an inherent impl is left out: `impl ! { }` is a macro call where impls cannot stand)
NoMember  == <<"D_Struct", "D_Enum", "D_Union", "D_Mod", "D_Trait", "D_ImplFor", "D_Use", "D_ExternBlock", "D_ExternCrate">>

Kinds(k, d) == CASE k = "impl" -> ImplKinds
                 [] k = "ext" -> ExtKinds
                 [] OTHER -> IF d < MaxDepth THEN TopKinds ELSE FlatKinds

Alts(x) ==
  LET l == x.l  d == x.d
      n(s) == N(s, l, 1, x.k, d)                         \* a part of the same node
      kw(t, lab) == T(t, Sb(l, lab))
      opt(s, alt) == << <<>>, alt >>
      elem == N("", Sb(l, Nu(x.i)), 1, x.k, d)           \* the list element with this index
  IN
  CASE x.s = "Item" -> LET ks == Kinds(x.k, d) IN [j \in 1..Len(ks) |-> <<n(ks[j])>>]

    \* a sequence of declarations, as consumed one by one
    [] x.s = "Stream" -> << <<[elem EXCEPT !.s = "Item"]>>,
                            <<[elem EXCEPT !.s = "Item"], [x EXCEPT !.i = x.i + 1, !.s = IF x.i + 1 >= MaxList THEN "StreamEnd" ELSE "Stream"]>> >>
    [] x.s = "StreamEnd" -> << <<[elem EXCEPT !.s = "Item"]>>, <<>> >>

    \* the same, with at least one enum that is reported as an error
    [] x.s = "BadStream" -> LET bad == [elem EXCEPT !.s = "BadEnum"]  more == [x EXCEPT !.i = x.i + 1]  last == x.i + 1 >= MaxList IN
                            << <<bad, [more EXCEPT !.s = "StreamEnd"]>> >>
                            \o (IF last THEN <<>> ELSE << <<bad, [more EXCEPT !.s = "Stream"]>>, <<[elem EXCEPT !.s = "Item"], more>>, <<bad, more>> >>)

    \* one long or deep fragment
    [] x.s = "Deep" ->
         LET ty(f, D, lab) == N(f, Sb(l, lab), D, "", 0)
             fld(i, f, D) == N(f, l \o <<"tuple", Nu(i), "ty">>, D, "", 0)
             places(f, D) ==
             << <<kw("struct", "Struct"), kw("S", "name"), T("(", Sb(l, "tuple")), fld(1, f, D), T(",", l \o <<"tuple", "1", "comma">>), fld(2, f, D),
                  T(")", Sb(l, "tuple")), kw(";", "semi")>>,
                <<kw("type", "Type"), kw("T", "name"), kw("=", "eq"), ty(f, D, "ty"), kw(";", "semi")>>,
                <<kw("const", "Const"), kw("C", "name"), kw(":", "colon"), ty(f, D, "ty"), kw("=", "eq"), ty(f, D, "init"), kw(";", "semi")>>,
                <<kw("fn", "Fn"), kw("f", "name"), T("<", l \o <<"gen", "lt">>), T("T", l \o <<"gen", "1", "name">>),
                  T(":", l \o <<"gen", "1", "bound", "colon">>), N(f, l \o <<"gen", "1", "bound", "tok">>, D, "", 0), T(">", l \o <<"gen", "gt">>),
                  T("(", Sb(l, "params")), T("x", l \o <<"params", "1", "name">>), T(":", l \o <<"params", "1", "colon">>),
                  N(f, l \o <<"params", "1", "ty">>, D, "", 0), T(")", Sb(l, "params")), R(<<"-", ">">>, Sb(l, "arrow")), ty(f, D, "ret"),
                  T("where", l \o <<"where", "kw">>), N(f, l \o <<"where", "1", "left">>, D, "", 0), T(":", l \o <<"where", "1", "bound", "colon">>),
                  N(f, l \o <<"where", "1", "bound", "tok">>, D, "", 0), T("{", Sb(l, "block")), N(f, Sb(l, "block"), D, "", 0), T("}", Sb(l, "block"))>>,
                <<kw("impl", "Impl"), ty(f, D, "trait"), kw("for", "for"), ty(f, D, "self"), T("{", Sb(l, "body")), T("}", Sb(l, "body"))>>,
                <<kw("use", "Use"), ty(f, D, "tree"), kw(";", "semi")>>,
                <<T("#", l \o <<"attr", "1", "hash">>), T("[", l \o <<"attr", "1", "brackets">>), T("a", l \o <<"attr", "1", "path">>),
                  T("(", l \o <<"attr", "1", "val", "group">>), N(f, l \o <<"attr", "1", "val", "tok">>, D, "", 0), T(")", l \o <<"attr", "1", "val", "group">>),
                  T("]", l \o <<"attr", "1", "brackets">>), kw("m", "Macro"), kw("!", "bang"), kw("{", "delim"), ty(f, D, "tok"), kw("}", "delim")>> >>
             all(D) == places("DeepA", D) \o places("DeepB", D) \o places("DeepC", D) \o places("DeepD", D) \o places("DeepE", D)
                       \o << <<N("DeepMod", l, D, x.k, 0)>> >>
             sizes == SelectSeq(DeepSizes, LAMBDA D : D <= MaxDepth)
         IN Flat([j \in 1..Len(sizes) |-> all(sizes[j])])
    \* very deep ones, in few places
    [] x.s = "Abyss" ->
         LET fld(i, f) == N(f, l \o <<"tuple", Nu(i), "ty">>, MaxDepth, "", 0)
             fs == <<"DeepA", "DeepB", "DeepC", "DeepE">>
             one(f) == << <<kw("struct", "Struct"), kw("S", "name"), T("(", Sb(l, "tuple")), fld(1, f), T(",", l \o <<"tuple", "1", "comma">>), fld(2, "DeepEnd2"),
                            T(")", Sb(l, "tuple")), kw(";", "semi")>>,
                          <<kw("struct", "Struct"), kw("S", "name"), T("<", l \o <<"gen", "lt">>), T("T", l \o <<"gen", "1", "name">>),
                            T(":", l \o <<"gen", "1", "bound", "colon">>), N(f, l \o <<"gen", "1", "bound", "tok">>, MaxDepth, "", 0), T(",", l \o <<"gen", "1", "comma">>),
                            T("U", l \o <<"gen", "2", "name">>), T(">", l \o <<"gen", "gt">>), kw(";", "semi")>> >>
         IN Flat([j \in 1..Len(fs) |-> one(fs[j])])
    \* very long lists, MaxList elements each
    [] x.s = "Huge" ->
         LET n2 == MaxList
             flat(f(_)) == Flat([i \in 1..n2 |-> f(i)])
             com(p, i) == T(",", p \o <<Nu(i), "comma">>)
             head == <<kw("struct", "Struct"), kw("S", "name")>>
             tup(i) == LET p == l \o <<"tuple">> IN <<T("A", p \o <<Nu(i), "ty">>), com(p, i)>>
             nam(i) == LET p == l \o <<"named">> IN <<T("a", p \o <<Nu(i), "name">>), T(":", p \o <<Nu(i), "colon">>), T("A", p \o <<Nu(i), "ty">>), com(p, i)>>
             var(i) == LET p == l \o <<"body">> IN <<T("A", p \o <<Nu(i), "name">>), com(p, i)>>
             gpm(i) == LET p == l \o <<"gen">> IN <<T("A", p \o <<Nu(i), "name">>), com(p, i)>>
             whr(i) == LET p == l \o <<"where">> IN <<T("A", p \o <<Nu(i), "left">>), T(":", p \o <<Nu(i), "bound", "colon">>), T("B", p \o <<Nu(i), "bound", "tok">>), com(p, i)>>
             par(i) == LET p == l \o <<"params">> IN <<T("a", p \o <<Nu(i), "name">>), T(":", p \o <<Nu(i), "colon">>), T("A", p \o <<Nu(i), "ty">>), com(p, i)>>
             att(i) == LET p == l \o <<"attr", Nu(i)>> IN <<T("#", Sb(p, "hash")), T("[", Sb(p, "brackets")), T("a", Sb(p, "path")), T("]", Sb(p, "brackets"))>>
             inn(i) == LET p == l \o <<"inner", Nu(i)>> IN <<T("#", Sb(p, "hash")), T("!", Sb(p, "bang")), T("[", Sb(p, "brackets")), T("a", Sb(p, "path")), T("]", Sb(p, "brackets"))>>
             mem(i) == LET p == l \o <<"body", Nu(i)>> IN <<T("fn", Sb(p, "Fn")), T("f", Sb(p, "name")), T("(", Sb(p, "params")), T(")", Sb(p, "params")), T(";", Sb(p, "semi"))>>
             opq(lab) == LET f(i) == <<R(<<"A", "<", "-", "1", ",", "B", ">", "+">>, Sb(l, lab))>> IN flat(f)
         IN << head \o <<T("(", Sb(l, "tuple"))>> \o flat(tup) \o <<T(")", Sb(l, "tuple")), kw(";", "semi")>>,
               head \o <<T("{", Sb(l, "named"))>> \o flat(nam) \o <<T("}", Sb(l, "named"))>>,
               <<kw("enum", "Enum"), kw("E", "name"), T("{", Sb(l, "body"))>> \o flat(var) \o <<T("}", Sb(l, "body"))>>,
               head \o <<T("<", l \o <<"gen", "lt">>)>> \o flat(gpm) \o <<T(">", l \o <<"gen", "gt">>), kw(";", "semi")>>,
               head \o <<T("where", l \o <<"where", "kw">>)>> \o flat(whr) \o <<kw(";", "semi")>>,
               <<kw("fn", "Fn"), kw("f", "name"), T("(", Sb(l, "params"))>> \o flat(par) \o <<T(")", Sb(l, "params")), kw(";", "semi")>>,
               flat(att) \o <<kw("use", "Use"), T("a", Sb(l, "tree")), kw(";", "semi")>>,
               <<kw("mod", "Mod"), kw("m", "name"), T("{", Sb(l, "body"))>> \o flat(inn) \o <<T("}", Sb(l, "body"))>>,
               <<kw("extern", "ExternBlock"), T("{", Sb(l, "body"))>> \o flat(mem) \o <<T("}", Sb(l, "body"))>>,
               <<kw("type", "Type"), kw("T", "name"), kw("=", "eq")>> \o opq("ty") \o <<kw(";", "semi")>>,
               <<kw("const", "Const"), kw("C", "name"), kw(":", "colon"), T("A", Sb(l, "ty")), kw("=", "eq")>> \o opq("init") \o <<kw(";", "semi")>>,
               <<kw("m", "Macro"), kw("!", "bang"), kw("{", "delim")>> \o opq("tok") \o <<kw("}", "delim")>> >>
    \* a tuple struct of MaxList fields
    [] x.s = "Row" -> LET p == l \o <<"tuple">>
                          f(i) == <<T("A", p \o <<Nu(i), "ty">>), T(",", p \o <<Nu(i), "comma">>)>> IN
                      << <<kw("struct", "Struct"), kw("S", "name"), T("(", p)>> \o Flat([i \in 1..MaxList |-> f(i)]) \o <<T(")", p), kw(";", "semi")>> >>
    [] x.s = "DeepEnd2" -> << <<T("T", l)>> >>
    [] x.s = "DeepMod" -> IF d >= x.i THEN << <<kw("mod", "Mod"), kw("m", "name"), kw(";", "semi")>> >>
                          ELSE << <<kw("mod", "Mod"), kw("m", "name"), T("{", Sb(l, "body")), N("DeepMod", l \o <<"body", "1">>, x.i, x.k, d + 1),
                                    N("DeepEnd", l \o <<"body", "2">>, 1, x.k, d + 1), T("}", Sb(l, "body"))>> >>
    [] x.s = "DeepEnd" -> << <<kw("struct", "Struct"), kw("S", "name"), kw(";", "semi")>> >>
    [] x.s = "DeepA" -> LET t == N("DeepA", l, x.i, "", d + 1) IN IF d >= x.i THEN << <<T("T", l)>> >> ELSE << <<T("A", l), T("<", l), t, T(",", l), T("B", l), T(">", l)>> >>
    [] x.s = "DeepB" -> LET t == N("DeepB", l, x.i, "", d + 1) IN IF d >= x.i THEN << <<T("T", l)>> >> ELSE << <<R(<<"fn", "(", "A", ",", "B", ")", "-", ">">>, l), t>> >>
    [] x.s = "DeepC" -> LET t == N("DeepC", l, x.i, "", d + 1) IN IF d >= x.i THEN << <<T("T", l)>> >> ELSE << <<T("(", l), t, R(<<",", "A", "<", "B", ">", ";", ")">>, l)>> >>
    [] x.s = "DeepD" -> LET t == N("DeepD", l, x.i, "", d + 1) IN IF d >= x.i THEN << <<T("T", l)>> >> ELSE << <<T("A", l), T("<", l), T(">", l), T("+", l), t>> >>
    [] x.s = "DeepE" -> LET t == N("DeepE", l, x.i, "", d + 1) IN IF d >= x.i THEN << <<T("T", l)>> >> ELSE << <<R(<<"A", "<", "-", "1", ",", "fn", "(", ")", "-", ">">>, l), t, T(">", l)>> >>

    \* ---- declarations
    [] x.s = "D_Struct" -> << <<n("Attrs"), n("Vis"), kw("struct", "Struct"), n("Name"), n("Gen"), n("StructTail")>> >>
    [] x.s = "D_Enum"   -> << <<n("Attrs"), n("Vis"), kw("enum", "Enum"), n("Name"), n("Gen"), n("Where"), n("EnumBody")>> >>
    [] x.s = "D_Union"  -> << <<n("Attrs"), n("Vis"), kw("union", "Union"), n("Name"), n("Gen"), n("Where"), n("Named")>> >>
    [] x.s = "D_Mod"    -> << <<n("Attrs"), n("Vis"), n("Unsafe"), kw("mod", "Mod"), n("Name"), n("ModTail")>> >>
    [] x.s = "D_Trait"  -> << <<n("Attrs"), n("Vis"), n("Unsafe"), kw("trait", "Trait"), n("Name"), n("Gen"), n("OptBound"), n("Where"),
                               N("Block", l, 1, "impl", d)>> >>
    [] x.s = "D_Impl"   -> << <<n("Attrs"), n("Unsafe"), kw("impl", "Impl"), n("Gen"), n("ImplHead"), n("Where"), N("Block", l, 1, "impl", d)>> >>
    [] x.s = "D_ImplFor" -> << <<n("Attrs"), n("Unsafe"), kw("impl", "Impl"), n("Gen"), N("ImplTrait", Sb(l, "trait"), 1, "", 0), kw("for", "for"),
                                 N("SelfTy", Sb(l, "self"), 1, "", 0), n("Where"), N("Block", l, 1, "impl", d)>> >>
    [] x.s = "D_Type"   -> << <<n("Attrs"), n("Vis"), kw("type", "Type"), n("Name"), n("OptBound"), n("OptEqTy"), kw(";", "semi")>> >>
    [] x.s = "D_Fn"     -> << <<n("Attrs"), n("Vis"), n("QDefault"), n("QConst"), n("QAsync"), n("QUnsafe"), n("QExtern"), kw("fn", "Fn"),
                               n("Name"), n("Gen"), n("Params"), n("Ret"), n("Where"), n("FnEnd")>> >>
    [] x.s = "D_Const"  -> << <<n("Attrs"), n("Vis"), kw("const", "Const"), n("Name"), kw(":", "colon"),
                               N("Ty", Sb(l, "ty"), 1, "", 0), n("OptInit"), kw(";", "semi")>> >>
    [] x.s = "D_Static" -> << <<n("Attrs"), n("Vis"), kw("static", "Const"), n("OptMut"), n("Name"), kw(":", "colon"),
                               N("Ty", Sb(l, "ty"), 1, "", 0), n("OptInit"), kw(";", "semi")>> >>
    [] x.s = "D_Use"    -> << <<n("Attrs"), n("Vis"), kw("use", "Use"), N("Tree", Sb(l, "tree"), 1, "", 0), kw(";", "semi")>> >>
    [] x.s = "D_Macro"  -> << <<n("Attrs"), n("MacroName"), kw("!", "bang"), n("MacroDecl"), n("MacroBody")>> >>
    [] x.s = "D_ExternBlock" -> << <<n("Attrs"), n("Vis"), n("Unsafe"), kw("extern", "ExternBlock"), n("Abi"), N("Block", l, 1, "ext", d)>> >>
    [] x.s = "D_ExternCrate" -> << <<n("Attrs"), n("Vis"), kw("extern", "ExternCrate"), kw("crate", "crate"), n("CrateName"), n("OptAs"), kw(";", "semi")>> >>

    \* an enum with a discriminant that is not a single token tree, somewhere among its variants
    [] x.s = "BadEnum"  -> << <<n("Attrs"), n("Vis"), kw("enum", "Enum"), n("Name"), n("Gen"), n("Where"),
                               T("{", Sb(l, "body")), N("BadVariants", Sb(l, "body"), 1, "", d), T("}", Sb(l, "body"))>> >>
    [] x.s = "BadVariants" ->
         LET v == [elem EXCEPT !.s = "Variant"]  bad == [elem EXCEPT !.s = "BadVariant"] IN
         << <<bad>>, <<bad, T(",", Sb(elem.l, "comma")), N("Variants", l, x.i + 1, "", d)>> >>
         \o (IF x.i < MaxList THEN <<<<v, T(",", Sb(elem.l, "comma")), [x EXCEPT !.i = x.i + 1]>>,
                                       <<bad, T(",", Sb(elem.l, "comma")), [x EXCEPT !.i = x.i + 1]>>>> ELSE <<>>)
    [] x.s = "BadVariant" -> << <<n("Attrs"), n("Vis"), n("Name"), n("VFields"), T("=", Sb2(l, "val", "eq")), N("BadValue", Sb2(l, "val", "badvalue"), 1, "", 0)>> >>
    [] x.s = "BadValue" -> OrRare(BadValues, "RareBadValue", l)

    \* a block with a member that cannot be one, somewhere among its members
    [] x.s = "BadBlock" -> << <<kw("impl", "Impl"), n("ImplHead"), N("BadBody", l, 1, "impl", d)>>,
                              <<kw("trait", "Trait"), n("Name"), N("BadBody", l, 1, "impl", d)>>,
                              <<n("Unsafe"), kw("extern", "ExternBlock"), n("Abi"), N("BadBody", l, 1, "ext", d)>>,
                              <<kw("mod", "Mod"), n("Name"), T("{", Sb(l, "body")), N("BadBlock", l \o <<"body", "1">>, 1, "", d), T("}", Sb(l, "body"))>> >>
    [] x.s = "BadBody" -> << <<T("{", Sb(l, "body")), N("Inner", l, 1, "", d), N("BadMembers", Sb(l, "body"), 1, x.k, d + 1), T("}", Sb(l, "body"))>> >>
    [] x.s = "BadMembers" -> << <<[elem EXCEPT !.s = "BadMember"], [x EXCEPT !.i = x.i + 1, !.s = "Members"]>> >>
         \o (IF x.i < MaxList THEN << <<[elem EXCEPT !.s = "Item"], [x EXCEPT !.i = x.i + 1]>> >> ELSE <<>>)
    [] x.s = "BadMember" -> LET ks == IF x.k = "impl" THEN Append(NoMember, "D_Static") ELSE NoMember IN
                            [j \in 1..Len(ks) |-> <<N(ks[j], Sb(l, "badmember"), 1, "mod", d)>>]

    \* ---- attributes and visibility
    [] x.s = "Attrs" -> << <<>> >> \o (IF x.i <= MaxAttrs THEN << <<N("Attr", l \o <<"attr", Nu(x.i)>>, 1, "", d), [x EXCEPT !.i = x.i + 1]>> >> ELSE <<>>)
    [] x.s = "Inner" -> << <<>> >> \o (IF x.i <= MaxAttrs THEN << <<N("InAttr", l \o <<"inner", Nu(x.i)>>, 1, "", d), [x EXCEPT !.i = x.i + 1]>> >> ELSE <<>>)
    [] x.s = "Attr"   -> << <<kw("#", "hash"), kw("[", "brackets"), n("AttrPath"), n("AttrVal"), kw("]", "brackets")>> >>
    [] x.s = "InAttr" -> << <<kw("#", "hash"), kw("!", "bang"), kw("[", "brackets"), n("AttrPath"), n("AttrVal"), kw("]", "brackets")>> >>
    [] x.s = "AttrPath" -> OrRare(AttrPaths, "RareAttrPath", Sb(l, "path"))
    [] x.s = "AttrVal" -> << <<>>,
                             <<T("(", Sb2(l, "val", "group")), N("Junk", Sb2(l, "val", "tok"), 1, "", 0), T(")", Sb2(l, "val", "group"))>>,
                             <<T("=", Sb2(l, "val", "eq")), N("Junk", Sb2(l, "val", "tok"), 1, "", 0)>>,
                             <<T("[", Sb2(l, "val", "group")), N("Junk", Sb2(l, "val", "tok"), 1, "", 0), T("]", Sb2(l, "val", "group"))>>,
                             <<T("{", Sb2(l, "val", "group")), N("Junk", Sb2(l, "val", "tok"), 1, "", 0), T("}", Sb2(l, "val", "group"))>>,
                             <<T("=", Sb2(l, "val", "eq")), N("Init", Sb2(l, "val", "tok"), 1, "", 0)>>,
                             <<T("/(", Sb2(l, "val", "group")), N("Junk", Sb2(l, "val", "tok"), 1, "", 0), T("/)", Sb2(l, "val", "group"))>> >>
    [] x.s = "Vis" -> << <<>>, <<T("pub", Sb2(l, "vis", "tok"))>>, <<T("pub", Sb2(l, "vis", "tok")), N("VisR", Sb2(l, "vis", "restr"), 1, "", 0)>>, <<T("crate", Sb2(l, "vis", "tok"))>> >>
    [] x.s = "VisR" -> OrRare(Visr, "RareVisr", l)

    \* ---- names and opaque parts
    [] x.s = "Name" -> OrRare(Names, "RareName", Sb(l, "name"))
    [] x.s = "MacroName" -> [j \in 1..Len(MacroNames) |-> <<kw(MacroNames[j], "Macro")>>]
    [] x.s = "CrateName" -> << <<kw("std", "name")>>, <<kw("self", "name")>>, <<kw("r#as", "name")>>, <<kw("union", "name")>>, <<kw("b", "name")>>, <<kw("crate", "name")>> >>
    [] x.s = "Ty" -> OrRare(Types, "RareTy", l) \o
         (IF d < MaxDepth THEN LET t == N("Ty", l, 1, "", d + 1) IN
            << <<T("A", l), T("<", l), t, T(",", l), t, T(">", l)>>,
               <<T("fn", l), T("(", l), t, T(",", l), t, T(")", l), T("-", l), T(">", l), t>>,
               <<T("&", l), T("'", l), T("a", l), t>>,
               <<T("(", l), t, T(",", l), T(")", l)>>,
               <<T("[", l), t, T(";", l), T("{", l), N("Init", l, 1, "", 0), T("}", l), T("]", l)>>,
               <<T("Fn", l), T("(", l), T(")", l), T("-", l), T(">", l), t, T("+", l), T("Send", l)>>,
               <<T("/(", l), t, T("/)", l)>>,
               <<T("<", l), t, T("as", l), T("Tr", l), T("<", l), t, T(">", l), T(">", l), T(":^", l), T(":", l), T("X", l)>> >>
          ELSE <<>>)
    [] x.s = "Bound" -> OrRare(Bounds, "RareBound", l) \o
         (IF d < MaxDepth THEN LET t == N("Ty", l, 1, "", d + 1) IN
            << <<T("Tr", l), T("<", l), t, T(",", l), T("Item", l), T("=", l), t, T(">", l), T("+", l), N("Bound", l, 1, "", d + 1)>>,
               <<T("Fn", l), T("(", l), t, T(")", l), T("-", l), T(">", l), t>>,
               <<T("A", l), T("<", l), t, T(">", l)>> >>
          ELSE <<>>)
    [] x.s = "RetTy" -> OrRare(RetTys, "RareRetTy", l) \o (IF d < MaxDepth THEN << <<N("Ty", l, 1, "", d + 1)>> >> ELSE <<>>)
    [] x.s = "Left"  -> OrRare(Lefts, "RareLeft", l) \o
         (IF d < MaxDepth THEN << <<T("A", l), T("<", l), N("Ty", l, 1, "", d + 1), T(">", l), T(":^", l), T(":", l), T("B", l)>> >> ELSE <<>>)
    [] x.s = "Init"  -> OrRare(Inits, "RareInit", l)
    [] x.s = "Tree"  -> OrRare(Trees, "RareTree", l)
    [] x.s = "Junk"  -> OrRare(Junk, "RareJunk", l)
    [] x.s = "ConstTy" -> OrRare(ConstTys, "RareConstTy", l)
    [] x.s = "Value" -> OrRare(Values, "RareValue", l)
    [] x.s = "RareName" -> FromPool(RareNames, l)
    [] x.s = "RareTy" -> FromPool(RareTypes, l)
    [] x.s = "RareArgTy" -> FromPool(SelectSeq(RareTypes, LAMBDA ts : ts[1] # "'"), l)
    [] x.s = "RareBound" -> FromPool(RareBounds, l)
    [] x.s = "RareRetTy" -> FromPool(RareRetTys, l)
    [] x.s = "RareLeft" -> FromPool(RareLefts, l)
    [] x.s = "RareInit" -> FromPool(RareInits, l)
    [] x.s = "RareTree" -> FromPool(RareTrees, l)
    [] x.s = "RareJunk" -> FromPool(RareJunk, l)
    [] x.s = "RareConstTy" -> FromPool(RareConstTys, l)
    [] x.s = "RareValue" -> FromPool(RareValues, l)
    [] x.s = "RareBadValue" -> FromPool(RareBadValues, l)
    [] x.s = "RareAttrPath" -> FromPool(RareAttrPaths, l)
    [] x.s = "RareVisr" -> FromPool(RareVisr, l)
    [] x.s = "RareImplTrait" -> FromPool(RareImplTraits, l)
    [] x.s = "RareSelfTy" -> FromPool(SelectSeq(RareSelfTys, LAMBDA ts : x.k # "inherent" \/ ts[1] # "<"), l)

    \* ---- generics
    [] x.s = "Gen" -> << <<>>, <<T("<", l \o <<"gen", "lt">>), N("GParams", Sb(l, "gen"), 1, "", d), T(">", l \o <<"gen", "gt">>)>> >>
    [] x.s = "GParams" -> ListAlts(x, [elem EXCEPT !.s = "GParam"])
    [] x.s = "GParam" -> << <<n("Name")>>,
                            <<n("Name"), n("Bounded")>>,
                            <<kw("'", "prefix"), n("LifeName")>>,
                            <<kw("'", "prefix"), n("LifeName"), n("Bounded")>>,
                            <<kw("const", "prefix"), n("Name"), T(":", Sb2(l, "bound", "colon")), N("ConstTy", Sb2(l, "bound", "tok"), 1, "", 0)>> >>
    [] x.s = "LifeName" -> << <<kw("a", "name")>>, <<kw("b", "name")>>, <<kw("static", "name")>>, <<kw("_", "name")>>, <<kw("r#where", "name")>> >>
    [] x.s = "Bounded" -> << <<T(":", Sb2(l, "bound", "colon")), N("Bound", Sb2(l, "bound", "tok"), 1, "", 0)>> >>
    [] x.s = "Where" -> << <<>>, <<T("where", l \o <<"where", "kw">>), N("WPreds", Sb(l, "where"), 1, "", d)>> >>
    [] x.s = "WPreds" -> ListAlts(x, [elem EXCEPT !.s = "WPred"])
    [] x.s = "WPred" -> << <<N("Left", Sb(l, "left"), 1, "", 0), T(":", Sb2(l, "bound", "colon")), N("Bound", Sb2(l, "bound", "tok"), 1, "", 0)>> >>

    \* ---- fields and variants
    [] x.s = "StructTail" -> << <<n("Where"), kw(";", "semi")>>,
                                <<n("Tuple"), n("Where"), kw(";", "semi")>>,
                                <<n("Where"), n("Named")>>,
                                <<n("Where"), n("Named"), kw(";", "semi")>> >>
    [] x.s = "Tuple" -> << <<T("(", Sb(l, "tuple")), N("TFields", Sb(l, "tuple"), 1, "", d), T(")", Sb(l, "tuple"))>> >>
    [] x.s = "TFields" -> ListAlts(x, [elem EXCEPT !.s = "TField"])
    [] x.s = "TField" -> << <<n("Attrs"), n("Vis"), N("Ty", Sb(l, "ty"), 1, "", 0)>> >>
    [] x.s = "Named" -> << <<T("{", Sb(l, "named")), N("NFields", Sb(l, "named"), 1, "", d), T("}", Sb(l, "named"))>> >>
    [] x.s = "NFields" -> ListAlts(x, [elem EXCEPT !.s = "NField"])
    [] x.s = "NField" -> << <<n("Attrs"), n("Vis"), n("Name"), kw(":", "colon"), N("Ty", Sb(l, "ty"), 1, "", 0)>> >>
    [] x.s = "EnumBody" -> << <<T("{", Sb(l, "body")), N("Variants", Sb(l, "body"), 1, "", d), T("}", Sb(l, "body"))>> >>
    [] x.s = "Variants" -> ListAlts(x, [elem EXCEPT !.s = "Variant"])
    [] x.s = "Variant" -> << <<n("Attrs"), n("Vis"), n("Name"), n("VFields"), n("Discr")>> >>
    [] x.s = "VFields" -> << <<>>, <<n("Tuple")>>, <<n("Named")>> >>
    [] x.s = "Discr" -> << <<>>, <<T("=", Sb2(l, "val", "eq")), N("Value", Sb2(l, "val", "value"), 1, "", 0)>> >>

    \* ---- functions
    [] x.s = "QDefault" -> opt("", <<T("default", l \o <<"q", "default">>)>>)
    [] x.s = "QConst"   -> opt("", <<T("const", l \o <<"q", "const">>)>>)
    [] x.s = "QAsync"   -> opt("", <<T("async", l \o <<"q", "async">>)>>)
    [] x.s = "QUnsafe"  -> opt("", <<T("unsafe", l \o <<"q", "unsafe">>)>>)
    [] x.s = "QExtern"  -> << <<>>, <<T("extern", l \o <<"q", "extern">>)>>,
                              <<T("extern", l \o <<"q", "extern">>), N("AbiStr", l \o <<"q", "abi">>, 1, "", 0)>> >>
    [] x.s = "Params" -> << <<T("(", Sb(l, "params")), N("ParamList", Sb(l, "params"), 1, "", d), T(")", Sb(l, "params"))>> >>
    [] x.s = "ParamList" -> ListAlts(x, [elem EXCEPT !.s = IF x.i = 1 THEN "FirstParam" ELSE "Typed"])
    [] x.s = "FirstParam" -> << <<n("Typed")>>, <<n("Recv")>> >>
    [] x.s = "Typed" -> LET ty == N("Ty", Sb(l, "ty"), 1, "", 0) IN
                        << <<n("Attrs"), n("Name"), kw(":", "colon"), ty>>,
                           <<n("Attrs"), kw("mut", "mut"), n("Name"), kw(":", "colon"), ty>>,
                           <<n("Attrs"), kw("self", "name"), kw(":", "colon"), ty>>,
                           <<n("Attrs"), kw("mut", "mut"), kw("self", "name"), kw(":", "colon"), ty>> >>
    [] x.s = "Recv" -> LET self == kw("self", "self")  a == N("Life", Sb(l, "life"), 1, "", 0) IN
                       << <<n("Attrs"), self>>, <<n("Attrs"), kw("&", "ref"), self>>, <<n("Attrs"), kw("mut", "mut"), self>>,
                          <<n("Attrs"), kw("&", "ref"), kw("mut", "mut"), self>>, <<n("Attrs"), kw("&", "ref"), a, self>>,
                          <<n("Attrs"), kw("&", "ref"), a, kw("mut", "mut"), self>> >>
    [] x.s = "Life" -> [j \in 1..Len(LifeNames) |-> <<R(<<"'">> \o LifeNames[j], l)>>]
    [] x.s = "Ret" -> << <<>>, <<R(<<"-", ">">>, Sb(l, "arrow")), N("RetTy", Sb(l, "ret"), 1, "", 0)>> >>
    [] x.s = "FnEnd" -> << <<kw(";", "semi")>>, <<T("{", Sb(l, "block")), N("Junk", Sb(l, "block"), 1, "", 0), T("}", Sb(l, "block"))>> >>

    \* ---- blocks
    [] x.s = "Unsafe" -> opt("", <<kw("unsafe", "unsafe")>>)
    [] x.s = "Abi" -> opt("", <<N("AbiStr", Sb(l, "abi"), 1, "", 0)>>)
    [] x.s = "AbiStr" -> FromPool(Abis, l)
    [] x.s = "ModTail" -> << <<kw(";", "semi")>>, <<N("Block", l, 1, "mod", d)>> >>
    [] x.s = "Block" -> << <<T("{", Sb(l, "body")), N("Inner", l, 1, "", d), N("Members", Sb(l, "body"), 1, x.k, d + 1), T("}", Sb(l, "body"))>> >>
    [] x.s = "Members" -> << <<>> >> \o (IF x.i <= MaxList THEN << <<[elem EXCEPT !.s = "Item"], [x EXCEPT !.i = x.i + 1]>> >> ELSE <<>>)
    [] x.s = "OptBound" -> opt("", <<T(":", Sb2(l, "bound", "colon")), N("Bound", Sb2(l, "bound", "tok"), 1, "", 0)>>)
    [] x.s = "ImplHead" -> << <<N("SelfTy", Sb(l, "self"), 1, "inherent", 0)>>,
                              <<N("ImplTrait", Sb(l, "trait"), 1, "", 0), kw("for", "for"), N("SelfTy", Sb(l, "self"), 1, "", 0)>> >>
    [] x.s = "ImplTrait" -> OrRare(ImplTraits, "RareImplTrait", l)
    [] x.s = "SelfTy" -> LET pool == IF x.k = "inherent" THEN SelectSeq(SelfTys, LAMBDA ts : ts[1] \notin {"for", "<"}) ELSE SelfTys
                         IN FromPool(pool, l) \o << <<N("RareSelfTy", l, 1, x.k, 0)>> >>

    \* ---- the rest
    [] x.s = "OptEqTy" -> opt("", <<kw("=", "eq"), N("Ty", Sb(l, "ty"), 1, "", 0)>>)
    [] x.s = "OptInit" -> opt("", <<kw("=", "eq"), N("Init", Sb(l, "init"), 1, "", 0)>>)
    [] x.s = "OptMut"  -> opt("", <<kw("mut", "mut")>>)
    [] x.s = "MacroDecl" -> opt("", <<N("Declared", Sb(l, "decl"), 1, "", 0)>>)
    [] x.s = "Declared" -> FromPool(Declared, l)
    [] x.s = "MacroBody" -> LET j == N("Junk", Sb(l, "tok"), 1, "", 0) IN
                            << <<kw("{", "delim"), j, kw("}", "delim")>>,
                               <<kw("(", "delim"), j, kw(")", "delim"), kw(";", "semi")>>,
                               <<kw("[", "delim"), j, kw("]", "delim"), kw(";", "semi")>> >>
    [] x.s = "OptAs" -> opt("", <<kw("as", "as"), N("Alias", Sb(l, "alias"), 1, "", 0)>>)
    [] x.s = "Alias" -> FromPool(Aliases, l)

    \* ---- paths, as understood by the type-to-path conversion
    [] x.s = "PathTy" -> << <<n("PLead")>>, <<T("/(", <<"invisible">>), n("PLead"), T("/)", <<"invisible">>)>> >>
    [] x.s = "PLead" -> << <<N("PSeg", <<"1">>, 1, "", d), N("PMore", <<>>, 2, "", d)>>,
                           <<R(<<":^", ":">>, <<"1", "colons">>), N("PSeg", <<"1">>, 1, "", d), N("PMore", <<>>, 2, "", d)>> >>
    [] x.s = "PMore" -> << <<>> >> \o (IF x.i <= MaxList
                                       THEN << <<R(<<":^", ":">>, <<Nu(x.i), "colons">>), [elem EXCEPT !.s = "PSeg"], [x EXCEPT !.i = x.i + 1]>> >>
                                       ELSE <<>>)
    [] x.s = "PSeg" -> LET args == <<T("<", Sb2(l, "args", "lt")), N("PArgs", Sb(l, "args"), 1, "", d), T(">", Sb2(l, "args", "gt"))>> IN
                       << <<n("PName")>>, <<n("PName")>> \o args, <<n("PName"), R(<<":^", ":">>, Sb2(l, "args", "turbo"))>> \o args >>
    [] x.s = "PName" -> << <<kw("A", "ident")>>, <<kw("crate", "ident")>>, <<kw("r#type", "ident")>>, <<kw("union", "ident")>>, <<kw("Self", "ident")>> >>
    [] x.s = "PArgs" -> ListAlts(x, [elem EXCEPT !.s = "PArg"])
    [] x.s = "PArg" -> << <<N("ArgTy", Sb(l, "expr"), 1, "", 0)>>,
                          <<N("Life", Sb(l, "life"), 1, "", 0)>>,
                          <<kw("Item", "bind"), kw("=", "eq"), N("ArgTy", Sb(l, "ty"), 1, "", 0)>>,
                          <<R(<<"1">>, Sb(l, "expr"))>>,
                          <<R(<<"{", "N", ",", "M", "}">>, Sb(l, "expr"))>> >>
    [] x.s = "ArgTy" -> LET pool == SelectSeq(Types, LAMBDA ts : ts[1] # "'") IN OrRare(pool, "RareArgTy", l)
=============================================================================

---------------------------- MODULE VenialParser ----------------------------
(***************************************************************************)
(* The parser as a deterministic pushdown machine.                         *)
(*                                                                         *)
(* State  [p, st, r, at]                                                   *)
(*   p   position of the next unconsumed token                             *)
(*   st  stack of pending symbols; each has a name s, the label path l of  *)
(*       the node it belongs to, the end e of the token group it reads, a  *)
(*       context k and an index i                                          *)
(*   r   "run", or the outcome: "ok" (declaration complete, tokens from p  *)
(*       on untouched), "fail" (panic), "err" (recoverable error located   *)
(*       at token `at`), "none" (not a path)                               *)
(*                                                                         *)
(* One step decides one construct by lookahead and emits, for the tokens   *)
(* it consumes, the label path of the node part they belong to: a sequence *)
(* of <<first, last, label>>.  Emissions are contiguous and in order, so   *)
(* every consumed token gets exactly one label: the labelled token         *)
(* sequence is the syntax tree.                                            *)
(***************************************************************************)
EXTENDS VenialTokens, TLC

Sym(s, l, e, k, i) == [s |-> s, l |-> l, e |-> e, k |-> k, i |-> i]

Num(i) == ToString(i)

Start(in, sym, k) == [p |-> 1, st |-> <<Sym(sym, <<>>, Len(in.t) + 1, k, 0)>>, r |-> "run", at |-> 0]

--------------------------------------------------------------------------
(* Scanning opaque fragments. *)

(* A fragment ends at the first token of `stop` outside angle brackets, at *)
(* a `>` that closes a bracket opened before the fragment, or at the end   *)
(* of the group.  `->` is not a bracket.  Groups are atomic.               *)
RECURSIVE RunEnd(_, _, _, _, _, _)
RunEnd(in, p, e, stop, depth, dash) ==
  IF p >= e THEN [q |-> p, met |-> FALSE]
  ELSE LET t == Base(in.t[p]) IN
       CASE t = "<" -> RunEnd(in, p + 1, e, stop, depth + 1, FALSE)
         [] t = ">" /\ ~dash /\ depth = 0 -> [q |-> p, met |-> FALSE]
         [] t = ">" /\ ~dash /\ depth > 0 -> RunEnd(in, p + 1, e, stop, depth - 1, FALSE)
         [] t = ">" /\ dash -> RunEnd(in, p + 1, e, stop, depth, FALSE)
         [] t = "-" -> RunEnd(in, p + 1, e, stop, depth, TRUE)
         [] t \in stop /\ depth = 0 -> [q |-> p, met |-> TRUE]
         [] OTHER -> RunEnd(in, After(in, p), e, stop, depth, FALSE)

Run(in, p, e, stop) == RunEnd(in, p, e, stop, 0, FALSE)

(* The left side of a where predicate ends at a `:` that is not part of a `::`. *)
RECURSIVE LeftEnd(_, _, _)
LeftEnd(in, p, e) ==
  LET r == Run(in, p, e, {":"}) IN
  IF r.met /\ Colon2(in, r.q, e) THEN LeftEnd(in, r.q + 2, e) ELSE r

(* An initializer runs to the `;`, whatever it contains. *)
RECURSIVE SemiEnd(_, _, _)
SemiEnd(in, p, e) ==
  IF p >= e \/ in.t[p] = ";" THEN p ELSE SemiEnd(in, After(in, p), e)

(* The path of an attribute: identifiers and colons. *)
RECURSIVE AttrPathEnd(_, _, _)
AttrPathEnd(in, p, e) ==
  IF p < e /\ (IsIdent(in.t[p]) \/ Base(in.t[p]) = ":") THEN AttrPathEnd(in, p + 1, e) ELSE p

(* Is the group content a..b a visibility restriction? *)
VisRestr(in, a, b) ==
  /\ a <= b
  /\ \/ in.t[a] = "in"
     \/ in.t[a] \in {"crate", "self", "super"} /\ a = b

(* Function qualifiers, in their fixed order. *)
Quals(in, p, e) ==
  LET hd == At(in, p, e) = "default"              p1 == IF hd THEN p + 1 ELSE p
      hc == At(in, p1, e) = "const"               p2 == IF hc THEN p1 + 1 ELSE p1
      ha == At(in, p2, e) = "async"               p3 == IF ha THEN p2 + 1 ELSE p2
      hu == At(in, p3, e) = "unsafe"              p4 == IF hu THEN p3 + 1 ELSE p3
      he == At(in, p4, e) = "extern"              p5 == IF he THEN p4 + 1 ELSE p4
      hl == he /\ IsLit(At(in, p5, e))            p6 == IF hl THEN p5 + 1 ELSE p5
  IN [d |-> hd, c |-> hc, a |-> ha, u |-> hu, e |-> he, abi |-> hl, q |-> p6,
      em |-> (IF hd THEN <<<<p, p, "default">>>> ELSE <<>>)
             \o (IF hc THEN <<<<p1, p1, "const">>>> ELSE <<>>)
             \o (IF ha THEN <<<<p2, p2, "async">>>> ELSE <<>>)
             \o (IF hu THEN <<<<p3, p3, "unsafe">>>> ELSE <<>>)
             \o (IF he THEN <<<<p4, p4, "extern">>>> ELSE <<>>)
             \o (IF hl THEN <<<<p5, p5, "abi">>>> ELSE <<>>)]

--------------------------------------------------------------------------
(* Results of a step. *)

Go(s, p, em, push) ==
  LET st == push \o Tail(s.st)
  IN [p |-> p, st |-> st, r |-> IF st = <<>> THEN "ok" ELSE "run", at |-> 0, em |-> em]

Stop(s, r, p, at) == [p |-> p, st |-> <<>>, r |-> r, at |-> at, em |-> <<>>]

Fail(s) == Stop(s, "fail", s.p, 0)

Pop(s) == Go(s, s.p, <<>>, <<>>)

(* Consume one token with label l, or fail. *)
Expect(s, cond, em, push) == IF cond THEN Go(s, s.p + 1, em, push) ELSE Fail(s)

(* Tell the symbol below that an optional part was present. *)
MarkNext(st) == IF Len(st) > 1 /\ st[2].s \in {"Kind", "SBody"} THEN [st EXCEPT ![2].i = 1] ELSE st

Sub(l, x) == Append(l, x)
Sub2(l, x, y) == l \o <<x, y>>

--------------------------------------------------------------------------
(* Attributes and visibility *)

StepAttrs(in, s, x) ==
  LET p == s.p  e == x.e  l == x.l \o <<"attr", Num(x.i)>> IN
  IF At(in, p, e) # "#" THEN Pop(s)
  ELSE IF At(in, p + 1, e) # "[" THEN Fail(s)
  ELSE Go(s, p + 2, <<<<p, p, Sub(l, "hash")>>, <<p + 1, p + 1, Sub(l, "brackets")>>>>,
          << Sym("AttrBody", l, in.m[p + 1], "", 0),
             Sym("Close", Sub(l, "brackets"), e, "", 0),
             [x EXCEPT !.i = x.i + 1] >>)

StepInner(in, s, x) ==
  LET p == s.p  e == x.e  l == x.l \o <<"inner", Num(x.i)>> IN
  IF At(in, p, e) # "#" \/ At(in, p + 1, e) = "[" THEN Pop(s)
  ELSE IF At(in, p + 1, e) # "!" \/ At(in, p + 2, e) # "[" THEN Fail(s)
  ELSE Go(s, p + 3, <<<<p, p, Sub(l, "hash")>>, <<p + 1, p + 1, Sub(l, "bang")>>,
                      <<p + 2, p + 2, Sub(l, "brackets")>>>>,
          << Sym("AttrBody", l, in.m[p + 2], "", 0),
             Sym("Close", Sub(l, "brackets"), e, "", 0),
             [x EXCEPT !.i = x.i + 1] >>)

StepAttrBody(in, s, x) ==
  LET p == s.p  e == x.e  l == x.l
      q == AttrPathEnd(in, p, e)
      t == At(in, q, e)
      path == <<p, q - 1, Sub(l, "path")>>
  IN CASE t = EOS -> Go(s, e, <<path>>, <<>>)
       [] t \in Opens ->
            IF in.m[q] + 1 # e THEN Fail(s)
            ELSE Go(s, e, <<path, <<q, q, Sub2(l, "val", "group")>>, <<q + 1, in.m[q] - 1, Sub2(l, "val", "tok")>>,
                            <<in.m[q], in.m[q], Sub2(l, "val", "group")>>>>, <<>>)
       [] t = "=" -> Go(s, e, <<path, <<q, q, Sub2(l, "val", "eq")>>, <<q + 1, e - 1, Sub2(l, "val", "tok")>>>>, <<>>)
       [] OTHER -> Fail(s)

StepVis(in, s, x) ==
  LET p == s.p  e == x.e  t == At(in, p, e)  sm == [s EXCEPT !.st = MarkNext(s.st)] IN
  CASE t = "pub" ->
         IF At(in, p + 1, e) = "(" /\ VisRestr(in, p + 2, in.m[p + 1] - 1)
         THEN Go(sm, in.m[p + 1] + 1, <<<<p, p, Sub2(x.l, "vis", "tok")>>, <<p + 1, in.m[p + 1], Sub2(x.l, "vis", "restr")>>>>, <<>>)
         ELSE Go(sm, p + 1, <<<<p, p, Sub2(x.l, "vis", "tok")>>>>, <<>>)
    [] t = "crate" /\ ~Colon2(in, p + 1, e) -> Go(sm, p + 1, <<<<p, p, Sub2(x.l, "vis", "tok")>>>>, <<>>)
    [] OTHER -> Pop(s)

--------------------------------------------------------------------------
(* Which declaration is it? *)

IsTop(k) == k \in {"top", "mod"}

(* `[unsafe] kw ...` headers *)
OptUnsafe(in, s, x) == At(in, s.p, x.e) = "unsafe"

Header(in, s, x, kw, label, push) ==
  LET p == s.p  u == OptUnsafe(in, s, x)  q == IF u THEN p + 1 ELSE p IN
  IF At(in, q, x.e) # kw THEN Fail(s)
  ELSE Go(s, q + 1, (IF u THEN <<<<p, p, Sub(x.l, "unsafe")>>>> ELSE <<>>) \o <<<<q, q, Sub(x.l, label)>>>>, push)

TraitSyms(x) == << Sym("Name", x.l, x.e, "", 0), Sym("Gen", x.l, x.e, "", 0), Sym("TraitBound", x.l, x.e, "", 0),
                   Sym("Where", x.l, x.e, "", 0), Sym("Body", x.l, x.e, "impl", 0) >>
ImplSyms(x)  == << Sym("Gen", x.l, x.e, "", 0), Sym("ImplHead", x.l, x.e, "", 0),
                   Sym("Where", x.l, x.e, "", 0), Sym("Body", x.l, x.e, "impl", 0) >>
ModSyms(x)   == << Sym("Name", x.l, x.e, "", 0), Sym("ModBody", x.l, x.e, "", 0) >>

(* From qualifiers on: a function, or what the qualifiers turn out to belong to. *)
StepFnLike(in, s, x) ==
  LET p == s.p  e == x.e  l == x.l
      q == Quals(in, p, e)
      n == At(in, q.q, e)
      onlyConst  == q.c /\ ~q.u /\ ~q.d /\ ~q.a /\ ~q.e
      onlyUnsafe == q.u /\ ~q.c /\ ~q.d /\ ~q.a /\ ~q.e
      const == IF At(in, p, e) = "const" \/ (At(in, p, e) = "static" /\ x.k # "impl")
               THEN Go(s, p, <<>>, <<Sym("Const", l, e, "", 0)>>) ELSE Fail(s)
  IN CASE n = "fn" ->
            Go(s, q.q + 1, [j \in 1..Len(q.em) |-> <<q.em[j][1], q.em[j][2], l \o <<"q", q.em[j][3]>>>>]
                           \o <<<<q.q, q.q, Sub(l, "Fn")>>>>,
               << Sym("Name", l, e, "", 0), Sym("Gen", l, e, "", 0), Sym("Params", l, e, "", 0),
                  Sym("Ret", l, e, "", 0), Sym("Where", l, e, "", 0), Sym("FnEnd", l, e, "", 0) >>)
       [] q.e /\ n = "crate" ->
            IF q.q = p + 1 /\ IsTop(x.k) THEN Go(s, p, <<>>, <<Sym("ExternCrate", l, e, "", 0)>>) ELSE Fail(s)
       [] n = "static" -> const
       [] IsIdent(n) /\ n \notin {"fn", "static"} /\ ~(q.e /\ n = "crate") /\ onlyConst -> const
       [] IsIdent(n) /\ onlyUnsafe /\ IsTop(x.k) /\ n = "trait" -> Header(in, s, x, "trait", "Trait", TraitSyms(x))
       [] IsIdent(n) /\ onlyUnsafe /\ IsTop(x.k) /\ n = "mod" -> Header(in, s, x, "mod", "Mod", ModSyms(x))
       [] IsIdent(n) /\ onlyUnsafe /\ IsTop(x.k) /\ n = "impl" /\ x.i = 0 -> Header(in, s, x, "impl", "Impl", ImplSyms(x))
       [] n = "{" /\ q.e /\ ~q.d /\ ~q.c /\ ~q.a /\ IsTop(x.k) ->
            Go(s, q.q, [j \in 1..Len(q.em) |->
                          <<q.em[j][1], q.em[j][2],
                            Sub(l, IF q.em[j][3] = "extern" THEN "ExternBlock" ELSE q.em[j][3])>>],
               <<Sym("Body", l, e, "ext", 0)>>)
       [] OTHER -> Fail(s)

StepKind(in, s, x) ==
  LET p == s.p  e == x.e  l == x.l  t == At(in, p, e)
      Kw(label, push) == Go(s, p + 1, <<<<p, p, Sub(l, label)>>>>, push)
      Typ(last) == << Sym("Name", l, e, "", 0), Sym("Gen", l, e, "", 0), Sym("Where", l, e, "", 0), last >>
  IN CASE IsTop(x.k) /\ t = "struct" -> Kw("Struct", Typ(Sym("SBody", l, e, "", 0)))
       [] IsTop(x.k) /\ t = "enum"   -> Kw("Enum", Typ(Sym("EBody", l, e, x.k, 0)))
       [] IsTop(x.k) /\ t = "union"  -> Kw("Union", Typ(Sym("UBody", l, e, "", 0)))
       [] IsTop(x.k) /\ t = "mod"    -> Kw("Mod", ModSyms(x))
       [] IsTop(x.k) /\ t = "trait"  -> Kw("Trait", TraitSyms(x))
       [] IsTop(x.k) /\ t = "impl"   -> IF x.i = 1 THEN Fail(s) ELSE Kw("Impl", ImplSyms(x))
       [] IsTop(x.k) /\ t = "static" -> Go(s, p, <<>>, <<Sym("Const", l, e, "", 0)>>)
       [] IsTop(x.k) /\ t = "use"    -> Kw("Use", <<Sym("UseTree", l, e, "", 0)>>)
       [] t = "type"                 -> Kw("Type", <<Sym("Name", l, e, "", 0), Sym("TypeBody", l, e, "", 0)>>)
       [] t \in {"default", "const", "async", "unsafe", "extern", "fn"} -> StepFnLike(in, s, x)
       [] t = "static" /\ ~IsTop(x.k) -> StepFnLike(in, s, x)
       [] OTHER -> IF IsIdent(t) /\ At(in, p + 1, e) = "!" /\ x.i = 0
                   THEN Go(s, p + 2, <<<<p, p, Sub(l, "Macro")>>, <<p + 1, p + 1, Sub(l, "bang")>>>>,
                           <<Sym("MacroBody", l, e, "", 0)>>)
                   ELSE Fail(s)

--------------------------------------------------------------------------
(* Parts of declarations *)

StepName(in, s, x) ==
  Expect(s, IsIdent(At(in, s.p, x.e)), <<<<s.p, s.p, Sub(x.l, "name")>>>>, <<>>)

StepSemi(in, s, x) ==
  Expect(s, At(in, s.p, x.e) = ";", <<<<s.p, s.p, Sub(x.l, "semi")>>>>, <<>>)

StepOptSemi(in, s, x) ==
  IF At(in, s.p, x.e) = ";" THEN StepSemi(in, s, x) ELSE Pop(s)

StepClose(in, s, x) == Go(s, s.p + 1, <<<<s.p, s.p, x.l>>>>, <<>>)

(* Enter the group at the current position, with delimiters labelled dl. *)
Enter(in, s, x, dl, inside) ==
  Go(s, s.p + 1, <<<<s.p, s.p, dl>>>>, inside \o <<Sym("Close", dl, x.e, "", 0)>>)

StepGen(in, s, x) ==
  IF At(in, s.p, x.e) # "<" THEN Pop(s)
  ELSE Go(s, s.p + 1, <<<<s.p, s.p, x.l \o <<"gen", "lt">>>>>>, <<Sym("GParam", Sub(x.l, "gen"), x.e, "", 1)>>)

StepGParam(in, s, x) ==
  LET p == s.p  e == x.e  t == At(in, p, e)  l == Sub(x.l, Num(x.i)) IN
  IF t = ">" THEN Go(s, p + 1, <<<<p, p, Sub(x.l, "gt")>>>>, <<>>)
  ELSE LET pre == t \in {"'", "const"}
           q  == IF pre THEN p + 1 ELSE p          \* name
           b  == At(in, q + 1, e)
           r  == IF b = ":" THEN Run(in, q + 2, e, {",", ">"}).q ELSE q + 1
           cm == At(in, r, e) = ","
       IN IF ~(pre \/ IsIdent(t)) \/ ~IsIdent(At(in, q, e)) \/ b \notin {":", ",", ">"} THEN Fail(s)
          ELSE Go(s, IF cm THEN r + 1 ELSE r,
                  (IF pre THEN <<<<p, p, Sub(l, "prefix")>>>> ELSE <<>>)
                  \o <<<<q, q, Sub(l, "name")>>>>
                  \o (IF b = ":" THEN <<<<q + 1, q + 1, Sub2(l, "bound", "colon")>>, <<q + 2, r - 1, Sub2(l, "bound", "tok")>>>> ELSE <<>>)
                  \o (IF cm THEN <<<<r, r, Sub(l, "comma")>>>> ELSE <<>>),
                  <<[x EXCEPT !.i = x.i + 1]>>)

StepWhere(in, s, x) ==
  IF At(in, s.p, x.e) # "where" THEN Pop(s)
  ELSE Go([s EXCEPT !.st = MarkNext(s.st)], s.p + 1, <<<<s.p, s.p, x.l \o <<"where", "kw">>>>>>,
          <<Sym("WPred", Sub(x.l, "where"), x.e, "", 1)>>)

StepWPred(in, s, x) ==
  LET p == s.p  e == x.e  t == At(in, p, e)  l == Sub(x.l, Num(x.i)) IN
  IF t \in {"{", ";"} THEN Pop(s)
  ELSE IF t = EOS THEN Fail(s)
  ELSE LET q == LeftEnd(in, p, e).q IN
       IF At(in, q, e) # ":" THEN Fail(s)
       ELSE LET r  == Run(in, q + 1, e, {",", "{", ";"})
                cm == At(in, r.q, e) = ","
            IN IF ~r.met THEN Fail(s)
               ELSE Go(s, IF cm THEN r.q + 1 ELSE r.q,
                       <<<<p, q - 1, Sub(l, "left")>>, <<q, q, Sub2(l, "bound", "colon")>>, <<q + 1, r.q - 1, Sub2(l, "bound", "tok")>>>>
                       \o (IF cm THEN <<<<r.q, r.q, Sub(l, "comma")>>>> ELSE <<>>),
                       <<[x EXCEPT !.i = x.i + 1]>>)

(* A predicate on its own (WhereClausePredicate::parse): one, and nothing after it. *)
StepPred(in, s, x) ==
  LET p == s.p  e == x.e  q == LeftEnd(in, p, e).q IN
  IF At(in, q, e) # ":" THEN Fail(s)
  ELSE LET r == Run(in, q + 1, e, {",", "{", ";"}).q IN
       IF r # e THEN Fail(s)
       ELSE Go(s, e, <<<<p, q - 1, Sub(x.l, "left")>>, <<q, q, Sub2(x.l, "bound", "colon")>>, <<q + 1, e - 1, Sub2(x.l, "bound", "tok")>>>>, <<>>)

(* A type that ends at a comma or at the end of the group; it can't be empty. *)
FieldTy(in, s, x, l, push) ==
  LET r == Run(in, s.p, x.e, {","}).q  cm == At(in, r, x.e) = "," IN
  IF r = s.p \/ (~cm /\ r < x.e) THEN Fail(s)
  ELSE Go(s, IF cm THEN r + 1 ELSE r,
          <<<<s.p, r - 1, Sub(l, "ty")>>>> \o (IF cm THEN <<<<r, r, Sub(l, "comma")>>>> ELSE <<>>), push)

StepTuple(in, s, x) == Enter(in, s, x, Sub(x.l, "tuple"), <<Sym("TField", Sub(x.l, "tuple"), in.m[s.p], "", 1)>>)
StepNamed(in, s, x) == Enter(in, s, x, Sub(x.l, "named"), <<Sym("NField", Sub(x.l, "named"), in.m[s.p], "", 1)>>)

StepTField(in, s, x) ==
  LET l == Sub(x.l, Num(x.i)) IN
  IF s.p = x.e THEN Pop(s)
  ELSE Go(s, s.p, <<>>, << Sym("Attrs", l, x.e, "", 1), Sym("Vis", l, x.e, "", 0),
                           Sym("FieldTy", l, x.e, "", 0), [x EXCEPT !.i = x.i + 1] >>)

StepNField(in, s, x) ==
  LET l == Sub(x.l, Num(x.i)) IN
  IF s.p = x.e THEN Pop(s)
  ELSE Go(s, s.p, <<>>, << Sym("Attrs", l, x.e, "", 1), Sym("Vis", l, x.e, "", 0), Sym("Name", l, x.e, "", 0),
                           Sym("Colon", l, x.e, "", 0), Sym("FieldTy", l, x.e, "", 0), [x EXCEPT !.i = x.i + 1] >>)

StepColon(in, s, x) == Expect(s, At(in, s.p, x.e) = ":", <<<<s.p, s.p, Sub(x.l, "colon")>>>>, <<>>)

StepSBody(in, s, x) ==
  LET t == At(in, s.p, x.e) IN
  CASE t = ";" -> StepSemi(in, s, x)
    [] t = "(" /\ x.i = 0 -> Go(s, s.p, <<>>, << Sym("Tuple", x.l, x.e, "", 0), Sym("Where", x.l, x.e, "", 0),
                                                 Sym("OptSemi", x.l, x.e, "", 0) >>)
    [] t = "{" -> Go(s, s.p, <<>>, << Sym("Named", x.l, x.e, "", 0), Sym("OptSemi", x.l, x.e, "", 0) >>)
    [] OTHER -> Fail(s)

StepUBody(in, s, x) == IF At(in, s.p, x.e) = "{" THEN StepNamed(in, s, x) ELSE Fail(s)

StepEBody(in, s, x) ==
  IF At(in, s.p, x.e) # "{" THEN Fail(s)
  ELSE Enter(in, s, x, Sub(x.l, "body"), <<Sym("Variant", Sub(x.l, "body"), in.m[s.p], x.k, 1)>>)

StepVariant(in, s, x) ==
  LET l == Sub(x.l, Num(x.i)) IN
  IF s.p = x.e THEN Pop(s)
  ELSE Go(s, s.p, <<>>, << Sym("Attrs", l, x.e, "", 1), Sym("Vis", l, x.e, "", 0), Sym("Name", l, x.e, "", 0),
                           Sym("VFields", l, x.e, "", 0), Sym("Discr", l, x.e, x.k, 0),
                           Sym("ListComma", l, x.e, "", 0), [x EXCEPT !.i = x.i + 1] >>)

StepVFields(in, s, x) ==
  LET t == At(in, s.p, x.e) IN
  CASE t \in {EOS, ",", "="} -> Pop(s)
    [] t = "(" -> StepTuple(in, s, x)
    [] t = "{" -> StepNamed(in, s, x)
    [] OTHER -> Fail(s)

StepDiscr(in, s, x) ==
  LET p == s.p  e == x.e IN
  IF At(in, p, e) # "=" THEN Pop(s)
  ELSE IF p + 1 >= e THEN Fail(s)
  ELSE LET a == After(in, p + 1) IN
       IF At(in, a, e) \in {EOS, ","}
       THEN Go(s, a, <<<<p, p, Sub2(x.l, "val", "eq")>>, <<p + 1, a - 1, Sub2(x.l, "val", "value")>>>>, <<>>)
       ELSE IF x.k = "top" THEN Stop(s, "err", e + 1, p + 1)   \* recoverable; the enum's body is consumed
       ELSE Fail(s)

StepListComma(in, s, x) ==
  CASE At(in, s.p, x.e) = "," -> Go(s, s.p + 1, <<<<s.p, s.p, Sub(x.l, "comma")>>>>, <<>>)
    [] s.p = x.e -> Pop(s)
    [] OTHER -> Fail(s)

StepTraitBound(in, s, x) ==
  LET p == s.p  e == x.e  t == At(in, p, e) IN
  CASE t = ":" -> LET r == Run(in, p + 1, e, {"where", "{"}).q IN
                  Go(s, r, <<<<p, p, Sub2(x.l, "bound", "colon")>>, <<p + 1, r - 1, Sub2(x.l, "bound", "tok")>>>>, <<>>)
    [] t \in {"where", "{"} -> Pop(s)
    [] OTHER -> Fail(s)

StepImplHead(in, s, x) ==
  LET p == s.p  e == x.e  r == Run(in, p, e, {"{", "for", "where"}) IN
  IF ~r.met THEN Fail(s)
  ELSE IF At(in, r.q, e) # "for" THEN Go(s, r.q, <<<<p, r.q - 1, Sub(x.l, "self")>>>>, <<>>)
  ELSE LET r2 == Run(in, r.q + 1, e, {"{", "where"}) IN
       IF ~r2.met THEN Fail(s)
       ELSE Go(s, r2.q, <<<<p, r.q - 1, Sub(x.l, "trait")>>, <<r.q, r.q, Sub(x.l, "for")>>,
                          <<r.q + 1, r2.q - 1, Sub(x.l, "self")>>>>, <<>>)

(* The block of a trait, impl or extern block ("impl"/"ext") or of a module ("mod"). *)
StepBody(in, s, x) ==
  IF At(in, s.p, x.e) # "{" THEN Fail(s)
  ELSE Enter(in, s, x, Sub(x.l, "body"),
             << Sym("Inner", x.l, in.m[s.p], "", 1), Sym("Members", Sub(x.l, "body"), in.m[s.p], x.k, 1) >>)

StepModBody(in, s, x) ==
  IF At(in, s.p, x.e) = ";" THEN StepSemi(in, s, x) ELSE StepBody(in, s, [x EXCEPT !.k = "mod"])

StepMembers(in, s, x) ==
  IF s.p = x.e THEN Pop(s)
  ELSE Go(s, s.p, <<>>, << Sym("Item", Sub(x.l, Num(x.i)), x.e, x.k, 0), [x EXCEPT !.i = x.i + 1] >>)

StepItem(in, s, x) ==
  Go(s, s.p, <<>>, << Sym("Attrs", x.l, x.e, "", 1), Sym("Vis", x.l, x.e, "", 0), Sym("Kind", x.l, x.e, x.k, 0) >>)

StepConst(in, s, x) ==
  LET p == s.p  e == x.e
      mu == At(in, p + 1, e) = "mut"
      n  == IF mu THEN p + 2 ELSE p + 1
      ty == Run(in, n + 2, e, {"=", ";"})
      eq == At(in, ty.q, e) = "="
      a  == IF eq THEN ty.q + 1 ELSE ty.q
      z  == SemiEnd(in, a, e)
  IN IF (mu /\ At(in, p, e) = "const") \/ ~IsIdent(At(in, n, e)) \/ At(in, n + 1, e) # ":" THEN Fail(s)
     ELSE IF ~ty.met \/ z >= e THEN Fail(s)
     ELSE Go(s, z + 1,
             <<<<p, p, Sub(x.l, "Const")>>>>
             \o (IF mu THEN <<<<p + 1, p + 1, Sub(x.l, "mut")>>>> ELSE <<>>)
             \o <<<<n, n, Sub(x.l, "name")>>, <<n + 1, n + 1, Sub(x.l, "colon")>>, <<n + 2, ty.q - 1, Sub(x.l, "ty")>>>>
             \o (IF eq THEN <<<<ty.q, ty.q, Sub(x.l, "eq")>>>> ELSE <<>>)
             \o <<<<a, z - 1, Sub(x.l, "init")>>, <<z, z, Sub(x.l, "semi")>>>>, <<>>)

StepTypeBody(in, s, x) ==
  LET p == s.p  e == x.e  t == At(in, p, e)
      b  == IF t = ":" THEN Run(in, p + 1, e, {"=", ";"}).q ELSE p
      eq == At(in, b, e) = "="
      r  == IF eq THEN Run(in, b + 1, e, {";"}) ELSE [q |-> b, met |-> TRUE]
  IN IF t \notin {":", "=", ";"} \/ ~r.met \/ At(in, r.q, e) # ";" THEN Fail(s)
     ELSE Go(s, r.q + 1,
             (IF t = ":" THEN <<<<p, p, Sub2(x.l, "bound", "colon")>>, <<p + 1, b - 1, Sub2(x.l, "bound", "tok")>>>> ELSE <<>>)
             \o (IF eq THEN <<<<b, b, Sub(x.l, "eq")>>, <<b + 1, r.q - 1, Sub(x.l, "ty")>>>> ELSE <<>>)
             \o <<<<r.q, r.q, Sub(x.l, "semi")>>>>, <<>>)

StepParams(in, s, x) ==
  IF At(in, s.p, x.e) # "(" THEN Fail(s)
  ELSE Enter(in, s, x, Sub(x.l, "params"), <<Sym("Param", Sub(x.l, "params"), in.m[s.p], "", 1)>>)

StepParam(in, s, x) ==
  LET l == Sub(x.l, Num(x.i)) IN
  IF s.p = x.e THEN Pop(s)
  ELSE Go(s, s.p, <<>>, << Sym("Attrs", l, x.e, "", 1), Sym("ParamBody", l, x.e, "", 0), [x EXCEPT !.i = x.i + 1] >>)

StepParamBody(in, s, x) ==
  LET p == s.p  e == x.e  l == x.l
      rf == At(in, p, e) = "&"            p1 == IF rf THEN p + 1 ELSE p
      lf == At(in, p1, e) = "'"           p2 == IF lf THEN p1 + 2 ELSE p1
      mu == At(in, p2, e) = "mut"         p3 == IF mu THEN p2 + 1 ELSE p2
      recv == At(in, p3, e) = "self" /\ At(in, p3 + 1, e) # ":"
      head == (IF rf THEN <<<<p, p, Sub(l, "ref")>>>> ELSE <<>>)
              \o (IF lf THEN <<<<p1, p1 + 1, Sub(l, "life")>>>> ELSE <<>>)
              \o (IF mu THEN <<<<p2, p2, Sub(l, "mut")>>>> ELSE <<>>)
  IN IF lf /\ ~IsIdent(At(in, p1 + 1, e)) THEN Fail(s)
     ELSE IF recv THEN Go(s, p3 + 1, head \o <<<<p3, p3, Sub(l, "self")>>>>, <<Sym("ListComma", l, e, "", 0)>>)
     ELSE IF rf \/ lf \/ ~IsIdent(At(in, p3, e)) \/ At(in, p3 + 1, e) # ":" THEN Fail(s)
     ELSE Go(s, p3 + 2, head \o <<<<p3, p3, Sub(l, "name")>>, <<p3 + 1, p3 + 1, Sub(l, "colon")>>>>,
             <<Sym("FieldTy", l, e, "", 0)>>)

StepRet(in, s, x) ==
  LET p == s.p  e == x.e IN
  IF At(in, p, e) # "-" THEN Pop(s)
  ELSE IF At(in, p + 1, e) # ">" THEN Fail(s)
  ELSE LET r == Run(in, p + 2, e, {"{", "where", ";"}) IN
       IF ~r.met THEN Fail(s)
       ELSE Go(s, r.q, <<<<p, p + 1, Sub(x.l, "arrow")>>, <<p + 2, r.q - 1, Sub(x.l, "ret")>>>>, <<>>)

StepFnEnd(in, s, x) ==
  LET t == At(in, s.p, x.e) IN
  CASE t = "{" -> Go(s, in.m[s.p] + 1, <<<<s.p, in.m[s.p], Sub(x.l, "block")>>>>, <<>>)
    [] t = ";" -> StepSemi(in, s, x)
    [] OTHER -> Fail(s)

StepUseTree(in, s, x) ==
  LET r == Run(in, s.p, x.e, {";"}) IN
  IF ~r.met THEN Fail(s)
  ELSE Go(s, r.q + 1, <<<<s.p, r.q - 1, Sub(x.l, "tree")>>, <<r.q, r.q, Sub(x.l, "semi")>>>>, <<>>)

StepMacroBody(in, s, x) ==
  LET p == s.p  e == x.e
      d == IsIdent(At(in, p, e))
      q == IF d THEN p + 1 ELSE p
      o == At(in, q, e)
  IN IF o \notin {"(", "[", "{"} THEN Fail(s)
     ELSE Go(s, in.m[q] + 1,
             (IF d THEN <<<<p, p, Sub(x.l, "decl")>>>> ELSE <<>>)
             \o <<<<q, q, Sub(x.l, "delim")>>, <<q + 1, in.m[q] - 1, Sub(x.l, "tok")>>,
                  <<in.m[q], in.m[q], Sub(x.l, "delim")>>>>,
             IF o = "{" THEN <<>> ELSE <<Sym("Semi", x.l, e, "", 0)>>)

StepExternCrate(in, s, x) ==
  LET p == s.p  e == x.e
      as == At(in, p + 3, e) = "as"
      z  == IF as THEN p + 5 ELSE p + 3
  IN IF ~IsIdent(At(in, p + 2, e)) \/ (as /\ ~IsIdent(At(in, p + 4, e))) \/ At(in, z, e) # ";" THEN Fail(s)
     ELSE Go(s, z + 1,
             <<<<p, p, Sub(x.l, "ExternCrate")>>, <<p + 1, p + 1, Sub(x.l, "crate")>>, <<p + 2, p + 2, Sub(x.l, "name")>>>>
             \o (IF as THEN <<<<p + 3, p + 3, Sub(x.l, "as")>>, <<p + 4, p + 4, Sub(x.l, "alias")>>>> ELSE <<>>)
             \o <<<<z, z, Sub(x.l, "semi")>>>>, <<>>)

--------------------------------------------------------------------------
(* Paths: the machine started on the tokens of a type expression. *)

None(s) == Stop(s, "none", s.p, 0)

(* An invisible group around the whole type is looked through. *)
StepPath(in, s, x) ==
  IF At(in, s.p, x.e) = "/(" /\ in.m[s.p] + 1 = x.e
  THEN Go(s, s.p + 1, <<<<s.p, s.p, <<"invisible">>>>>>,
          <<Sym("PSeg", x.l, in.m[s.p], "", 1), Sym("Close", <<"invisible">>, x.e, "", 0)>>)
  ELSE Go(s, s.p, <<>>, <<Sym("PSeg", x.l, x.e, "", 1)>>)

StepPSeg(in, s, x) ==
  LET p == s.p  e == x.e  l == Sub(x.l, Num(x.i))
      sep == Colon2(in, p, e)
      q   == IF sep THEN p + 2 ELSE p
      tb  == Colon2(in, q + 1, e)
      g   == IF tb THEN q + 3 ELSE q + 1                  \* where `<` would be
      em  == (IF sep THEN <<<<p, p + 1, Sub(l, "colons")>>>> ELSE <<>>) \o <<<<q, q, Sub(l, "ident")>>>>
  IN IF (x.i > 1 /\ ~sep) \/ ~IsIdent(At(in, q, e)) THEN None(s)
     ELSE IF At(in, g, e) = "<"
     THEN Go(s, g + 1, em \o (IF tb THEN <<<<q + 1, q + 2, Sub2(l, "args", "turbo")>>>> ELSE <<>>) \o <<<<g, g, Sub2(l, "args", "lt")>>>>,
             <<Sym("PArg", l, e, "", 1), Sym("PEnd", x.l, e, "", x.i)>>)
     ELSE Go(s, q + 1, em, <<Sym("PEnd", x.l, e, "", x.i)>>)

StepPEnd(in, s, x) ==
  IF s.p = x.e THEN Pop(s) ELSE Go(s, s.p, <<>>, <<Sym("PSeg", x.l, x.e, "", x.i + 1)>>)

StepPArg(in, s, x) ==
  LET p == s.p  e == x.e  l == x.l \o <<"args", Num(x.i)>>
      r  == Run(in, p, e, {","}).q
      cm == At(in, r, e) = ","
      nx == IF cm THEN r + 1 ELSE r
      ce == IF cm THEN <<<<r, r, Sub(l, "comma")>>>> ELSE <<>>
      again == <<[x EXCEPT !.i = x.i + 1]>>
  IN IF r = p THEN IF ~cm /\ At(in, p, e) = ">" THEN Go(s, p + 1, <<<<p, p, Sub2(x.l, "args", "gt")>>>>, <<>>) ELSE Fail(s)
     ELSE IF in.t[p] = "'"
     THEN IF r = p + 2 /\ IsIdent(in.t[p + 1]) THEN Go(s, nx, <<<<p, p + 1, Sub(l, "life")>>>> \o ce, again) ELSE Fail(s)
     ELSE IF IsIdent(in.t[p]) /\ p + 1 < r /\ in.t[p + 1] = "="
     THEN Go(s, nx, <<<<p, p, Sub(l, "bind")>>, <<p + 1, p + 1, Sub(l, "eq")>>, <<p + 2, r - 1, Sub(l, "ty")>>>> \o ce, again)
     ELSE Go(s, nx, <<<<p, r - 1, Sub(l, "expr")>>>> \o ce, again)

--------------------------------------------------------------------------
Step(in, s) ==
  LET x == Head(s.st) IN
  CASE x.s = "Attrs"       -> StepAttrs(in, s, x)
    [] x.s = "Vis"         -> StepVis(in, s, x)
    [] x.s = "Close"       -> StepClose(in, s, x)
    [] x.s = "FieldTy"     -> FieldTy(in, s, x, x.l, <<>>)
    [] x.s = "Name"        -> StepName(in, s, x)
    [] x.s = "Colon"       -> StepColon(in, s, x)
    [] x.s = "NField"      -> StepNField(in, s, x)
    [] x.s = "TField"      -> StepTField(in, s, x)
    [] x.s = "AttrBody"    -> StepAttrBody(in, s, x)
    [] x.s = "Inner"       -> StepInner(in, s, x)
    [] x.s = "Item"        -> StepItem(in, s, x)
    [] x.s = "Kind"        -> StepKind(in, s, x)
    [] x.s = "Gen"         -> StepGen(in, s, x)
    [] x.s = "GParam"      -> StepGParam(in, s, x)
    [] x.s = "Where"       -> StepWhere(in, s, x)
    [] x.s = "Pred"        -> StepPred(in, s, x)
    [] x.s = "WPred"       -> StepWPred(in, s, x)
    [] x.s = "SBody"       -> StepSBody(in, s, x)
    [] x.s = "UBody"       -> StepUBody(in, s, x)
    [] x.s = "EBody"       -> StepEBody(in, s, x)
    [] x.s = "Tuple"       -> StepTuple(in, s, x)
    [] x.s = "Named"       -> StepNamed(in, s, x)
    [] x.s = "Semi"        -> StepSemi(in, s, x)
    [] x.s = "OptSemi"     -> StepOptSemi(in, s, x)
    [] x.s = "Variant"     -> StepVariant(in, s, x)
    [] x.s = "VFields"     -> StepVFields(in, s, x)
    [] x.s = "Discr"       -> StepDiscr(in, s, x)
    [] x.s = "ListComma"   -> StepListComma(in, s, x)
    [] x.s = "Params"      -> StepParams(in, s, x)
    [] x.s = "Param"       -> StepParam(in, s, x)
    [] x.s = "ParamBody"   -> StepParamBody(in, s, x)
    [] x.s = "Ret"         -> StepRet(in, s, x)
    [] x.s = "FnEnd"       -> StepFnEnd(in, s, x)
    [] x.s = "Members"     -> StepMembers(in, s, x)
    [] x.s = "Body"        -> StepBody(in, s, x)
    [] x.s = "ModBody"     -> StepModBody(in, s, x)
    [] x.s = "TraitBound"  -> StepTraitBound(in, s, x)
    [] x.s = "ImplHead"    -> StepImplHead(in, s, x)
    [] x.s = "Const"       -> StepConst(in, s, x)
    [] x.s = "TypeBody"    -> StepTypeBody(in, s, x)
    [] x.s = "UseTree"     -> StepUseTree(in, s, x)
    [] x.s = "MacroBody"   -> StepMacroBody(in, s, x)
    [] x.s = "ExternCrate" -> StepExternCrate(in, s, x)
    [] x.s = "Path"        -> StepPath(in, s, x)
    [] x.s = "PSeg"        -> StepPSeg(in, s, x)
    [] x.s = "PArg"        -> StepPArg(in, s, x)
    [] x.s = "PEnd"        -> StepPEnd(in, s, x)

State(r) == [p |-> r.p, st |-> r.st, r |-> r.r, at |-> r.at]

--------------------------------------------------------------------------
(* Running the machine to its end: outcome and labels. *)

RECURSIVE Spread(_, _)
Spread(em, j) ==
  IF j > Len(em) THEN <<>>
  ELSE [k \in 1..(em[j][2] + 1 - em[j][1]) |-> em[j][3]] \o Spread(em, j + 1)

RECURSIVE Exec(_, _, _)
Exec(in, s, labs) ==
  IF s.r # "run" THEN [p |-> s.p, r |-> s.r, at |-> s.at, labs |-> labs]
  ELSE LET n == Step(in, s) IN Exec(in, State(n), labs \o Spread(n.em, 1))

Consume(in) == Exec(in, Start(in, "Item", "top"), <<>>)
AsPath(in)  == Exec(in, Start(in, "Path", ""), <<>>)
AsPred(in)  == Exec(in, Start(in, "Pred", ""), <<>>)

(* parse_item: no token may be left over, be it after an item or an error. *)
Whole(in, r) == IF r.r \in {"ok", "err"} /\ r.p # Len(in.t) + 1 THEN [r EXCEPT !.r = "fail"] ELSE r
ParseItem(in) == Whole(in, Consume(in))
=============================================================================

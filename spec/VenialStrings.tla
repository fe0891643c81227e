--------------------------- MODULE VenialStrings ---------------------------
(***************************************************************************)
(* All token strings of bounded length over small alphabets, put into a    *)
(* fixed context, parsed by the machine.  Where VenialGen starts from      *)
(* declarations that are meant, this starts from everything a user could   *)
(* type at a place: most of it is malformed, and none of the malformed may *)
(* be accepted by the code.                                                *)
(***************************************************************************)
EXTENDS VenialParser, VenialView, Json, TLC

CONSTANTS Tmpl, MaxLen, Random, Want

G(xs) == <<"(">> \o xs \o <<")">>
C(xs) == <<"{">> \o xs \o <<"}">>
At1(x) == <<"#", "[", x, "]">>

(* name |-> [pre, alphabet of token groups, post] *)
Tm(pre, al, post) == [pre |-> pre, al |-> al, post |-> post]

Template ==
  CASE Tmpl = "struct"  -> Tm(<<"struct">>, << <<"S">>, <<"<">>, <<">">>, <<",">>, <<":">>, <<"where">>, <<";">>, G(<<"A">>), C(<<"a", ":", "A">>), <<"'", "a">>, <<"const">>, <<"=">> >>, <<>>)
    [] Tmpl = "tail"    -> Tm(<<"struct", "S">>, << <<"T", ":", "A">>, <<"<", "T", ">">>, <<",">>, <<"where">>, <<";">>, G(<<"A", ",", "B">>), C(<<"a", ":", "A">>), <<"[", "]">>, <<"-", ">">>, <<":^", ":">> >>, <<>>)
    [] Tmpl = "named"   -> Tm(<<"struct", "S", "{">>, << <<"a">>, <<":">>, <<"A">>, <<",">>, <<"pub">>, At1("x"), <<"<">>, <<">">>, <<"-", ">">>, <<":^", ":">>, G(<<"crate">>), <<"=">> >>, <<"}">>)
    [] Tmpl = "tuple"   -> Tm(<<"struct", "S", "(">>, << <<"A">>, <<",">>, <<"pub">>, At1("x"), <<"<">>, <<">">>, <<"-", ">">>, G(<<"crate">>), <<"crate">>, <<":^", ":">>, G(<<"in", "a">>), <<":">> >>, <<")", ";">>)
    [] Tmpl = "enum"    -> Tm(<<"enum", "E", "{">>, << <<"A">>, <<",">>, <<"=">>, <<"1">>, G(<<"B">>), C(<<"b", ":", "B">>), <<"-">>, <<"pub">>, At1("x"), <<"+">> >>, <<"}">>)
    [] Tmpl = "union"   -> Tm(<<"union">>, << <<"U">>, <<"<", "T", ">">>, <<"where">>, <<"T", ":", "A">>, <<",">>, C(<<"a", ":", "A">>), G(<<"A">>), <<";">>, <<"!">>, <<"union">> >>, <<>>)
    [] Tmpl = "generics" -> Tm(<<"struct", "S", "<">>, << <<"T">>, <<"'">>, <<",">>, <<":">>, <<"A">>, <<"+">>, <<"const">>, <<"<">>, <<">">>, <<"=">>, <<"-", ">">>, G(<<"A">>) >>, <<">", ";">>)
    [] Tmpl = "where"   -> Tm(<<"enum", "E", "where">>, << <<"T">>, <<":">>, <<",">>, <<"A">>, <<"<">>, <<">">>, <<":^", ":">>, <<"'", "a">>, <<"for">>, <<"+">>, <<"-", ">">> >>, <<"{", "}">>)
    [] Tmpl = "fnhead"  -> Tm(<<>>, << <<"fn">>, <<"f">>, <<"const">>, <<"async">>, <<"unsafe">>, <<"extern">>, <<"\"C\"">>, <<"default">>, <<"(", ")">>, <<"{", "}">>, <<";">> >>, <<>>)
    [] Tmpl = "fntail"  -> Tm(<<"fn", "f">>, << <<"(", ")">>, <<"-", ">">>, <<"A">>, <<"where">>, <<":">>, <<"{", "}">>, <<";">>, <<",">>, <<"<", "T", ">">>, <<">">>, <<"=">> >>, <<>>)
    [] Tmpl = "params"  -> Tm(<<"fn", "f", "(">>, << <<"self">>, <<"&">>, <<"mut">>, <<"'", "a">>, <<":">>, <<"A">>, <<",">>, <<"a">>, At1("x"), <<"_">>, <<"-", ">">>, <<"<">>, <<">">> >>, <<")", ";">>)
    [] Tmpl = "impl"    -> Tm(<<"impl">>, << <<"A">>, <<"for">>, <<"<">>, <<">">>, <<"where">>, <<"{", "}">>, <<":">>, <<"!">>, <<",">>, <<"'", "a">>, <<";">> >>, <<>>)
    [] Tmpl = "trait"   -> Tm(<<"trait">>, << <<"T">>, <<":">>, <<"A">>, <<"+">>, <<"where">>, <<"{", "}">>, <<"<", "U", ">">>, <<";">>, <<"=">>, <<",">>, <<":^", ":">> >>, <<>>)
    [] Tmpl = "body"    -> Tm(<<"impl", "A", "{">>, << <<"fn">>, <<"f">>, <<"(", ")">>, <<";">>, <<"{", "}">>, <<"const">>, <<":">>, <<"A">>, <<"=">>, <<"1">>, <<"type">>, <<"pub">> >>, <<"}">>)
    [] Tmpl = "tbody"   -> Tm(<<"trait", "A", "{">>, << <<"struct", "S", ";">>, <<"fn", "f", "(", ")">>, <<";">>, <<"{", "}">>, <<"m">>, <<"!">>, <<"type", "T">>, <<"pub">>, At1("x"), <<"=">>, <<"A">>, <<"static">> >>, <<"}">>)
    [] Tmpl = "mod"     -> Tm(<<"mod">>, << <<"m">>, <<"{", "}">>, <<";">>, <<"{", "struct", "S", ";", "}">>, <<"{", "#", "!", "[", "x", "]", "}">>, <<"unsafe">>, <<"<", ">">>, <<"where">>, <<"(", ")">>, <<"{", "x", "}">> >>, <<>>)
    [] Tmpl = "mbody"   -> Tm(<<"mod", "m", "{">>, << <<"struct", "S">>, <<";">>, <<"{", "}">>, <<"use", "a">>, <<"#", "!", "[", "x", "]">>, At1("y"), <<"pub">>, <<"fn", "f", "(", ")">>, <<"x", "!">>, <<"enum", "E">> >>, <<"}">>)
    [] Tmpl = "const"   -> Tm(<<>>, << <<"const">>, <<"static">>, <<"mut">>, <<"A">>, <<":">>, <<"B">>, <<"=">>, <<"1">>, <<";">>, <<"_">>, <<"fn">>, <<"unsafe">> >>, <<>>)
    [] Tmpl = "ctail"   -> Tm(<<"const", "A">>, << <<":">>, <<"B">>, <<"=">>, <<"1">>, <<";">>, <<"<">>, <<">">>, <<"{", "}">>, <<"-", ">">>, <<"where">>, <<",">> >>, <<>>)
    [] Tmpl = "type"    -> Tm(<<"type">>, << <<"T">>, <<":">>, <<"A">>, <<"=">>, <<";">>, <<"<">>, <<">">>, <<"where">>, <<"+">>, <<",">>, <<"-", ">">> >>, <<>>)
    [] Tmpl = "use"     -> Tm(<<"use">>, << <<"a">>, <<":^", ":">>, <<";">>, <<"{", "b", ",", "c", "}">>, <<"*">>, <<"as">>, <<",">>, <<":">>, <<"use">>, <<"<", ">">> >>, <<>>)
    [] Tmpl = "macro"   -> Tm(<<>>, << <<"m">>, <<"!">>, <<"(", ")">>, <<"{", "x", "}">>, <<"[", "]">>, <<";">>, <<"macro_rules">>, <<":^", ":">>, <<"pub">>, At1("x") >>, <<>>)
    [] Tmpl = "extern"  -> Tm(<<"extern">>, << <<"crate">>, <<"a">>, <<"as">>, <<"_">>, <<";">>, <<"\"C\"">>, <<"{", "}">>, <<"fn">>, <<"(", ")">>, <<"self">>, <<"1">> >>, <<>>)
    [] Tmpl = "attrs"   -> Tm(<<>>, << <<"#">>, <<"!">>, <<"[", "x", "]">>, <<"[", "]">>, <<"pub">>, <<"(", "crate", ")">>, <<"crate">>, <<"struct", "S", ";">>, <<"in">>, <<"[", "x", "(", "a", ")", "]">>, <<"mod", "m", "{", "}">>, <<"impl", "A", "{", "}">> >>, <<>>)
    [] Tmpl = "attr"    -> Tm(<<"#", "[">>, << <<"x">>, <<":^", ":">>, <<"=">>, <<"1">>, <<"(", "a", ",", "b", ")">>, <<"[", "]">>, <<",">>, <<":">>, <<"{", "}">>, <<"!">>, <<"#">>, <<"/(", "x", "/)">> >>, <<"]", "struct", "S", ";">>)
    [] Tmpl = "stream"  -> Tm(<<>>, << <<"struct", "S">>, <<";">>, <<"{", "}">>, <<"m", "!">>, <<"(", ")">>, <<"fn", "f", "(", ")">>, <<"enum", "E">>, <<"use", "a">>, <<"pub">>, At1("x"), <<"impl", "A">>, <<"extern">> >>, <<>>)
    [] Tmpl = "start"   -> Tm(<<>>, << <<"struct">>, <<"enum">>, <<"union">>, <<"mod">>, <<"trait">>, <<"impl">>, <<"fn">>, <<"const">>, <<"static">>, <<"type">>, <<"use">>, <<"extern">>, <<"unsafe">>, <<"default">>,
                                     <<"async">>, <<"pub">>, <<"crate">>, <<"a">>, <<":">>, <<"=">>, <<"1">>, <<"!">>, <<";">>, <<"(", ")">>, <<"{", "}">>, <<"for">>, <<"\"C\"">>, <<"macro_rules">>, At1("x"), <<"mut">>, <<"/(", "struct", "/)">> >>, <<>>)
    [] Tmpl = "vis"     -> Tm(<<"struct", "S", "(">>, << <<"pub">>, <<"(", "crate", ")">>, <<"(", "A", ")">>, <<"(", "A", ",", "B", ")">>, <<"(", "in", "a", ":^", ":", "b", ")">>, <<"(", "self", ")">>, <<"crate">>, <<":^", ":">>, <<"A">>, <<",">>, <<"(", "super", ")">>, <<"(", "in", ")">>, <<"(", ")">>, <<"[", "crate", "]">>, <<"(", "super", ":^", ":", "A", ")">>, <<"(", "crate", "A", ")">> >>, <<")", ";">>)
    [] Tmpl = "angle"   -> Tm(<<"struct", "S", "(">>, << <<"A">>, <<"<">>, <<">">>, <<"-">>, <<",">>, <<"=">>, <<"(", "B", ",", "C", ")">> >>, <<")", ";">>)
    [] Tmpl = "ret"     -> Tm(<<"fn", "f", "(", ")", "-", ">">>, << <<"A">>, <<"<">>, <<">">>, <<"-">>, <<",">>, <<"where">>, <<"{", "}">>, <<";">>, <<"impl">>, <<"T", ":">> >>, <<>>)
    [] Tmpl = "path"    -> Tm(<<>>, << <<"A">>, <<":^", ":">>, <<"<">>, <<">">>, <<",">>, <<"'", "a">>, <<"=">>, <<"1">>, <<"(", ")">>, <<"&">>, <<"/(", "A", "/)">>, <<":">> >>, <<>>)
    [] Tmpl = "ipath"   -> Tm(<<"/(">>, << <<"A">>, <<":^", ":">>, <<"<">>, <<">">>, <<",">>, <<"=">>, <<"/(", "A", "/)">>, <<"(", ")">> >>, <<"/)">>)
    [] Tmpl = "pathargs" -> Tm(<<"A", "<">>, << <<"B">>, <<"<">>, <<">">>, <<",">>, <<"'", "a">>, <<"=">>, <<":^", ":">>, <<"-">>, <<"{", "1", "}">>, <<"&">>, <<"dyn">> >>, <<">">>)
    [] Tmpl = "pred"    -> Tm(<<>>, << <<"T">>, <<":">>, <<":^", ":">>, <<",">>, <<"A">>, <<"<">>, <<">">>, <<"'", "a">>, <<"{", "}">>, <<";">>, <<"-", ">">>, <<"+">>, <<"(", "A", ",", "B", ")">>, <<"/(", "A", ":", "B", "/)">>, <<"for">>, <<":^">>, <<"-">>, <<"=">> >>, <<>>)

IsPath == Tmpl \in {"path", "ipath", "pathargs"}

VARIABLES w, n, out
vars == <<w, n, out>>

Sentence == Template.pre \o w \o Template.post
Res(in) == CASE IsPath -> AsPath(in) [] Tmpl = "pred" -> AsPred(in) [] OTHER -> Consume(in)
Entry == CASE IsPath -> "path" [] Tmpl = "pred" -> "pred" [] OTHER -> "item"

Init == w = <<>> /\ n = 0 /\ out = [r |-> "gen"]

Grow == /\ n < MaxLen
        /\ out.r = "gen"
        /\ \E j \in (IF Random THEN {RandomElement(1..Len(Template.al))} ELSE 1..Len(Template.al)) : w' = w \o Template.al[j]
        /\ n' = n + 1
        /\ UNCHANGED out

Parse == /\ out.r = "gen"
         /\ Random => n = MaxLen
         /\ LET in == Input(Sentence)  res == Res(in) IN
            /\ out' = res
            /\ PrintT(ToJson(Report(in, res, Want, Entry)))
         /\ UNCHANGED <<w, n>>

Next == Grow \/ Parse
Spec == Init /\ [][Next]_vars

Lossless == out.r = "ok" => Len(out.labs) = out.p - 1
(* The machine always comes to a verdict. *)
Decided == out.r \in {"gen", "ok", "err", "fail", "none"}
=============================================================================

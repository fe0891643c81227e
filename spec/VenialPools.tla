---------------------------- MODULE VenialPools ----------------------------
(***************************************************************************)
(* Pools of token sequences for the opaque parts of declarations.          *)
(***************************************************************************)
EXTENDS Sequences

(* Types.  No top-level comma, brace, semicolon, `=`, `where` or `for` keyword may stand outside of brackets, except where a position allows it. *)
Types == <<
   <<"i32">>,
   <<"Vec", "<", "A", ",", "B", ">">>,
   <<"Foo", "<", "Bar", "<", "A", ",", "B", ">", ",", "C", ">">>,
   <<"&", "'", "a", "mut", "T">>,
   <<"fn", "(", "A", ",", "B", ")", "-", ">", "C">>,
   <<"dyn", "Fn", "(", "A", ")", "-", ">", "B">>,
   <<"[", "T", ";", "1", "]">>,
   <<"(", "A", ",", "B", ")">>,
   <<"a", ":^", ":", "b", ":^", ":", "C">>,
   <<"Vec", "<", "Vec", "<", "A", ">", ">">>,
   <<"<", "T", "as", "Tr", ">", ":^", ":", "X">>,
   <<"impl", "Fn", "(", ")", "-", ">", "Vec", "<", "A", ",", "B", ">">>,
   <<"!">>,
   <<"*", "const", "T">>,
   <<"/(", "&", "T", "/)">>,
   <<"Foo", "<", "'", "a", ",", "Item", "=", "B", ",", "1", ">">>,
   <<"Foo", "<", "{", "N", "}", ",", "A", ">">>,
   <<"crate", ":^", ":", "Foo">>,
   <<"(", ")">>,
   <<"A", "<", "fn", "(", ")", "-", ">", "B", ",", "C", ">">>,
   <<"Box", "<", "dyn", "FnMut", "(", "&", "str", ",", "A", ")", "-", ">", "Result", "<", "A", ",", "B", ">", "+", "Send", ">">>,
   <<"r#struct">>,
   <<"[", "u8", "]">>,
   <<"A", "<", "B", "<", "C", "<", "D", "<", "E", ",", "F", ">", ">", ">", ",", "G", ">">>,
   <<"for", "<", "'", "a", ">", "fn", "(", "&", "'", "a", "A", ")", "-", ">", "&", "'", "a", "B">>,
   <<"_">>,
   <<"m", "!", "(", "a", ",", "b", ")">>,
   <<"A", "<", "{", "a", ">", "b", "}", ">">>,
   <<"/(", "A", "<", "B", ",", "C", ">", "/)">>,
   <<"union">>,
   <<"default">>,
   <<"A", ":^", ":", "<", "B", ",", "C", ">">>,
   <<"fn", "(", ")", "-", ">", "fn", "(", ")", "-", ">", "A", "<", "B", ",", "C", ">">>,
   <<"A", "<", "B", "=", "fn", "(", ")", "-", ">", "C", ",", "D", ">">>,
   <<"Fn", "(", "A", ")", "-", ">", "B">> >>

(* Bounds *)
Bounds == <<
   <<"Clone">>,
   <<"A", "+", "B">>,
   <<"Fn", "(", "A", ",", "B", ")", "-", ">", "C">>,
   <<"Iterator", "<", "Item", "=", "(", "A", ",", "B", ")", ">">>,
   <<"'", "a">>,
   <<"?", "Sized", "+", "A", "<", "B", "<", "C", ">", ">">>,
   <<>>,
   <<"for", "<", "'", "a", ">", "Fn", "(", "&", "'", "a", "X", ")", "-", ">", "Y", "<", "Z", ",", "W", ">">>,
   <<"A", "<", "{", "N", "}", ">">>,
   <<"a", ":^", ":", "b", ":^", ":", "C", "<", "D", ">">>,
   <<"'", "a", "+", "'", "b">>,
   <<"Fn", "(", ")", "-", ">", "A", "+", "Send">>,
   <<"~", "const", "Tr">>,
   <<"(", "A", ")">>,
   <<"Fn", "(", ")", "-", ">", "Fn", "(", ")", "-", ">", "A", "<", "B", ",", "C", ">">>,
   <<"FnOnce", "(", ")", "-", ">", "[", "u8", ";", "1", "]">>,
   <<"A", "<", "B", ",", "C", "<", "D", ",", "E", ">", ">">>,
   <<"for", "<", "'", "a", ",", "'", "b", ">", "Tr", "<", "'", "a", ",", "'", "b", ">">> >>

(* Types (and defaults) of const parameters *)
ConstTys == <<
   <<"usize">>,
   <<"bool", "=", "true">>,
   <<"u8", "=", "1">>,
   <<"[", "u8", ";", "1", "]">>,
   <<"Foo", "<", "A", ",", "B", ">">>,
   <<"u8", "=", "{", "a", "+", "b", "}">>,
   <<"char", "=", "'x'">> >>

(* Left sides of where predicates *)
Lefts == <<
   <<"T">>,
   <<"T", ":^", ":", "Item">>,
   <<"for", "<", "'", "a", ">", "F">>,
   <<"'", "a">>,
   <<"<", "T", "as", "Tr", ">", ":^", ":", "X">>,
   <<"Vec", "<", "T", ">">>,
   <<"(", "A", ",", "B", ")">>,
   <<"[", "T", ";", "{", "N", "}", "]">>,
   <<"&", "'", "a", "T">>,
   <<"T", ":^", ":", "Item", ":^", ":", "Y">>,
   <<"Vec", "<", "T", ":^", ":", "Item", ",", "fn", "(", ")", "-", ">", "A", ":^", ":", "B", ">">>,
   <<"a", ":^", ":", "b", ":^", ":", "C", "<", "D", ">">>,
   <<"fn", "(", "A", ":", "B", ")", "-", ">", "C">>,
   <<"<", "T", "as", "a", ":^", ":", "Tr", "<", "B", ":", "C", ">", ">", ":^", ":", "X">>,
   <<"r#where">>,
   <<"Self">>,
   <<"/(", "T", "/)">> >>

(* Initializer expressions *)
Inits == <<
   <<"1">>,
   <<"a", "+", "b">>,
   <<"a", "<", "b">>,
   <<"1", "<", "<", "3">>,
   <<"f", "(", "a", ";", "b", ")">>,
   <<"{", "a", ";", "b", "}">>,
   <<"a", ">", "b">>,
   <<"-", "1">>,
   <<"&", "[", "1", ",", "2.5", "]">>,
   <<"Foo", "{", "a", ":", "b", "}">>,
   <<"x", "as", "Vec", "<", "A", ">">>,
   <<"|", "a", ",", "b", "|", "a", "-", ">", "b">>,
   <<"\"C\"">>,
   <<"if", "a", "{", "b", "}", "else", "{", "c", "}">>,
   <<"a", ".", "b", ":^", ":", "<", "C", ">", "(", ")">>,
   <<"a", "=", "=", "b">>,
   <<"[", "1", ";", "2.5", "]">>,
   <<"match", "a", "{", "b", "=", ">", "c", ",", "}">>,
   <<"/(", "a", "/)">>,
   <<"a", ">", ">", "1", ">", "=", "b">>,
   <<"fn">> >>

(* Import trees *)
Trees == <<
   <<"a">>,
   <<"a", ":^", ":", "b">>,
   <<"a", ":^", ":", "{", "b", ",", "c", ":^", ":", "*", "}">>,
   <<"a", "as", "b">>,
   <<":^", ":", "a", ":^", ":", "b", "as", "_">>,
   <<"crate", ":^", ":", "a">>,
   <<"a", ":^", ":", "*">>,
   <<"{", "a", ",", "b", ":^", ":", "{", "self", ",", "c", "}", "}">>,
   <<"*">>,
   <<"self", ":^", ":", "union">>,
   <<"r#fn", ":^", ":", "r#struct">> >>

(* Arbitrary tokens: macro bodies, attribute values, function bodies *)
Junk == <<
   <<>>,
   <<"a">>,
   <<"$", "a", ":", "expr", "=", ">", "{", "b", ";", "c", "}">>,
   <<"(", "$", "(", "$", "x", ":", "tt", ")", ",", "*", ")", "=", ">", "{", "}">>,
   <<";", ";", ",">>,
   <<"a", ",", "b", "<", "c">>,
   <<"#", "[", "a", "]", "b">>,
   <<"/(", "/)">>,
   <<"'", "a", "'x'", "1">>,
   <<"-", ">", "<", "=">>,
   <<"fn", "struct", "where", "for">>,
   <<"{", "}", "[", "]", "(", ")">> >>

(* Attribute paths *)
AttrPaths == <<
   <<"a">>,
   <<"derive">>,
   <<"a", ":^", ":", "b">>,
   <<"unsafe">>,
   <<"crate", ":^", ":", "x">>,
   <<":^", ":", "a", ":^", ":", "b", ":^", ":", "c">>,
   <<"r#type">>,
   <<"doc">> >>

(* Names of items, fields, variants, parameters *)
Names == <<
   <<"x">>,
   <<"Foo">>,
   <<"union">>,
   <<"default">>,
   <<"r#struct">>,
   <<"r#where">>,
   <<"auto">>,
   <<"macro_rules">>,
   <<"r#fn">>,
   <<"r#for">>,
   <<"_">>,
   <<"safe">>,
   <<"r#in">>,
   <<"async1">>,
   <<"dyn">>,
   <<"T">> >>

(* Visibility restrictions *)
Visr == <<
   <<"(", "crate", ")">>,
   <<"(", "self", ")">>,
   <<"(", "super", ")">>,
   <<"(", "in", "a", ":^", ":", "b", ")">>,
   <<"(", "in", "crate", ")">> >>

(* One-tree discriminants *)
Values == <<
   <<"1">>,
   <<"a">>,
   <<"(", "a", "+", "b", ")">>,
   <<"\"C\"">>,
   <<"{", "a", ";", "b", "}">>,
   <<"[", "1", "]">>,
   <<"/(", "-", "1", "/)">>,
   <<"'x'">>,
   <<"2.5">>,
   <<"r#fn">> >>

(* Discriminants of more than one tree *)
BadValues == <<
   <<"-", "1">>,
   <<"a", "+", "b">>,
   <<"(", "a", ")", "+", "1">>,
   <<"a", ":^", ":", "b">>,
   <<"1", "<", "<", "2">>,
   <<"f", "(", "x", ")">>,
   <<"a", "{", "}">>,
   <<"!", "a">> >>

(* Return types *)
RetTys == <<
   <<"A">>,
   <<"Vec", "<", "A", ",", "B", ">">>,
   <<"impl", "Fn", "(", "A", ")", "-", ">", "B">>,
   <<"(", ")">>,
   <<"!">>,
   <<"[", "u8", ";", "{", "N", "}", "]">>,
   <<"Foo", "<", "{", "N", "}", ">">>,
   <<"dyn", "Fn", "(", ")", "-", ">", "A", "<", "B", ">">>,
   <<"fn", "(", ")", "-", ">", "fn", "(", ")", "-", ">", "C">>,
   <<"&", "'", "a", "mut", "T">>,
   <<"Result", "<", "Vec", "<", "A", ">", ",", "B", ">">>,
   <<"a", ":^", ":", "b">>,
   <<"<", "T", "as", "Tr", ">", ":^", ":", "X">>,
   <<"/(", "T", "/)">>,
   <<"impl", "for", "<", "'", "a", ">", "Fn", "(", "&", "'", "a", "A", ")">>,
   <<"Foo", "<", "Item", "=", "A", ",", "1", ">">>,
   <<"m", "!", "(", ")">> >>

(* Implemented traits *)
ImplTraits == <<
   <<"Tr">>,
   <<"!", "Send">>,
   <<"Tr", "<", "A", ",", "B", ">">>,
   <<"a", ":^", ":", "Tr">>,
   <<"Tr", "<", "fn", "(", ")", "-", ">", "A", ">">>,
   <<"const", "Tr">>,
   <<"Tr", "<", "{", "N", "}", ">">>,
   <<"?", "Tr">>,
   <<"Tr", "<", "Item", "=", "Vec", "<", "A", ">", ">">>,
   <<"/(", "Tr", "/)">> >>

(* Self types of impl blocks (a leading `for` is only possible after `for`) *)
SelfTys == <<
   <<"S">>,
   <<"S", "<", "T", ",", "U", ">">>,
   <<"&", "'", "a", "mut", "T">>,
   <<"(", "A", ",", "B", ")">>,
   <<"[", "T", ";", "{", "N", "}", "]">>,
   <<"fn", "(", "A", ")", "-", ">", "B">>,
   <<"dyn", "Tr", "+", "Send">>,
   <<"a", ":^", ":", "S", "<", "{", "N", "}", ">">>,
   <<"*", "const", "T">>,
   <<"for", "<", "'", "a", ">", "fn", "(", "&", "'", "a", "A", ")", "-", ">", "B">>,
   <<"<", "T", "as", "Tr", ">", ":^", ":", "X">>,
   <<"/(", "S", "/)">>,
   <<"!">> >>

(* Types that are paths *)
PathTys == <<
   <<"A">>,
   <<"a", ":^", ":", "b">>,
   <<":^", ":", "a", ":^", ":", "b">>,
   <<"Vec", "<", "A", ",", "B", ">">>,
   <<"Vec", ":^", ":", "<", "A", ">">>,
   <<"a", ":^", ":", "B", "<", "C", ">", ":^", ":", "D">>,
   <<"R", "<", "'", "a", ">">>,
   <<"R", "<", "'", "a", ",", "T", ",", ">">>,
   <<"I", "<", "Item", "=", "a", ":^", ":", "B", ">">>,
   <<"A", "<", "1", ">">>,
   <<"A", "<", ">">>,
   <<"A", "<", "Vec", "<", "B", ",", "C", ">", ",", "D", ">">>,
   <<"/(", "a", ":^", ":", "B", "<", "C", ">", "/)">>,
   <<"A", "<", "I", "=", "Vec", "<", "B", ",", "C", ">", ",", "D", ",", ">">>,
   <<"A", "<", "fn", "(", ")", "-", ">", "B", ",", "C", ">">>,
   <<"A", "<", "{", "N", "}", ",", "[", "u8", ";", "1", "]", ">">>,
   <<"Self", ":^", ":", "T">>,
   <<"crate", ":^", ":", "A", ":^", ":", "<", "'", "a", ",", "B", "=", "C", ",", "1", ">">>,
   <<"r#type">>,
   <<"A", "<", "B", ">", ":^", ":", "C", ":^", ":", "<", "D", ">", ":^", ":", "E">>,
   <<"A", "<", "&", "T", ",", "(", "B", ",", "C", ")", ">">>,
   <<"A", "<", "a", ":^", ":", "B", "=", "C", ">">>,
   <<"A", "<", "B", "<", "I", "=", "C", ">", ",", "D", ">">>,
   <<"A", "<", "'", "static", ">">>,
   <<"std", ":^", ":", "collections", ":^", ":", "HashMap", "<", "K", ",", "Vec", "<", "V", ">", ">">>,
   <<"A", "<", "-", "1", ">">>,
   <<"A", "<", "I", "=", "fn", "(", ")", "-", ">", "B", ",", "C", ">">> >>

(* Types that are not paths *)
NonPathTys == <<
   <<"&", "T">>,
   <<"(", "A", ")">>,
   <<"[", "T", "]">>,
   <<"<", "T", "as", "Tr", ">", ":^", ":", "X">>,
   <<"fn", "(", "A", ")", "-", ">", "B">>,
   <<"dyn", "A">>,
   <<"A", "+", "B">>,
   <<"!">>,
   <<"A", ":^", ":">>,
   <<"A", ":", "b">>,
   <<"/(", "A", "/)", ":^", ":", "B">>,
   <<"Fn", "(", "A", ")", "-", ">", "B">>,
   <<"*", "const", "T">>,
   <<"A", "<", "B", ">", "C">>,
   <<"a", ":", ":", "b">>,
   <<":^", ":">>,
   <<"A", ":^", ":", "<", "B", ">", ":^", ":">>,
   <<"m", "!", "(", ")">>,
   <<"1">>,
   <<"/(", "&", "T", "/)">>,
   <<"/(", "/(", "A", "/)", "/)">>,
   <<"'", "a">>,
   <<"impl", "A", "<", "B", ">">>,
   <<"A", ",", "B">>,
   <<"{", "N", "}">>,
   <<"(", ")">>,
   <<"a", ".", "b">>,
   <<"A", ":^", ":", "1">> >>
(* Abi strings, aliases and names declared by macros *)
Abis == << <<"\"C\"">>, <<"\"system\"">>, <<"\"C-unwind\"">>, <<"r\"w\"">>, <<"\"\"">> >>
Aliases == << <<"b">>, <<"_">>, <<"std">>, <<"r#as">>, <<"union">>, <<"self_">> >>
Declared == << <<"my_macro">>, <<"r#fn">>, <<"union">>, <<"foo">>, <<"macro_rules">>, <<"default">> >>
LifeNames == << <<"a">>, <<"static">>, <<"_">>, <<"r#where">>, <<"b">> >>

(* Names spelled like keywords of the parser, and other unusual identifiers *)
RareNames == <<
   <<"r#mut">>,
   <<"r#pub">>,
   <<"r#unsafe">>,
   <<"r#const">>,
   <<"r#static">>,
   <<"r#extern">>,
   <<"r#type">>,
   <<"r#enum">>,
   <<"r#mod">>,
   <<"r#trait">>,
   <<"r#impl">>,
   <<"r#use">>,
   <<"r#async">>,
   <<"r#as">>,
   <<"r#dyn">>,
   <<"r#union">>,
   <<"r#default">>,
   <<"r#macro_rules">>,
   <<"raw">>,
   <<"x1">>,
   <<"__x">>,
   <<"r#let">>,
   <<"r#ref">>,
   <<"r#if">>,
   <<"r#match">>,
   <<"pubx">>,
   <<"crate_">>,
   <<"self_">>,
   <<"Selfish">>,
   <<"structs">>,
   <<"a_very_long_identifier_that_goes_on_and_on_and_on_0123456789">> >>

(* Types of less usual form *)
RareTypes == <<
   <<"A", "<", "-", "1", ">">>,
   <<"A", "<", "-", "1", ",", "B", ">">>,
   <<"Foo", "<", "<", "<", "T", "as", "A", ">", ":^", ":", "B", "as", "C", ">", ":^", ":", "D", ",", "E", ">">>,
   <<"<", "<", "T", "as", "A", ">", ":^", ":", "B", "as", "C", ">", ":^", ":", "D">>,
   <<"dyn", "for", "<", "'", "a", ">", "Fn", "(", "&", "'", "a", "A", ")", "-", ">", "B">>,
   <<"impl", "A", "+", "'", "a">>,
   <<"&", "'", "static", "[", "&", "'", "static", "str", "]">>,
   <<"*", "mut", "T">>,
   <<"extern", "\"C\"", "fn", "(", "A", ",", ".", ".", ".", ")", "-", ">", "B">>,
   <<"unsafe", "fn", "(", ")">>,
   <<"A", "<", "B", ">", ":^", ":", "C", "<", "D", ",", "E", ">">>,
   <<"Self">>,
   <<"Self", ":^", ":", "X">>,
   <<":^", ":", "a", ":^", ":", "B", "<", "C", ">">>,
   <<"A", "<", "'", "static", ">">>,
   <<"A", "<", ">">>,
   <<"dyn", "A", "<", "B", ",", "C", ">", "+", "'", "a">>,
   <<"(", "A", "<", "B", ",", "C", ">", ",", ")">>,
   <<"A", "<", "dyn", "B", "<", "C", ",", "D", ">", "+", "E", ",", "F", ">">>,
   <<"fn", "(", "fn", "(", ")", "-", ">", "A", ")", "-", ">", "fn", "(", ")", "-", ">", "B">>,
   <<"A", "<", "\"C\"", ">">>,
   <<"A", "<", "[", "u8", ";", "1", "]", ",", "(", "B", ",", "C", ")", ">">>,
   <<"(", "crate", ":^", ":", "A", ")">>,
   <<"(", "self", ":^", ":", "A", ",", "B", ")">>,
   <<"(", "super", ":^", ":", "A", ")">>,
   <<"r#pub">>,
   <<"r#crate_">>,
   <<"A", "<", "{", "-", "1", "}", ",", "B", ">">>,
   <<"A", "<", "B", ",", ">">>,
   <<"[", "A", "<", "B", ",", "C", ">", ";", "2", "]">>,
   <<"&", "&", "T">>,
   <<"&", "mut", "dyn", "A">>,
   <<"A", "<", "B", ":", "C", ">">>,
   <<"A", "<", "-", "1", ",", "-", "2", ">">>,
   <<"A", "<", "B", "<", "-", "1", ">", ",", "C", ">">>,
   <<"fn", "(", "A", ")", "-", ">", "B", "<", "C", ",", "D", ">">>,
   <<"A", "<", "<", "T", ">", ":^", ":", "B", ",", "C", ">">>,
   <<"mut_">>,
   <<"where_">> >>

(* Bounds of less usual form *)
RareBounds == <<
   <<"?", "Sized">>,
   <<"'", "static">>,
   <<"A", "<", "-", "1", ">">>,
   <<"A", "<", "-", "1", ",", "B", ">">>,
   <<"A", "+", "?", "Sized", "+", "'", "a">>,
   <<"a", ":^", ":", "B", "<", "C", "=", "D", ">", "+", "'", "static">>,
   <<"Fn", "(", "A", ")", "-", ">", "B", "<", "C", ",", "D", ">">>,
   <<"!", "A">>,
   <<"(", "for", "<", "'", "a", ">", "Fn", "(", "&", "'", "a", "A", ")", ")">>,
   <<"FnOnce", "(", "A", ",", "B", ")", "-", ">", "(", "C", ",", "D", ")", "+", "E">>,
   <<"Tr", "<", "fn", "(", ")", "-", ">", "A", ">">>,
   <<"A", "+">>,
   <<"A", "<", "B", ",", ">", "+", "C">>,
   <<":^", ":", "a", ":^", ":", "B">>,
   <<"for", "<", "'", "a", ">", "A", "<", "'", "a", ">", "+", "for", "<", "'", "b", ">", "B", "<", "'", "b", ">">>,
   <<"r#where">>,
   <<"A", "<", "<", "T", "as", "B", ">", ":^", ":", "C", ",", "D", ">">>,
   <<"Fn", "(", ")", "-", ">", "&", "'", "a", "mut", "A">>,
   <<"A", "<", "{", "1", "}", ",", "B", ">">>,
   <<"r#for">>,
   <<"A", "<", "B", "<", "C", "<", "D", "<", "E", ">", ">", ">", ">", "+", "F">> >>

(* Initializers of less usual form *)
RareInits == <<
   <<"!", "0">>,
   <<"&", "mut", "A">>,
   <<"a", "&", "&", "b">>,
   <<"a", ".", ".", "b">>,
   <<".", ".">>,
   <<"a", "as", "u8", ">", ">", "1">>,
   <<"<", "A", "as", "B", ">", ":^", ":", "C">>,
   <<"A", ":^", ":", "<", "B", ",", "C", ">", ":^", ":", "new", "(", ")">>,
   <<"unsafe", "{", "a", "}">>,
   <<"b'x'">>,
   <<"r\"where\"">>,
   <<"|", "|", "-", ">", "A", "{", "b", "}">>,
   <<"loop", "{", "break", "}">>,
   <<"'", "a", ":", "loop", "{", "}">>,
   <<"for", "a", "in", "b", "{", "}">>,
   <<"S", "{", "a", ",", ".", ".", "b", "}">>,
   <<"a", "?">>,
   <<"1", ".", ".", "=", "2">>,
   <<"a", "-", ">", "b">>,
   <<"a", ">", "=", "b">>,
   <<"a", "<", "=", "b">>,
   <<"a", ",", "b">>,
   <<"where">>,
   <<"a", ":^", ":", "<", "b">>,
   <<">", ">">>,
   <<"-", ">", "-", ">">>,
   <<"=", "=", "=">>,
   <<"fn", "(", ")", "-", ">", "A">>,
   <<"#", "[", "a", "]", "b">>,
   <<"$", "a">>,
   <<"0xFF_u8">>,
   <<"1e3">>,
   <<"c\"z\"">>,
   <<"br\"q\"">>,
   <<"'\\n'">>,
   <<"{", "}", "{", "}">>,
   <<"r#fn">>,
   <<"a", "@", "b">>,
   <<"~", "a">>,
   <<"a", "^", "b", "%", "c">> >>

(* Import trees of less usual form *)
RareTrees == <<
   <<"a", ":^", ":", "{", "b", "as", "c", ",", "d", ":^", ":", "*", "}">>,
   <<"a", ":^", ":", "{", "self", "}">>,
   <<":^", ":", "std">>,
   <<"super", ":^", ":", "super", ":^", ":", "a">>,
   <<"a", "as", "r#as">>,
   <<"crate">>,
   <<"a", ":^", ":", "{", "}">>,
   <<"{", "}">>,
   <<":^", ":", "{", "a", ",", "b", "}">>,
   <<"a", ":^", ":", "{", "b", ":^", ":", "{", "c", ",", "d", ":^", ":", "{", "e", "}", "}", ",", "}">>,
   <<"self">>,
   <<"a", ":^", ":", "b", ":^", ":", "c", ":^", ":", "d", ":^", ":", "e">>,
   <<"r#use">>,
   <<":^", ":", "*">>,
   <<"a", ":^", ":", "{", "*", ",", "_", "}">>,
   <<"a", "as", "_">> >>

(* Tokens of all sorts *)
RareJunk == <<
   <<"~", "!", "@", "$", "%", "^", "&", "*", "-", "=", "+", "/", "<", ",", ".", ">", "?", ":", ";">>,
   <<":^", ":", "a", ":^", ":", "<", "b", ">">>,
   <<"$", "crate", ":^", ":", "m", "!", "{", "}">>,
   <<"0xFF_u8", "1e3", "c\"z\"", "br\"q\"", "'\\n'", "b'x'", "r\"w\"", "\"\"">>,
   <<"(", "[", "{", "/(", "a", "/)", "}", "]", ")">>,
   <<"'", "static", "'", "a">>,
   <<"r#fn", "r#struct">>,
   <<"pub", "(", "crate", ")", "fn", "f", "(", ")", "-", ">", "A", "where">>,
   <<"=", "=", "=", ">", "<", "-", "<", "<">>,
   <<"#", "!", "[", "a", "]">>,
   <<";">>,
   <<",">>,
   <<":">>,
   <<"=">>,
   <<"(", ")">>,
   <<"{", "}">>,
   <<"[", "]">>,
   <<"a", "=", "b">>,
   <<"!", "(", ")">>,
   <<"(", "a", ")", "(", "b", ")">>,
   <<"/(", "a", "/)", "/(", "b", "/)">>,
   <<"_">> >>

(* Attribute paths of less usual form *)
RareAttrPaths == <<
   <<":^", ":", "a">>,
   <<"a", ":^", ":", "b", ":^", ":", "c", ":^", ":", "d">>,
   <<"r#struct", ":^", ":", "x">>,
   <<"self", ":^", ":", "a">>,
   <<"cfg_attr">>,
   <<"path">>,
   <<"pub">>,
   <<"struct">>,
   <<":^", ":", "r#a">>,
   <<"super", ":^", ":", "super", ":^", ":", "b">> >>

(* Visibility restrictions of less usual form *)
RareVisr == <<
   <<"(", "in", "super", ":^", ":", "super", ")">>,
   <<"(", "in", "self", ":^", ":", "a", ")">>,
   <<"(", "in", ":^", ":", "a", ")">>,
   <<"(", "in", "r#fn", ")">>,
   <<"(", "in", "a", ")">> >>

(* One-tree discriminants of less usual form *)
RareValues == <<
   <<"0xFF_u8">>,
   <<"b'x'">>,
   <<"\"\"">>,
   <<"(", ")">>,
   <<"[", "]">>,
   <<"{", "}">>,
   <<"/(", "/)">>,
   <<"_">>,
   <<"r\"w\"">>,
   <<"(", "-", "1", ")">>,
   <<"{", "[", "(", "a", ",", "b", ")", "]", "}">>,
   <<"1e3">>,
   <<"self">>,
   <<"fn">>,
   <<"/(", "a", ":^", ":", "b", "/)">> >>

(* More discriminants of more than one tree *)
RareBadValues == <<
   <<"&", "a">>,
   <<"a", "(", ")">>,
   <<"a", "[", "0", "]">>,
   <<"1", "as", "u8">>,
   <<"{", "}", "{", "}">>,
   <<"/(", "-", "1", "/)", "+", "1">>,
   <<"a", ".", "b">>,
   <<":", "a">>,
   <<":^", ":", "a">>,
   <<"a", ";">>,
   <<"=", "1">>,
   <<"a", "=", "b">>,
   <<"*", "a">>,
   <<"!", "(", ")">>,
   <<"m", "!", "(", ")">>,
   <<"(", ")", "(", ")">>,
   <<"\"C\"", "\"C\"">>,
   <<"'", "a">>,
   <<"a", "b">>,
   <<"<", "a", ">", ":^", ":", "b">>,
   <<"-", "(", "1", ")">>,
   <<"a", "<", "b", ",", "c", ">">> >>

(* Return types of less usual form *)
RareRetTys == <<
   <<"A", "<", "-", "1", ">">>,
   <<"A", "<", "-", "1", ",", "B", ">">>,
   <<"impl", "A", "+", "'", "a">>,
   <<"Self">>,
   <<"Self", ":^", ":", "X", "<", "A", ">">>,
   <<"*", "const", "T">>,
   <<"(", "A", ",", "B", "<", "C", ",", "D", ">", ")">>,
   <<"extern", "\"C\"", "fn", "(", ")", "-", ">", "A">>,
   <<"[", "A", ";", "{", "B", "}", "]">>,
   <<"&", "'", "static", "mut", "[", "A", "]">>,
   <<"A", "<", "fn", "(", ")", "-", ">", "B", ",", "C", ">">>,
   <<"fn", "(", ")", "-", ">", "A", "<", "fn", "(", ")", "-", ">", "B", ",", "C", ">">>,
   <<"dyn", "A", "+", "B">>,
   <<":^", ":", "a", ":^", ":", "B">>,
   <<"r#where">>,
   <<"r#fn">>,
   <<"A", "<", ">">>,
   <<"impl", "Fn", "(", "A", ")", "-", ">", "impl", "Fn", "(", "B", ")", "-", ">", "C">>,
   <<"A", "<", "{", "a", "}", ",", "{", "b", "}", ">">>,
   <<"Result", "<", "(", ")", ",", "Box", "<", "dyn", "A", ">", ">">>,
   <<"_">>,
   <<"A", "<", "B", "<", "C", "<", "D", "<", "E", ",", "F", ">", ",", "G", ">", ",", "H", ">", ",", "I", ">">> >>

(* Implemented traits of less usual form *)
RareImplTraits == <<
   <<"!", "Tr", "<", "A", ">">>,
   <<":^", ":", "a", ":^", ":", "Tr">>,
   <<"Tr", "<", "-", "1", ">">>,
   <<"Tr", "<", "-", "1", ",", "A", ">">>,
   <<"~", "const", "Tr">>,
   <<"Tr", "<", "'", "a", ",", "dyn", "A", "+", "'", "a", ">">>,
   <<"r#for">>,
   <<"Fn", "(", "A", ")", "-", ">", "B">>,
   <<"Tr", "<", "<", "A", "as", "B", ">", ":^", ":", "C", ",", "D", ">">>,
   <<"!", ":^", ":", "a", ":^", ":", "Tr">>,
   <<"Tr", "<", ">">>,
   <<"Tr", "<", "[", "A", ";", "{", "B", "}", "]", ">">>,
   <<"a", ":^", ":", "b", ":^", ":", "Tr", "<", "A", ">", ":^", ":", "C">>,
   <<"const", "a", ":^", ":", "Tr", "<", "B", ">">> >>

(* Self types of less usual form *)
RareSelfTys == <<
   <<"&", "A">>,
   <<"Self">>,
   <<"Box", "<", "dyn", "Fn", "(", "A", ")", "-", ">", "B", "+", "Send", ">">>,
   <<"A", "<", "-", "1", ">">>,
   <<"A", "<", "-", "1", ",", "B", ">">>,
   <<":^", ":", "a", ":^", ":", "S">>,
   <<"r#for">>,
   <<"r#where">>,
   <<"extern", "\"C\"", "fn", "(", "A", ")", "-", ">", "B">>,
   <<"unsafe", "fn", "(", ")">>,
   <<"(", ")">>,
   <<"[", "T", "]">>,
   <<"A", "<", "{", "N", "}", ",", "{", "M", "}", ">">>,
   <<"dyn", "Tr", "<", "A", ",", "B", ">">>,
   <<"A", "<", "fn", "(", ")", "-", ">", "B", ",", "C", ">">>,
   <<"&", "mut", "[", "A", ";", "2", "]">>,
   <<"A", ":^", ":", "<", "B", ">", ":^", ":", "C">>,
   <<"impl", "Tr">>,
   <<"m", "!", "(", ")">>,
   <<"A", "<", "'", "static", ">">> >>

(* Left sides of predicates of less usual form *)
RareLefts == <<
   <<"A", "<", "-", "1", ">">>,
   <<"A", "<", "-", "1", ",", "B", ">">>,
   <<"for", "<", "'", "a", ",", "'", "b", ">", "&", "'", "a", "T">>,
   <<":^", ":", "a", ":^", ":", "B">>,
   <<"Self", ":^", ":", "X">>,
   <<"&", "mut", "T">>,
   <<"*", "const", "T">>,
   <<"[", "T", "]">>,
   <<"(", ")">>,
   <<"dyn", "Tr", "<", "A", ">">>,
   <<"fn", "(", ")", "-", ">", "A">>,
   <<"<", "<", "T", "as", "A", ">", ":^", ":", "B", "as", "C", ">", ":^", ":", "D">>,
   <<"r#for">>,
   <<"A", "<", "{", "N", "}", ",", "B", ">">>,
   <<"impl", "Tr">>,
   <<"!">>,
   <<"A", "<", "B", ":", "C", ",", "D", ">">>,
   <<"A", "<", "B", ">", ":^", ":", "C", "<", "D", ">", ":^", ":", "E">>,
   <<"T", ":^", ":", "r#where">>,
   <<"'", "static">> >>

(* More types and defaults of const parameters *)
RareConstTys == <<
   <<"usize", "=", "-", "1">>,
   <<"i8", "=", "{", "-", "1", "}">>,
   <<"A", "<", "B", "<", "C", ">", ">">>,
   <<"A", "<", "-", "1", ">">>,
   <<"(", "A", ",", "B", ")">>,
   <<"&", "'", "static", "str">>,
   <<"usize", "=", "N">>,
   <<"usize", "=", "A", ":^", ":", "B">>,
   <<"bool", "=", "!", "true">>,
   <<"fn", "(", ")", "-", ">", "A">>,
   <<"u8", "=", "b'x'">>,
   <<"A", "=", "\"C\"">>,
   <<"usize", "=", "{", "}">>,
   <<"A", "<", "B", ",", "C", ">", "=", "{", "d", "}">> >>

=============================================================================

---------------------------- MODULE VenialTokens ----------------------------
(***************************************************************************)
(* The token alphabet of the specification.                                *)
(*                                                                         *)
(* A token stream is a flat sequence of strings: identifiers, literals,    *)
(* one-character punctuation and delimiters.  ":^" is a colon whose        *)
(* spacing is Joint (the first colon of a path separator `::`); it is the  *)
(* only spacing the grammar of declarations depends on.  "/(" and "/)" are *)
(* the delimiters of an invisible (None-delimited) group.                  *)
(*                                                                         *)
(* An input is a record [t |-> tokens, m |-> match] where match[i] is the  *)
(* position of the delimiter that matches the delimiter at i (0 elsewhere).*)
(***************************************************************************)
EXTENDS Naturals, Sequences

Puncts == {"~", "!", "@", "#", "$", "%", "^", "&", "*", "-", "=", "+", "|", ";",
           ":", ":^", ",", "<", ".", ">", "/", "?", "'"}
Opens  == {"(", "[", "{", "/("}
Closes == {")", "]", "}", "/)"}
Lits   == {"0", "1", "2", "2.5", "0xFF_u8", "1e3", "\"C\"", "\"system\"", "\"C-unwind\"", "\"\"", "'x'", "'\\n'", "b'x'",
           "b\"y\"", "c\"z\"", "br\"q\"", "r\"w\"", "r\"where\""}

EOS == ""      \* what is seen at the end of a group or of the stream

IsIdent(x) == x # EOS /\ x \notin Puncts /\ x \notin Opens /\ x \notin Closes /\ x \notin Lits
IsLit(x)   == x \in Lits

Base(x) == IF x = ":^" THEN ":" ELSE x

(* The token seen at position p of a group that ends before position e. *)
At(in, p, e) == IF p < e THEN Base(in.t[p]) ELSE EOS

(* The position after the token tree that starts at p. *)
After(in, p) == IF in.t[p] \in Opens THEN in.m[p] + 1 ELSE p + 1

(* `::` at p *)
Colon2(in, p, e) == /\ p + 1 < e
                    /\ in.t[p] = ":^"
                    /\ Base(in.t[p + 1]) = ":"

(* The words of the grammar.  All other identifiers are names, and the     *)
(* machine treats names alike, and literals alike: renaming them changes   *)
(* nothing (VenialGen, Symmetric).  Behaviours are therefore replayed      *)
(* under renamings as well (harness/src/rename.rs).                        *)
Keywords == {"as", "async", "const", "crate", "default", "enum", "extern", "fn", "for", "impl", "in", "mod", "mut", "pub", "self", "static",
             "struct", "super", "trait", "type", "union", "unsafe", "use", "where"}
Renamed(t) == [i \in 1..Len(t) |-> CASE IsLit(t[i]) -> "1e3"
                                     [] IsIdent(t[i]) /\ t[i] \notin Keywords -> t[i] \o "_"
                                     [] OTHER -> t[i]]

CloseOf(o) == CASE o = "(" -> ")" [] o = "[" -> "]" [] o = "{" -> "}" [] o = "/(" -> "/)"

(* Match table of a well-nested token sequence. *)
RECURSIVE MatchFrom(_, _, _, _)
MatchFrom(t, i, stack, m) ==
  IF i > Len(t) THEN m
  ELSE IF t[i] \in Opens THEN MatchFrom(t, i + 1, <<i>> \o stack, m)
  ELSE IF t[i] \in Closes
       THEN MatchFrom(t, i + 1, Tail(stack), [m EXCEPT ![i] = Head(stack), ![Head(stack)] = i])
  ELSE MatchFrom(t, i + 1, stack, m)

Input(t) == [t |-> t, m |-> MatchFrom(t, 1, <<>>, [i \in 1..Len(t) |-> 0])]
=============================================================================

------------------------------ MODULE MC_Split -------------------------------
(***************************************************************************)
(* Every line end of at most MaxLen characters of a small alphabet, as the *)
(* aliases of a symbol and as the title of a schematic.                    *)
(***************************************************************************)
EXTENDS KSchematic, KSymbol, Json
CONSTANTS MaxLen, Alphabet
VARIABLE s
Init == s = ""
Next == Len(s) < MaxLen /\ \E c \in Alphabet : s' = s \o c
Quotes == {i \in 1..Len(s) : Char(s, i) = "\""}
(* without quotes the words are the runs between spaces *)
NoQuotes == Quotes = {} => \A i \in 1..Len(Split(s)) : Split(s)[i] # ""
(* anything between quotes arrives unchanged *)
Protected == Quotes = {} => Split("x " \o InQuotes(s) \o "   y") = <<"x", s, "y">>
(* an alias list; and a line that needs two words, in which what follows is not looked at *)
Aliases == Split("ALIAS " \o s)
Title == Split("Title " \o s)
Emit == PrintT("@@" \o ToJson([s |-> s, aliases |-> Tail(Aliases), title |-> IF Len(Title) < 2 THEN <<>> ELSE <<Title[2]>>]))
==============================================================================

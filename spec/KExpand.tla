------------------------------- MODULE KExpand -------------------------------
(***************************************************************************)
(* Expansion of library addresses: $NAME, ${NAME}, $$ and a leading ~.     *)
(* env is a function from the names that are set to their values.          *)
(***************************************************************************)
EXTENDS KSexp

NameChars == {Char("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_", i) : i \in 1..63}

(* end of the name that starts at i *)
RECURSIVE NameEnd(_, _)
NameEnd(s, i) == IF i <= Len(s) /\ Char(s, i) \in NameChars THEN NameEnd(s, i + 1) ELSE i - 1
RECURSIVE Find(_, _, _)
Find(s, c, i) == IF i > Len(s) THEN 0 ELSE IF Char(s, i) = c THEN i ELSE Find(s, c, i + 1)

RECURSIVE Vars(_, _, _)
Vars(s, i, env) ==
    IF i > Len(s) THEN Good("")
    ELSE LET Then(txt, j) == LET r == Vars(s, j, env) IN IF r.ok THEN Good(txt \o r.v) ELSE r
             Lookup(name, j) == IF name \in DOMAIN env THEN Then(env[name], j) ELSE Bad
         IN IF Char(s, i) # "$" THEN Then(Char(s, i), i + 1)
            ELSE IF i = Len(s) THEN Good("$")
            ELSE IF Char(s, i + 1) = "{"
                 THEN LET c == Find(s, "}", i) IN
                      IF c = 0 THEN Then("${", i + 2) ELSE Lookup(SubSeq(s, i + 2, c - 1), c + 1)
            ELSE IF Char(s, i + 1) \in NameChars
                 THEN LET e == NameEnd(s, i + 1) IN Lookup(SubSeq(s, i + 1, e), e + 1)
            ELSE IF Char(s, i + 1) = "$" THEN Then("$", i + 2)
            ELSE Then("$", i + 1)

Home(s, home) ==
    IF s = "~" THEN home
    ELSE IF Len(s) > 1 /\ SubSeq(s, 1, 2) = "~/" THEN home \o SubSeq(s, 2, Len(s))
    ELSE s

(* a ~ that a variable brought in is not the home shorthand *)
Expand(s, env) ==
    LET r == Vars(s, 1, env)
    IN IF ~r.ok THEN Bad
       ELSE IF s = "" THEN r
       ELSE IF Char(s, 1) = "~" THEN Good(Home(r.v, env["HOME"])) ELSE r
==============================================================================

-------------------------------- MODULE KSexp --------------------------------
(***************************************************************************)
(* S-expressions: the text level of footprints, boards and library tables. *)
(*                                                                         *)
(* A node is a word  [a |-> "text"]  or a list  [l |-> <<nodes>>].         *)
(* Nodes that come out of the reader are annotated: a word also carries    *)
(* what it means as a number, f (decimal), i (integer), x (hexadecimal),   *)
(* each "" when the word is not such a number and else the number in its   *)
(* canonical spelling.                                                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC, IOUtils

(* The specification has two readings. The strict one is what the          *)
(* properties say; the other also has the deviations listed as known       *)
(* findings, each named where it applies.                                  *)
Strict == IOEnv.STRICT = "1"

A(s) == [a |-> s]
L(s) == [l |-> s]

IsWord(n) == "a" \in DOMAIN n
IsList(n) == "l" \in DOMAIN n

(* a list whose first element is the word `name` *)
Named(n, name) ==
    IF IsList(n) /\ Len(n.l) > 0
    THEN IF IsWord(n.l[1]) THEN n.l[1].a = name ELSE FALSE
    ELSE FALSE
(* the word that names a list; "" stands for "no name" and is paired with HasName *)
HasName(n) == IF IsList(n) /\ Len(n.l) > 0 THEN IsWord(n.l[1]) ELSE FALSE
NameOf(n) == n.l[1].a

(* (name value) *)
N1(name, value) == L(<<A(name), A(value)>>)
(* (name a b) *)
N2(name, a, b) == L(<<A(name), A(a), A(b)>>)
(* (name node...) *)
NL(name, nodes) == L(<<A(name)>> \o nodes)

Char(s, i) == SubSeq(s, i, i)

(***************************************************************************)
(* Annotated trees and back.                                               *)
(***************************************************************************)
RECURSIVE Plain(_)
Plain(n) == IF IsWord(n) THEN A(n.a)
            ELSE L([i \in 1..Len(n.l) |-> Plain(n.l[i])])

(* num: a function from the words that are numbers to [f, i, x] *)
RECURSIVE Annotate(_, _)
Annotate(n, num) ==
    IF IsWord(n) THEN IF n.a \in DOMAIN num THEN [a |-> n.a] @@ num[n.a]
                      ELSE [a |-> n.a, f |-> "", i |-> "", x |-> ""]
    ELSE L([i \in 1..Len(n.l) |-> Annotate(n.l[i], num)])

(***************************************************************************)
(* Reading. A machine over the characters of the text:                     *)
(*   at   where the machine is: "top" before the first node, "in" between  *)
(*        the elements of a list, "word"/"quote" inside a word, "done"     *)
(*        after the first node (what follows is not looked at), "err"      *)
(*   stk  the unfinished lists, outermost first                            *)
(*   from where the current word starts; esc: previous character escapes   *)
(*   n    number of words read so far                                      *)
(* ann[k] describes the k-th word of the text as a number.                 *)
(***************************************************************************)
Blank == {" ", "\t", "\n", "\r"}

Word(w, k, ann) ==
    IF k <= Len(ann)
    THEN IF ann[k].w = w THEN [a |-> w, f |-> ann[k].f, i |-> ann[k].i, x |-> ann[k].x]
         ELSE Assert(FALSE, <<"annotation out of step", k, w, ann[k].w>>)
    ELSE Assert(FALSE, <<"annotation missing", k, w>>)

ReadInit == [at |-> "top", stk |-> <<>>, from |-> 0, esc |-> FALSE, n |-> 0, res |-> <<>>]

(* a finished node goes to the innermost unfinished list, or is the result *)
Put(s, node) ==
    IF s.stk = <<>>
    THEN [s EXCEPT !.at = "done", !.res = <<node>>]
    ELSE [s EXCEPT !.at = "in", !.stk[Len(s.stk)] = Append(@, node)]

PutWord(s, w, ann) == Put([s EXCEPT !.n = @ + 1, !.esc = FALSE], Word(w, s.n + 1, ann))

CloseList(s) ==
    Put([s EXCEPT !.stk = SubSeq(@, 1, Len(@) - 1)], L(s.stk[Len(s.stk)]))

StartNode(s, c, i, ann) ==
    CASE c = "(" -> [s EXCEPT !.at = "in", !.stk = Append(@, <<>>)]
      [] c = "\"" -> [s EXCEPT !.at = "quote", !.from = i + 1]
      [] OTHER -> [s EXCEPT !.at = "word", !.from = i]

ReadStep(s, c, i, text, ann) ==
    CASE s.at \in {"done", "err"} -> s
      [] s.at = "top" ->
           IF c \in {" ", "\t"} THEN s
           ELSE IF c \in {")", "\n", "\r"} THEN PutWord(s, "", ann)
           ELSE StartNode(s, c, i, ann)
      [] s.at = "in" ->
           IF c \in Blank THEN s
           ELSE IF c = ")" THEN CloseList(s)
           ELSE StartNode(s, c, i, ann)
      [] s.at = "word" ->
           IF c \in {" ", "\n", "\r"} THEN PutWord(s, SubSeq(text, s.from, i - 1), ann)
           ELSE IF c = ")" THEN
                LET t == PutWord(s, SubSeq(text, s.from, i - 1), ann)
                IN IF t.at = "in" THEN CloseList(t) ELSE t
           ELSE IF c = "(" THEN
                LET t == PutWord(s, SubSeq(text, s.from, i - 1), ann)
                IN IF t.at = "in" THEN StartNode(t, c, i, ann) ELSE t
           ELSE s
      [] s.at = "quote" ->
           IF c = "\"" /\ ~s.esc THEN PutWord(s, SubSeq(text, s.from, i - 1), ann)
           ELSE [s EXCEPT !.esc = (c = "\\")]

(* the result: [ok |-> BOOLEAN, n |-> node] *)
Read(text, ann) ==
    LET end == FoldLeft(LAMBDA s, i : ReadStep(s, Char(text, i), i, text, ann),
                        ReadInit, [i \in 1..Len(text) |-> i])
        fin == IF end.at = "word" /\ end.stk = <<>>
               THEN PutWord(end, SubSeq(text, end.from, Len(text)), ann) ELSE end
    IN IF fin.at = "done" THEN [ok |-> TRUE, n |-> fin.res[1]]
       ELSE [ok |-> FALSE, n |-> A("")]

(***************************************************************************)
(* Sequential parsing of the elements of a list, as combinators over a     *)
(* cursor: ok, r (elements not consumed yet), v (fields collected so far). *)
(* Results of whole-node parsers: [ok, v].                                 *)
(***************************************************************************)
Bad == [ok |-> FALSE, v |-> <<>>]
Good(v) == [ok |-> TRUE, v |-> v]

BadCur == [ok |-> FALSE, r |-> <<>>, v |-> <<>>]
Cur(n, name) == IF Named(n, name) THEN [ok |-> TRUE, r |-> Tail(n.l), v |-> <<>>] ELSE BadCur
(* cursor over a list that needs no name *)
CurAny(n) == IF IsList(n) THEN [ok |-> TRUE, r |-> n.l, v |-> <<>>] ELSE BadCur

HasMore(c) == c.ok /\ Len(c.r) > 0
Keep(c, f, x) == [ok |-> TRUE, r |-> Tail(c.r), v |-> (f :> x) @@ c.v]
Miss(c, f, x) == IF c.ok THEN [c EXCEPT !.v = (f :> x) @@ c.v] ELSE c

IsF(n) == IF IsWord(n) THEN n.f # "" ELSE FALSE
IsI(n) == IF IsWord(n) THEN n.i # "" ELSE FALSE
IsX(n) == IF IsWord(n) THEN n.x # "" ELSE FALSE

(* (name value): exactly one value *)
Single(n, name) == IF Named(n, name) THEN Len(n.l) = 2 ELSE FALSE
SingleS(n, name) == IF Single(n, name) THEN IsWord(n.l[2]) ELSE FALSE
SingleF(n, name) == IF Single(n, name) THEN IsF(n.l[2]) ELSE FALSE
SingleI(n, name) == IF Single(n, name) THEN IsI(n.l[2]) ELSE FALSE
SingleX(n, name) == IF Single(n, name) THEN IsX(n.l[2]) ELSE FALSE

ReqS(c, f) == IF HasMore(c) THEN IF IsWord(Head(c.r)) THEN Keep(c, f, Head(c.r).a) ELSE BadCur ELSE BadCur
ReqF(c, f) == IF HasMore(c) THEN IF IsF(Head(c.r)) THEN Keep(c, f, Head(c.r).f) ELSE BadCur ELSE BadCur
ReqI(c, f) == IF HasMore(c) THEN IF IsI(Head(c.r)) THEN Keep(c, f, Head(c.r).i) ELSE BadCur ELSE BadCur
OptS(c, f) == IF HasMore(c) THEN IF IsWord(Head(c.r)) THEN Keep(c, f, <<Head(c.r).a>>) ELSE Miss(c, f, <<>>) ELSE Miss(c, f, <<>>)
OptF(c, f, d) == IF HasMore(c) THEN IF IsF(Head(c.r)) THEN Keep(c, f, Head(c.r).f) ELSE Miss(c, f, d) ELSE Miss(c, f, d)
(* an optional fixed word, as a truth value *)
Lit(c, f, w) ==
    IF HasMore(c) THEN IF IsWord(Head(c.r)) THEN IF Head(c.r).a = w THEN Keep(c, f, TRUE)
                                                 ELSE Miss(c, f, FALSE)
                       ELSE Miss(c, f, FALSE)
    ELSE Miss(c, f, FALSE)
ReqSL(c, f, name) == IF HasMore(c) THEN IF SingleS(Head(c.r), name) THEN Keep(c, f, Head(c.r).l[2].a) ELSE BadCur ELSE BadCur
ReqFL(c, f, name) == IF HasMore(c) THEN IF SingleF(Head(c.r), name) THEN Keep(c, f, Head(c.r).l[2].f) ELSE BadCur ELSE BadCur
ReqIL(c, f, name) == IF HasMore(c) THEN IF SingleI(Head(c.r), name) THEN Keep(c, f, Head(c.r).l[2].i) ELSE BadCur ELSE BadCur
OptSL(c, f, name) == IF HasMore(c) THEN IF SingleS(Head(c.r), name) THEN Keep(c, f, <<Head(c.r).l[2].a>>) ELSE Miss(c, f, <<>>) ELSE Miss(c, f, <<>>)
OptFL(c, f, name, d) == IF HasMore(c) THEN IF SingleF(Head(c.r), name) THEN Keep(c, f, Head(c.r).l[2].f) ELSE Miss(c, f, d) ELSE Miss(c, f, d)
OptIL(c, f, name, d) == IF HasMore(c) THEN IF SingleI(Head(c.r), name) THEN Keep(c, f, Head(c.r).l[2].i) ELSE Miss(c, f, d) ELSE Miss(c, f, d)
ReqT(c, f, P(_)) == IF HasMore(c) THEN LET p == P(Head(c.r)) IN IF p.ok THEN Keep(c, f, p.v) ELSE BadCur ELSE BadCur
OptT(c, f, P(_), d) == IF HasMore(c) THEN LET p == P(Head(c.r)) IN IF p.ok THEN Keep(c, f, p.v) ELSE Miss(c, f, d) ELSE Miss(c, f, d)
(* optional node kept as a sequence of at most one *)
OptQ(c, f, P(_)) == IF HasMore(c) THEN LET p == P(Head(c.r)) IN IF p.ok THEN Keep(c, f, <<p.v>>) ELSE Miss(c, f, <<>>) ELSE Miss(c, f, <<>>)

(* nothing may be left over *)
Close(c) == IF c.ok THEN IF c.r = <<>> THEN Good(c.v) ELSE Bad ELSE Bad

(* every element of a sequence by P, all must succeed *)
AllOf(s, P(_)) ==
    LET q == [i \in 1..Len(s) |-> P(s[i])]
    IN IF \A i \in 1..Len(s) : q[i].ok THEN Good([i \in 1..Len(s) |-> q[i].v]) ELSE Bad

(***************************************************************************)
(* Writing words: quoted when empty or when a character asks for it.       *)
(***************************************************************************)
NeedsQuote == {"(", ")", " ", "\t", "{", "}", "%"}
Token(w) ==
    IF w = "" \/ \E i \in 1..Len(w) : Char(w, i) \in NeedsQuote
    THEN "\"" \o w \o "\"" ELSE w
==============================================================================

------------------------------- MODULE MC_Kinds ------------------------------
(***************************************************************************)
(* Small documents of every kind with their first word or line exchanged,  *)
(* something before or after them, or their end missing; and which kind    *)
(* each of these is.                                                       *)
(***************************************************************************)
EXTENDS MCDocs, KFiles, FiniteSets, Json

CONSTANTS Leads, Tails, Heads, FirstLines

VARIABLES made
vars == <<made>>

ML == INSTANCE MCLines WITH Texts <- {"a"}, Names <- {"R"}, Ints <- {"0"}, Floats <- {"0.5"}

SexpDocs == {<<"fp", FpDoc(<<>>)>>, <<"fp", FpDoc(<<Text0, Pad0>>)>>, <<"lay", BoardDoc(<<Via0>>)>>, <<"tab", <<>>>>, <<"tab", <<Lib0>>>>}
HeadOf(kd) == CASE kd = "fp" -> "module" [] kd = "lay" -> "kicad_pcb" [] kd = "tab" -> "fp_lib_table"
LineDocs == {<<"sch", ML!SchDoc(<<>>, <<>>)>>, <<"sch", ML!SchDoc(<<ML!Comp0, ML!Wire0>>, <<ML!Sheet0>>)>>,
             <<"lib", <<>>>>, <<"lib", <<ML!Sym0(<<ML!Pin0>>)>>>>}

(* a node with another first word *)
Headed(n, w) == L(<<A(w)>> \o Tail(n.l))
Init ==
    \/ \E d \in SexpDocs, h \in Heads \cup {"same"}, lead \in Leads, tail \in Tails, cut \in BOOLEAN :
          made = [form |-> "sexp", kind |-> d[1], node |-> IF h = "same" THEN Ser(d[1], d[2]) ELSE Headed(Ser(d[1], d[2]), h),
                  lead |-> lead, tail |-> tail, cut |-> cut]
    \/ \E d \in LineDocs, h \in FirstLines \cup {"same"}, lead \in Leads, tail \in Tails, cut \in BOOLEAN :
          made = [form |-> "lines", kind |-> d[1],
                  lines |-> LET ls == IF d[1] = "sch" THEN SchLines(d[2]) ELSE LibLines(d[2]) IN IF h = "same" THEN ls ELSE [ls EXCEPT ![1] = h],
                  lead |-> lead, tail |-> tail, cut |-> cut]
    \/ \E p \in {"update=", "update", "Update=x", "update=1\n[a]\nb=c\n"}, lead \in Leads, tail \in Tails :
          made = [form |-> "plain", text |-> p, lead |-> lead, tail |-> tail, cut |-> FALSE]
Next == FALSE /\ UNCHANGED made

SexpText(n) == Joined(Layout(n, 0, ""))
Cut(s) == LineHead(s, Len(s) - 1)
Text ==
    made.lead \o (CASE made.form = "sexp" -> IF made.cut THEN Cut(SexpText(made.node)) ELSE SexpText(made.node)
                    [] made.form = "lines" -> TextOf(IF made.cut THEN SubSeq(made.lines, 1, 2) ELSE made.lines)
                    [] OTHER -> made.text)
    \o (IF made.cut THEN "" ELSE made.tail)

(* what blanks, words and nodes before the document make of it *)
Invisible(s) == \A i \in 1..Len(s) : Char(s, i) \in {" ", "\t"}
Node == Annotate(made.node, Num)
As(kd) ==
    CASE kd \in {"fp", "lay", "tab"} ->
           IF made.form = "sexp" /\ Invisible(made.lead) /\ ~made.cut THEN Parse(kd, Node) ELSE Bad
      [] kd = "sch" -> RSchematic(LinesOf(Text), ML!Num)
      [] kd = "lib" -> RLibrary(LinesOf(Text), ML!Num)
      [] kd = "project" -> IF StartsWith(Text, "update=") THEN Good(Text) ELSE Bad
IsKind(kd) == As(kd).ok
Kinds == {FileKinds[i] : i \in 1..Len(FileKinds)}
TheKind == LET s == SelectSeq(FileKinds, LAMBDA kd : IsKind(kd)) IN IF s = <<>> THEN "unknown" ELSE s[1]

(* ------------------------------- theorems -------------------------------- *)
(* no text is of two kinds, so the order in which they are tried never matters *)
AtMostOne == Cardinality({kd \in Kinds : IsKind(kd)}) <= 1
OwnKind == (made.form = "sexp" /\ TheKind # "unknown") => made.node.l[1].a = HeadOf(TheKind)
Dump == CASE TheKind = "fp" -> <<As("fp").v.name \o "\n" \o DocText("fp", As("fp").v) \o "\n">>
          [] TheKind = "lay" -> <<DocText("lay", As("lay").v) \o "\n">>
          [] OTHER -> <<>>
Emit == PrintT("@@" \o ToJson([text |-> Text, dump |-> Dump, kind |-> TheKind, shown |-> KindShown(TheKind), doc |-> IF TheKind = "unknown" THEN <<>> ELSE <<As(TheKind).v>>]))
==============================================================================

----------------------------- MODULE MC_SymEdit ------------------------------
(***************************************************************************)
(* All short histories of renaming the symbols of a small library.         *)
(***************************************************************************)
EXTENDS MCLines, KSymCheck, FiniteSets, Json

CONSTANTS MaxEdits, SymNames, Given, Refs, FieldCounts

VARIABLES doc, past
vars == <<doc, past>>

Symbol(n, r, fields, pins) ==
    [Sym0([i \in 1..pins |-> [Pin0 EXCEPT !.number = ToString(i)]] \o <<Rect0>>) EXCEPT
        !.name = n, !.ref = r, !.fields = SubSeq(<<SF0, [SF1 EXCEPT !.value = n], [SF0 EXCEPT !.i = "2", !.name = FieldName("2"), !.value = n]>>, 1, fields)]
Init == \E n \in SymNames, m \in SymNames, r \in Refs, f \in FieldCounts, p \in 0..2 :
          /\ doc = <<Symbol(n, r, f, p), Symbol(m, "U", 3, 1)>>
          /\ past = [start |-> doc, steps |-> <<>>]
Next == /\ Len(past.steps) < MaxEdits
        /\ \E i \in 1..Len(doc), v \in Given :
             LET d == [doc EXCEPT ![i] = RenameSym(@, v)]
             IN doc' = d /\ past' = [past EXCEPT !.steps = Append(@, [i |-> i - 1, v |-> v, out |-> d])]

(* ------------------------------- theorems -------------------------------- *)
Shown(y) == ShownName(y)
KeepsTilde == \A i \in 1..Len(doc) : StartsWith(past.start[i].name, "~") => StartsWith(doc[i].name, "~")
RestKept == \A i \in 1..Len(doc) : [doc[i] EXCEPT !.name = "", !.fields = <<>>] = [past.start[i] EXCEPT !.name = "", !.fields = <<>>]
LastName == past.steps # <<>> =>
            LET s == past.steps[Len(past.steps)] IN
            /\ doc[s.i + 1].name \in {s.v, "~" \o s.v}
            /\ Len(doc[s.i + 1].fields) >= 2 => doc[s.i + 1].fields[2].value = s.v
OtherFields == \A i \in 1..Len(doc) : \A k \in 1..Len(doc[i].fields) : k # 2 => doc[i].fields[k] = past.start[i].fields[k]
Emit == PrintT("@@" \o ToJson([start |-> past.start, steps |-> past.steps, looks |-> [i \in 1..Len(doc) |-> SymLook(doc[i])],
                               found |-> [n \in SymNames \cup Given \cup {"~" \o g : g \in Given} |-> FindSym(doc, n)]]))
==============================================================================

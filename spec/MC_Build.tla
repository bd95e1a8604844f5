------------------------------- MODULE MC_Build -------------------------------
(***************************************************************************)
(* Bounded model of building footprints: every sequence of up to MaxSteps  *)
(* constructor calls.                                                      *)
(***************************************************************************)
EXTENDS MCDocs, KBuild, TLC, Json
CONSTANTS LayerWords, MaxSteps
VARIABLES doc, log

StepsAt(d) ==
    {[op |-> "make_text", name |-> x, value |-> y] : x \in {"reference", "user"}, y \in Words}
    \cup {[op |-> "make_pad", name |-> "1", t |-> x, shape |-> y] : x \in PadTypes \cup {"SMD", ""}, y \in {"rect", "oval", "round"}}
    \cup {[op |-> "make_drawing", k |-> x] : x \in {"fp_line", "fp_circle", "fp_arc", "fp_poly"}}
    \cup {[op |-> "set_at", at |-> [x |-> x, y |-> "1", rot |-> y]] : x \in Nums, y \in Nums}
    \cup {[op |-> "set_size", x |-> x, y |-> "1"] : x \in Nums}
    \cup {[op |-> "set_effects", effects |-> x] : x \in {[Effects0 EXCEPT !.sx = "0", !.italic = TRUE], [Effects0 EXCEPT !.justify = "left"]}}
    \cup {[op |-> x, word |-> y] : x \in {"set_layer", "add_layer"}, y \in LayerWords}
    \cup {[op |-> "set_net", num |-> "3", name |-> x] : x \in Words}
    \cup {[op |-> "set_drill", drill |-> x] : x \in {Drill0, [Drill0 EXCEPT !.shape = <<"oval">>, !.height = "0"]}}

Init == log = <<>> /\ doc = FreshFootprint("m")
Next ==
    /\ Len(log) < MaxSteps
    /\ \E e \in StepsAt(doc) :
         /\ Fits(doc, e.op)
         /\ LET r == Build(doc, e)
            IN /\ log' = Append(log, [step |-> e, ok |-> r.ok])
               /\ doc' = IF r.ok THEN r.v ELSE doc

(* theorems *)
ReadsBack == Parse("fp", Annotate(Ser("fp", doc), Num)) = Good(doc)
Makes == {i \in 1..Len(log) : log[i].ok /\ log[i].step.op \in {"make_text", "make_pad", "make_drawing"}}
OnePerMake == Len(doc.el) = Cardinality(Makes)
Emit == IF Len(log) = MaxSteps THEN PrintT("@@" \o ToJson([log |-> log, doc |-> doc])) ELSE TRUE
================================================================================

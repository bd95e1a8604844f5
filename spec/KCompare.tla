------------------------------- MODULE KCompare -------------------------------
(***************************************************************************)
(* When the library calls two items equal. Items of a footprint are        *)
(* compared as drawings: which board side they are on, which net a pad is  *)
(* on, and the reference and value texts do not count. Everything else     *)
(* does.                                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Sideless(l) == l.t
(* what counts of an item *)
Core(e) ==
    CASE e.k = "fp_text" /\ e.name \in {"reference", "value"} -> [k |-> e.k, name |-> e.name]
      [] e.k = "pad" -> [e EXCEPT !.net = <<>>, !.layers = [i \in 1..Len(e.layers) |-> Sideless(e.layers[i])]]
      [] e.k = "layer" -> [e EXCEPT !.v = Sideless(@)]
      [] e.k \in {"fp_text", "fp_line", "fp_poly", "fp_circle", "fp_arc"} -> [e EXCEPT !.layer = Sideless(@)]
      [] OTHER -> e
SameItem(a, b) == IF a.k = b.k THEN Core(a) = Core(b) ELSE FALSE

(* net classes: as a whole, or without the nets in them *)
EqualClass(a, b) == a = b
EqualButNets(a, b) == [a EXCEPT !.nets = <<>>] = [b EXCEPT !.nets = <<>>]

Comparable == {"fpel", "class", "net"}
Compared(kind, a, b) ==
    CASE kind = "fpel" -> LET s == SameItem(a, b) IN [eq |-> s, back |-> s, ne |-> ~s]
      [] kind = "class" -> LET s == EqualClass(a, b) IN [eq |-> s, back |-> s, ne |-> ~s, no_nets |-> EqualButNets(a, b)]
      [] kind = "net" -> LET s == a = b IN [eq |-> s, back |-> s, ne |-> ~s]
==============================================================================

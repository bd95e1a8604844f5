-------------------------------- MODULE MC_FpEdit --------------------------------
(***************************************************************************)
(* Bounded model of footprint edits: footprints of up to MaxItems items,   *)
(* every sequence of MaxOps edits, all look-ups after the last one.        *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Items, MaxItems, MaxOps
VARIABLES start, doc, ops, hits

Silk == Ly("F", "SilkS")
O == At0(0, 0, 0)
Pool(n) ==
    CASE n = 1 -> TextItem("reference", "U1", At0(U, U, 0), Silk, "none")
      [] n = 2 -> TextItem("reference", "U2", O, Silk, "none")
      [] n = 3 -> TextItem("value", "U1", O, Ly("F", "Fab"), "none")
      [] n = 4 -> TextItem("user", "a", O, Ly("B", "Fab"), "none")
      [] n = 5 -> PadItem("1", "smd", At0(U, 0, Quarter), U, U, OnNet1("a"))
      [] n = 6 -> PadItem("2", "thru_hole", O, U, U, <<>>)
      [] n = 7 -> PadItem("a", "smd", O, U, U, OnNet1("b"))
      [] n = 8 -> PlaceItem(U, 2 * U, Quarter)
      [] n = 9 -> PlaceItem(0 - U, 0, 0)
      [] n = 10 -> [k |-> "attr", v |-> "smd"]
      [] n = 11 -> [k |-> "attr", v |-> "virtual"]
      [] n = 12 -> [k |-> "layer", v |-> Ly("F", "Cu")]
      [] n = 13 -> [k |-> "layer", v |-> Ly("B", "Cu")]
      [] n = 14 -> [k |-> "tstamp", v |-> "5A"]
      [] n = 15 -> [k |-> "tstamp", v |-> "1"]
      [] n = 16 -> [k |-> "tedit", v |-> "5B"]
      [] n = 17 -> LineItem(P("start", 0, 0), P("end", U, U), Silk)
      [] n = 18 -> [k |-> "descr", v |-> "a"]
      [] n = 19 -> [k |-> "layer", v |-> Ly("*", "Cu")]
N == 19
Refs == {"U1", "U2"}
Ops ==
    {[op |-> "set_reference", old |-> a, new |-> b] : a \in Refs, b \in {"U2", "U3"}}
    \cup {[op |-> "adjust_at", x |-> U, y |-> 0 - 2 * U], [op |-> "adjust", x |-> 0, y |-> 640]}
    \cup {[op |-> "rename_net", old |-> a, new |-> b] : a \in {"a", "b"}, b \in {"b", ""}}
    \cup {[op |-> "set_text", which |-> w, v |-> "new"] : w \in {"reference", "user", "value"}}
AppendPool == {1, 5, 9, 13}

Init ==
    /\ ops = <<>> /\ hits = <<>>
    /\ \E n \in 0..MaxItems : \E f \in [1..n -> Items] : start = Fp("a", [i \in 1..n |-> Pool(f[i])])
    /\ doc = start
Do(e) == ops' = Append(ops, e) /\ doc' = FpEdit(doc, e) /\ hits' = Append(hits, IF e.op = "set_text" THEN SetText(doc, e.which, e.v).hit ELSE TRUE)
Next ==
    /\ Len(ops) < MaxOps
    /\ \/ \E e \in Ops : Do(e)
       \/ \E i \in AppendPool : Do([op |-> "append", el |-> Pool(i)])
    /\ start' = start

(* theorems *)
Keeps == Len(doc.el) >= Len(start.el) /\ \A i \in 1..Len(start.el) : doc.el[i].k = start.el[i].k
OnlyAddressed ==
    \A i \in 1..Len(start.el) :
        LET a == start.el[i]
            b == doc.el[i]
        IN CASE a.k = "fp_text" -> [a EXCEPT !.value = ""] = [b EXCEPT !.value = ""]
             [] a.k = "pad" -> [a EXCEPT !.net = <<>>] = [b EXCEPT !.net = <<>>] /\ Len(a.net) = Len(b.net)
             [] a.k = "at" -> a.rot = b.rot
             [] OTHER -> a = b
Looks == [r \in {"U1", "U3"} |-> FpLook(doc, r, IF r = "U1" THEN "user" ELSE "value")]
Emit == IF Len(ops) = MaxOps THEN PrintT("@@" \o ToJson([doc |-> start, ops |-> ops, hits |-> hits, after |-> doc, looks |-> Looks])) ELSE TRUE
================================================================================

------------------------------ MODULE MC_BoardEdit ------------------------------
(***************************************************************************)
(* Bounded model of board edits and look-ups.                              *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Items, MaxItems, MaxOps, Variety
VARIABLES start, doc, ops, hits

Mod(r, rest) == ModuleItem(Fp("m", <<TextItem("reference", r, At0(0, 0, 0), Ly("F", "SilkS"), "none")>> \o rest))
Pool(n) ==
    CASE n = 1 -> NetItem("1", "a")
      [] n = 2 -> ClassItem("c", <<"a", "b">>)
      [] n = 3 -> ClassItem("c", <<"b">>)
      [] n = 4 -> [ClassItem("c", <<>>) EXCEPT !.via_drill = 0]
      [] n = 5 -> Mod("U1", <<PadItem("1", "smd", At0(0, 0, 0), U, U, OnNet1("a")), PlaceItem(U, U, 0)>>)
      [] n = 6 -> Mod("U2", <<>>)
      [] n = 7 -> Mod("U1", <<PlaceItem(0, 0, Quarter), [k |-> "layer", v |-> Ly("B", "Cu")]>>)
      [] n = 8 -> ModuleItem(Fp("U1", <<TextItem("value", "U1", At0(0, 0, 0), Ly("F", "Fab"), "none")>>))
      [] n = 9 -> ZoneItem("a", <<>>, <<>>, <<>>)
      [] n = 10 -> OtherItem
      [] n = 11 -> Mod("U2", <<TextItem("reference", "U1", At0(0, 0, 0), Ly("F", "SilkS"), "none")>>)
      [] n = 12 -> NetItem("2", "b")
      [] n = 13 -> GrTextItem("U1", At0(0, 0, 0))
N == 13
Setups(n) ==
    CASE n = 1 -> <<>>
      [] n = 2 -> <<Entry("s", "1")>>
      [] n = 3 -> <<[name |-> "t", v1 |-> "1", v2 |-> <<"2">>], Entry("s", "3"), Entry("s", "4")>>
Edits ==
    {[op |-> "add_net", num |-> 3, name |-> "z"], [op |-> "add_netclass", nc |-> ClassItem("c", <<"z">>)]}
    \cup {[op |-> "update_setup", name |-> n, v |-> "9"] : n \in {"s", "t", "u"}}
    \cup {[op |-> "change_net_name", old |-> "a", new |-> "z"]}
FpOps == {[op |-> "set_reference", old |-> "U1", new |-> "U2"], [op |-> "set_reference", old |-> "U2", new |-> "U3"]}
          \cup {[op |-> "adjust_at", x |-> U, y |-> 0]} \cup {[op |-> "rename_net", old |-> "a", new |-> "q"]}
          \cup (IF Variety > 1 THEN {[op |-> "flip"], [op |-> "set_text", which |-> "value", v |-> "w"]} ELSE {})
Mods == {[op |-> "modify_module", ref |-> r, edit |-> e] : r \in {"U1", "U2", "U9"}, e \in FpOps}

Init ==
    /\ ops = <<>> /\ hits = <<>>
    /\ \E n \in 0..MaxItems : \E f \in [1..n -> Items], s \in 1..3 : start = Board([i \in 1..n |-> Pool(f[i])], Setups(s))
    /\ doc = start
Do(e) == ops' = Append(ops, e) /\ doc' = BoardEdit(doc, e) /\ hits' = Append(hits, IF e.op = "modify_module" THEN ModifyModule(doc, e.ref, e.edit).hit ELSE TRUE)
Next ==
    /\ Len(ops) < MaxOps
    /\ (\E e \in Edits : Do(e)) \/ (\E e \in Mods : Do(e))
    /\ start' = start

(* theorems *)
Keeps ==
    /\ Len(doc.el) >= Len(start.el)
    /\ \A i \in 1..Len(start.el) : doc.el[i].k = start.el[i].k
    /\ [doc EXCEPT !.el = <<>>, !.setup = <<>>] = [start EXCEPT !.el = <<>>, !.setup = <<>>]
Quiet == (ops # <<>> /\ \A i \in 1..Len(ops) : ops[i].op = "modify_module" /\ ~hits[i]) => doc = start
Emit == IF Len(ops) = MaxOps THEN PrintT("@@" \o ToJson([doc |-> start, ops |-> ops, hits |-> hits, after |-> doc,
            looks |-> <<BoardLook(doc, "U1", "b", "s"), BoardLook(doc, "U2", "z", "u")>>])) ELSE TRUE
================================================================================

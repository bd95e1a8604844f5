--------------------------------- MODULE MC_Nets ---------------------------------
(***************************************************************************)
(* Bounded model of renaming nets: boards of a few items naming nets in    *)
(* every place a board can name one, and sequences of renamings.           *)
(***************************************************************************)
EXTENDS MCParts
CONSTANTS Names, Targets, Thirds, MaxOps
VARIABLES start, doc, ops, refused

PadOn(n) == PadItem("1", "smd", At0(0, 0, 0), U, U, IF n = "-" THEN <<>> ELSE OnNet1(n))
Text1 == TextItem("reference", "a", At0(0, 0, 0), Ly("F", "SilkS"), "none")
Item(p, n) ==
    CASE p = 1 -> NetItem("1", n)
      [] p = 2 -> ClassItem(n, <<"x", n>>)
      [] p = 3 -> ModuleItem(Fp(n, <<Text1, PadOn(n), PadOn("-"), PadOn("a")>>))
      [] p = 4 -> ZoneItem(n, <<>>, <<>>, <<>>)
      [] p = 5 -> OtherItem
      [] p = 6 -> GrTextItem(n, At0(0, 0, 0))
Rules ==
    {[op |-> "change_net_name", old |-> a, new |-> b] : a \in Names, b \in Targets}
    \cup {[op |-> "update_net_names", rule |-> "rename", from |-> a, to |-> b] : a \in Names, b \in Targets}
    \cup {[op |-> "update_net_names", rule |-> "block", from |-> a, to |-> b] : a \in {"a", "b"}, b \in {"b", "cc", "a"}}
    \cup {[op |-> "update_net_names", rule |-> "prefix", p |-> "/a"], [op |-> "update_net_names", rule |-> "unnamed", to |-> "Q7"]}
    \cup {[op |-> "update_net_names", rule |-> "failon", name |-> n, p |-> "p"] : n \in Names}

Init ==
    /\ ops = <<>> /\ refused = FALSE
    /\ \E p, q \in 1..6, r \in Thirds, n, m \in Names :
          /\ p <= q /\ (p >= 5 => n = "a") /\ (q >= 5 => m = "a")
          /\ start = Board(<<Item(p, n), Item(q, m), Item(r, n)>>, <<Entry("a", "a")>>)
    /\ doc = start
Next ==
    /\ Len(ops) < MaxOps /\ ~refused
    /\ \E e \in Rules :
          /\ ops' = Append(ops, e)
          /\ refused' = Refuses(doc, e)
          /\ doc' = IF Refuses(doc, e) THEN doc ELSE BoardEdit(doc, e)
    /\ start' = start

(* theorems *)
Before == NamesOf(start)
After == NamesOf(doc)
StillTheSame == Len(Before) = Len(After) /\ \A i, j \in 1..Len(Before) : Before[i] = Before[j] => After[i] = After[j]
Blank(d) == [d EXCEPT !.el = [i \in 1..Len(d.el) |-> LET e == d.el[i] IN
    CASE e.k = "net" -> [e EXCEPT !.name = ""]
      [] e.k = "net_class" -> [e EXCEPT !.nets = <<>>]
      [] e.k = "module" -> [e EXCEPT !.v = MapEl(@, LAMBDA x : IF x.k # "pad" THEN x ELSE IF x.net = <<>> THEN x ELSE [x EXCEPT !.net[1].name = ""])]
      [] e.k = "zone" -> [e EXCEPT !.net_name = ""]
      [] OTHER -> e]]
NothingElse == Blank(doc) = Blank(start)
RenameExact ==
    (Len(ops) = 1 /\ ops[1].op = "change_net_name") =>
        \A i \in 1..Len(Before) : After[i] = IF Before[i] = ops[1].old THEN ops[1].new ELSE Before[i]
Emit == IF Len(ops) = MaxOps \/ refused THEN PrintT("@@" \o ToJson([doc |-> start, ops |-> ops, refused |-> refused, after |-> doc])) ELSE TRUE
================================================================================

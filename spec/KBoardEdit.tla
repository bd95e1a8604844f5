------------------------------ MODULE KBoardEdit ------------------------------
(***************************************************************************)
(* Edits of a board, the renaming of nets, and what its look-ups give.     *)
(***************************************************************************)
EXTENDS KFpEdit

(* -------------------------------- net names ------------------------------ *)
Part(s, a, b) == IF a > b \/ s = "" THEN "" ELSE SubSeq(s, a, b)
StartsAt(s, i, w) == i + Len(w) - 1 <= Len(s) /\ Part(s, i, i + Len(w) - 1) = w
(* every path part that equals `from`, wherever it stands between two slashes *)
RECURSIVE Block(_, _, _, _)
Block(s, i, from, to) ==
    IF i > Len(s) THEN s
    ELSE IF StartsAt(s, i, "/" \o from \o "/")
         THEN Block(Part(s, 1, i) \o to \o Part(s, i + Len(from) + 1, Len(s)), i + Len(to) + 1, from, to)
         ELSE Block(s, i + 1, from, to)

(* automatic names: Net-(component-pad) *)
IsSep(c) == c \in {"-", "(", ")"}
Seps(s) == {i \in 1..Len(s) : IsSep(Part(s, i, i))}
RECURSIVE InOrder(_)
InOrder(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE m \in S : \A x \in S : m <= x IN <<m>> \o InOrder(S \ {m})
Unnamed(s) ==
    IF ~StartsAt(s, 1, "Net-(") THEN <<>>
    ELSE LET p == InOrder(Seps(s))
         IN IF Len(p) # 4 THEN <<>> ELSE << <<Part(s, p[2] + 1, p[3] - 1), Part(s, p[3] + 1, p[4] - 1)>> >>
SetUnnamed(s, to) ==
    LET u == Unnamed(s) IN IF u = <<>> THEN [ok |-> FALSE, v |-> s] ELSE [ok |-> TRUE, v |-> "Net-(" \o to \o "-" \o u[1][2] \o ")"]

(* what a rule makes of one name *)
NetRule(r, n) ==
    CASE r.rule = "rename" -> [ok |-> TRUE, v |-> IF n = r.from THEN r.to ELSE n]
      [] r.rule = "block" -> [ok |-> TRUE, v |-> Block(n, 1, r.from, r.to)]
      [] r.rule = "prefix" -> [ok |-> TRUE, v |-> r.p \o n]
      [] r.rule = "failon" -> [ok |-> n # r.name, v |-> r.p \o n]
      [] r.rule = "unnamed" -> IF Unnamed(n) = <<>> THEN [ok |-> TRUE, v |-> n] ELSE SetUnnamed(n, r.to)

(* ------------------------- where a board names nets ---------------------- *)
PadNames(m) ==
    LET ps == SelectSeq(m.el, LAMBDA e : IF e.k = "pad" THEN e.net # <<>> ELSE FALSE)
    IN [i \in 1..Len(ps) |-> ps[i].net[1].name]
NamesIn(e) ==
    CASE e.k = "net" -> <<e.name>>
      [] e.k = "net_class" -> e.nets
      [] e.k = "module" -> PadNames(e.v)
      [] e.k = "zone" -> <<e.net_name>>
      [] OTHER -> <<>>
NamesOf(d) == FlattenSeq([i \in 1..Len(d.el) |-> NamesIn(d.el[i])])

RuleFp(m, r) ==
    MapEl(m, LAMBDA e : IF e.k # "pad" THEN e ELSE IF e.net = <<>> THEN e ELSE [e EXCEPT !.net[1].name = NetRule(r, @).v])
RuleItem(e, r) ==
    CASE e.k = "net" -> [e EXCEPT !.name = NetRule(r, @).v]
      [] e.k = "net_class" -> [e EXCEPT !.nets = [i \in 1..Len(@) |-> NetRule(r, @[i]).v]]
      [] e.k = "module" -> [e EXCEPT !.v = RuleFp(@, r)]
      [] e.k = "zone" -> [e EXCEPT !.net_name = NetRule(r, @).v]
      [] OTHER -> e
RuleBoard(d, r) == [d EXCEPT !.el = [i \in 1..Len(d.el) |-> RuleItem(d.el[i], r)]]
RuleRefused(d, r) == \E i \in 1..Len(NamesOf(d)) : ~NetRule(r, NamesOf(d)[i]).ok
Rename(old, new) == [rule |-> "rename", from |-> old, to |-> new]

(* ---------------------------------- edits -------------------------------- *)
ModuleAt(d, ref) == {i \in 1..Len(d.el) : IF d.el[i].k = "module" THEN HasReference(d.el[i].v, ref) ELSE FALSE}
FirstIn(S) == CHOOSE i \in S : \A j \in S : i <= j
ModifyModule(d, ref, e) ==
    LET S == ModuleAt(d, ref)
    IN IF S = {} THEN [hit |-> FALSE, doc |-> d]
       ELSE [hit |-> TRUE, doc |-> [d EXCEPT !.el[FirstIn(S)].v = FpEdit(@, e)]]
UpdateSetup(d, name, v) ==
    LET S == {i \in 1..Len(d.setup) : d.setup[i].name = name}
    IN IF S = {} THEN [d EXCEPT !.setup = Append(@, [name |-> name, v1 |-> v, v2 |-> <<>>])]
       ELSE [d EXCEPT !.setup[FirstIn(S)].v1 = v]

Refuses(d, e) == e.op = "update_net_names" /\ RuleRefused(d, e)
BoardEdit(d, e) ==
    CASE e.op = "change_net_name" -> RuleBoard(d, Rename(e.old, e.new))
      [] e.op = "update_net_names" -> RuleBoard(d, e)
      [] e.op = "add_net" -> [d EXCEPT !.el = Append(@, [k |-> "net", num |-> ToString(e.num), name |-> e.name])]
      [] e.op = "add_netclass" -> [d EXCEPT !.el = Append(@, e.nc)]
      [] e.op = "modify_module" -> ModifyModule(d, e.ref, e.edit).doc
      [] e.op = "update_setup" -> UpdateSetup(d, e.name, e.v)
      [] e.op = "adjust" -> MoveBoard(d, e.x, e.y)
BoardEditOut(d, e) ==
    CASE e.op = "update_net_names" -> IF RuleRefused(d, e) THEN [err |-> TRUE] ELSE [ok |-> BoardEdit(d, e)]
      [] e.op = "modify_module" -> ModifyModule(d, e.ref, e.edit)
      [] OTHER -> BoardEdit(d, e)

(* -------------------------------- look-ups ------------------------------- *)
SameClass(a, b) == [a EXCEPT !.nets = <<>>] = [b EXCEPT !.nets = <<>>]
BoardLook(d, ref, net, setup) ==
    LET cs == OfKind(d, "net_class")
        ms == OfKind(d, "module")
        S == ModuleAt(d, ref)
        T == {i \in 1..Len(d.setup) : d.setup[i].name = setup}
    IN [nets |-> OfKind(d, "net"), classes |-> cs, modules |-> [i \in 1..Len(ms) |-> ms[i].v],
        module |-> IF S = {} THEN <<>> ELSE <<d.el[FirstIn(S)].v>>,
        setup |-> IF T = {} THEN <<>> ELSE <<d.setup[FirstIn(T)].v1>>,
        has_net |-> [i \in 1..Len(cs) |-> \E j \in 1..Len(cs[i].nets) : cs[i].nets[j] = net],
        equal |-> [i \in 1..Len(cs) |-> [j \in 1..Len(cs) |-> SameClass(cs[i], cs[j])]]]
===============================================================================

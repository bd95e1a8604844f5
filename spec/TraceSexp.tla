------------------------------ MODULE TraceSexp ------------------------------
(***************************************************************************)
(* Recorded histories over footprints, boards and library tables: every    *)
(* recorded outcome must be the one the specification gives.               *)
(***************************************************************************)
EXTENDS KFormat, KBuild, KExpand, Json, IOUtils, Agree

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, kind, doc, env
vars == <<t, k, kind, doc, env>>

Ser(kd, d) == CASE kd = "fp" -> SFootprint(d) [] kd = "lay" -> SBoard(d) [] kd = "tab" -> STable(d)
Parse(kd, n) == CASE kd = "fp" -> PFootprint(n) [] kd = "lay" -> PBoard(n) [] kd = "tab" -> PTable(n)
AfterText(kd) == IF kd = "lay" THEN "\n" ELSE ""

Expect(e) ==
    CASE e.op = "new" -> [kind |-> e.kind, doc |-> e.doc, out |-> [v |-> "ok"]]
      [] e.op = "get" -> [kind |-> kind, doc |-> doc, out |-> [v |-> doc]]
      [] e.op = "ser" -> [kind |-> kind, doc |-> doc, out |-> [v |-> [ok |-> Layout(Ser(kind, doc), e.indent, AfterText(kind))]]]
      [] e.op = "begin" -> LET d == IF e.kind = "fp" THEN FreshFootprint(e.name) ELSE FreshBoard IN [kind |-> e.kind, doc |-> d, out |-> [v |-> d]]
      [] e.op \in BuildSteps ->
           LET r == Build(doc, e) IN [kind |-> kind, doc |-> IF r.ok THEN r.v ELSE doc, out |-> [v |-> IF r.ok THEN [ok |-> r.v] ELSE [err |-> TRUE]]]
      [] e.op = "reparse" -> [kind |-> kind, doc |-> doc, out |-> [v |-> [ok |-> doc]]]
      [] e.op \in {"setenv", "unsetenv"} -> [kind |-> kind, doc |-> doc, out |-> [v |-> "ok"]]
      [] e.op = "expand" ->
           LET r == Expand(doc[e.i + 1].uri, env)
           IN [kind |-> kind, doc |-> doc, out |-> [v |-> IF r.ok THEN [ok |-> r.v] ELSE [err |-> TRUE]]]
      [] e.op = "parse" ->
           LET r == Read(e.text, e.ann)
               p == IF r.ok THEN Parse(e.kind, r.n) ELSE Bad
           IN IF p.ok THEN [kind |-> e.kind, doc |-> p.v, out |-> [v |-> [ok |-> p.v]]]
              ELSE [kind |-> kind, doc |-> doc, out |-> [v |-> [err |-> TRUE]]]

EnvAfter(e) ==
    CASE e.op = "setenv" -> (e.k :> e.v) @@ env
      [] e.op = "unsetenv" -> [n \in DOMAIN env \ {e.k} |-> env[n]]
      [] OTHER -> env

Init == t \in 1..Len(Traces) /\ k = 1 /\ kind = "none" /\ doc = <<>> /\ env = ("HOME" :> "/verif-home")

Next ==
    /\ k > 0
    /\ k <= Len(Traces[t].ev)
    /\ t' = t
    /\ LET e == Traces[t].ev[k]
           x == Expect(e)
       IN IF Agree(x.out, e.out)
          THEN k' = k + 1 /\ kind' = x.kind /\ doc' = x.doc /\ env' = EnvAfter(e)
          ELSE /\ PrintT("@@" \o ToJson([t |-> t, k |-> k, want |-> x.out]))
               /\ k' = 0 - k /\ kind' = "rejected" /\ doc' = <<>> /\ env' = env
==============================================================================

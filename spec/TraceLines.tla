----------------------------- MODULE TraceLines ------------------------------
(***************************************************************************)
(* Recorded histories over schematics, components and symbol libraries:    *)
(* every recorded outcome must be the one the specification gives.         *)
(***************************************************************************)
EXTENDS KSchematic, KSymCheck, KRefOrder, FiniteSets, Json, Agree

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, kind, doc
vars == <<t, k, kind, doc>>

WrittenLines(kd, d) == CASE kd = "sch" -> SchLines(d) [] kd = "lib" -> LibLines(d) [] kd = "comp" -> CompLines(d)
ReadLines(kd, ls, num) == CASE kd = "sch" -> RSchematic(ls, num) [] kd = "lib" -> RLibrary(ls, num)

(* components of the schematic itself *)
Comps(d) == SelectSeq(d.el, LAMBDA e : e.k = "comp")
EditComps(d, P(_), e) == [d EXCEPT !.el = [i \in 1..Len(d.el) |-> IF P(i) THEN CompEdit(d.el[i], e) ELSE d.el[i]]]
IsComp(d, i) == d.el[i].k = "comp"
Hits(d, ref) == {i \in 1..Len(d.el) : IF IsComp(d, i) THEN d.el[i].ref = ref ELSE FALSE}
FirstHit(d, ref) == CHOOSE i \in Hits(d, ref) : \A j \in Hits(d, ref) : i <= j

(* the table is reported as a sequence in some order *)
SameTable(c, h) == Len(h) = Cardinality(FieldTable(c)) /\ {h[i] : i \in 1..Len(h)} = FieldTable(c)
LookComp(c, n, got) ==
    [value |-> LET f == FirstField(c, n) IN IF f = <<>> THEN <<>> ELSE <<f[1].value>>,
     field |-> FirstField(c, n), free |-> ToString(FreeField(c)),
     hash |-> IF "v" \in DOMAIN got /\ SameTable(c, got.v.hash) THEN got.v.hash ELSE SetToSeq(FieldTable(c))]

Stay(out) == [kind |-> kind, doc |-> doc, out |-> [v |-> out]]
Become(d, out) == [kind |-> kind, doc |-> d, out |-> [v |-> out]]

Expect(e) ==
    CASE e.op = "new" -> [kind |-> e.kind, doc |-> e.doc, out |-> [v |-> "ok"]]
      [] e.op = "get" -> Stay(doc)
      [] e.op = "ser" -> Stay([ok |-> Append(WrittenLines(kind, doc), "")])
      [] e.op = "reparse" -> Stay([ok |-> doc])
      [] e.op = "parse" ->
           LET p == ReadLines(e.kind, LinesOf(e.text), e.num)
           IN IF p.ok THEN [kind |-> e.kind, doc |-> p.v, out |-> [v |-> [ok |-> p.v]]] ELSE Stay([err |-> TRUE])
      [] e.op = "begin" -> [kind |-> "lib", doc |-> <<>>, out |-> [v |-> <<>>]]
      [] kind = "lib" /\ e.op = "new_symbol" -> LET d == Append(doc, FreshSym(e.name, e.ref)) IN Become(d, d)
      [] kind = "lib" /\ e.op = "fresh_part" -> LET d == WithPart(doc, e.k) IN Become(d, d)
      [] kind = "comp" /\ e.op = "new_field" -> LET d == [doc EXCEPT !.fields = Append(@, GivenField(e))] IN Become(d, d)
      [] e.op = "letter" ->
           Stay(IF (e.what = "o" /\ e.v \in {"H", "V"}) \/ (e.what = "j" /\ e.v \in {"L", "R", "C", "T", "B"}) THEN [ok |-> e.v] ELSE [err |-> TRUE])
      [] e.op = "allowed" -> Stay(NameAllowed(e.v))
      [] e.op = "section" -> Stay([n |-> ToString(e.i), title |-> SectionTitles[e.i]])
      [] e.op = "flat" -> Stay(Flatter(e.f))
      [] e.op = "reford" -> Stay(RefKey(e.v))
      [] e.op = "sort" -> Stay(RefSort(e.v))
      [] kind = "comp" /\ e.op \in CompEdits -> Become(CompEdit(doc, e), CompEditOut(doc, e))
      [] kind = "comp" /\ e.op = "look" -> Stay(LookComp(doc, e.name, e.out))
      [] kind = "sch" /\ e.op = "components" -> Stay([c |-> Comps(doc), k |-> Comps(doc)])
      [] kind = "sch" /\ e.op = "modify_components" -> LET d == EditComps(doc, LAMBDA i : IsComp(doc, i), e.edit) IN Become(d, d)
      [] kind = "sch" /\ e.op = "modify_component" ->
           LET d == IF Hits(doc, e.ref) = {} THEN doc ELSE EditComps(doc, LAMBDA i : i = FirstHit(doc, e.ref), e.edit) IN Become(d, d)
      [] kind = "sch" /\ e.op = "increment_sheet_count" ->
           LET d == [doc EXCEPT !.descr.sheet_count = ToString(NumOf(@) + 1)] IN Become(d, d)
      [] kind = "lib" /\ e.op = "set_name" -> LET d == [doc EXCEPT ![e.i + 1] = RenameSym(@, e.v)] IN Become(d, d)
      [] kind = "lib" /\ e.op = "find" -> Stay(FindSym(doc, e.name))
      [] kind = "lib" /\ e.op = "symlook" -> Stay(SymLook(doc[e.i + 1]))
      [] kind = "lib" /\ e.op = "program" -> Stay([ok |-> LoggedLib(doc)])
      [] kind = "lib" /\ e.op = "check" -> Stay(CheckSym(doc[e.i + 1]))

Init == t \in 1..Len(Traces) /\ k = 1 /\ kind = "none" /\ doc = <<>>

Next ==
    /\ k > 0
    /\ k <= Len(Traces[t].ev)
    /\ t' = t
    /\ LET e == Traces[t].ev[k]
           x == Expect(e)
       IN IF Agree(x.out, e.out)
          THEN k' = k + 1 /\ kind' = x.kind /\ doc' = x.doc
          ELSE /\ PrintT("@@" \o ToJson([t |-> t, k |-> k, want |-> x.out]))
               /\ k' = 0 - k /\ kind' = "rejected" /\ doc' = <<>>
==============================================================================

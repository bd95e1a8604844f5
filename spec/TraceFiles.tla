----------------------------- MODULE TraceFiles ------------------------------
(***************************************************************************)
(* Recorded histories over files: every recorded outcome must be the one   *)
(* the specification gives.                                                *)
(***************************************************************************)
EXTENDS KFiles, Json, IOUtils, Agree

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, k, kind, doc, file, disk
vars == <<t, k, kind, doc, file, disk>>

State(kd, d, f, m, out) == [kind |-> kd, doc |-> d, file |-> f, disk |-> m, out |-> [v |-> out]]
Stay(out) == State(kind, doc, file, disk, out)
Disk(m, out) == State(kind, doc, file, m, out)
Answer(r) == IF r.ok THEN [ok |-> r.v] ELSE [err |-> TRUE]
(* a document found in a file, as reported: a project is its text *)
Shown(kd, f) == IF kd = "unknown" THEN "none" ELSE ReadAs(kd, f).v

Expect(e) ==
    CASE e.op = "new" -> State(e.kind, e.doc, <<>>, disk, "ok")
      [] e.op = "get" -> Stay(doc)
      [] e.op = "put" -> Disk((e.path :> TextFile(e.text, e.ann, e.num)) @@ MakeDirs(disk, Ways(e.path)), [ok |-> "ok"])
      [] e.op = "putbytes" -> Disk((e.path :> BytesFile) @@ disk, "ok")
      [] e.op = "mkdir" -> Disk(MakeDirs(disk, Ways(e.path) \cup {e.path}), "ok")
      [] e.op = "full" -> Disk((e.path :> FullFile) @@ disk, "ok")
      [] e.op = "wipe" -> Disk(Wipe(disk, e.path), "ok")
      [] e.op \in {"raw", "read_text"} -> LET f == OnDisk(disk, e.path) IN Stay(IF HasText(f) THEN [ok |-> TextIn(f)] ELSE [err |-> TRUE])
      [] e.op = "program" -> Stay(Answer(Printed(e.prog, e.path, OnDisk(disk, e.path))))
      [] e.op = "exists" -> Stay(e.path \in DOMAIN disk)
      [] e.op = "write" -> IF CanWrite(disk, e.path, DocFile(kind, doc)) THEN Disk(Write(disk, e.path, DocFile(kind, doc)), [ok |-> "ok"]) ELSE Stay([err |-> TRUE])
      [] e.op = "write_text" ->
           LET f == TextFile(e.text, e.ann, e.num)
           IN IF CanWrite(disk, e.path, f) THEN Disk(Write(disk, e.path, f), [ok |-> "ok"]) ELSE Stay([err |-> TRUE])
      [] e.op = "read" ->
           LET f == OnDisk(disk, e.path) IN
           IF ~HasText(f) THEN Stay([err |-> TRUE])
           ELSE LET kd == KindOf(f)
                    full == [ok |-> kd, doc |-> Shown(kd, f), shown |-> KindShown(kd), name_ok |-> TRUE]
                \* when another kind was asked for, saying which kind it is instead is also right
                IN IF e.as \in {"any", kd} \/ (kd # "unknown" /\ Agree([v |-> full], e.out)) THEN Stay(full) ELSE Stay([err |-> TRUE])
      [] e.op = "read_as" ->
           LET r == ReadAs(e.as, OnDisk(disk, e.path))
           IN IF r.ok /\ "load" \in DOMAIN e THEN State(e.as, r.v, <<e.path>>, disk, [ok |-> r.v]) ELSE Stay(Answer(r))
      [] e.op = "load" ->
           LET r == ReadAs(e.kind, OnDisk(disk, e.path)) IN IF r.ok THEN State(e.kind, r.v, <<e.path>>, disk, [ok |-> r.v]) ELSE Stay(Answer(r))
      [] e.op = "set_filename" -> State(kind, doc, e.path, disk, "ok")
      [] e.op = "components" -> Stay([c |-> Comps(doc), k |-> Comps(doc)])
      [] e.op = "all_components" -> Stay(Answer(AllComps(disk, file, doc)))
      [] e.op = "by_reference" -> LET r == FindComp(disk, file, doc, e.ref) IN Stay(IF r.s = "found" THEN [ok |-> r.c] ELSE [err |-> TRUE])
      [] e.op = "sheet_file" -> Stay(Answer(SheetFile(file, doc.sheets[e.i + 1])))
      [] e.op = "sheet_doc" -> Stay(Answer(SheetDoc(disk, file, doc.sheets[e.i + 1])))
      [] e.op = "modify_components" -> LET d == EditComps(doc, LAMBDA i : IsComp(doc, i), e.edit) IN State(kind, d, file, disk, d)
      [] e.op = "modify_component" ->
           LET d == IF Hits(doc, e.ref) = {} THEN doc ELSE EditComps(doc, LAMBDA i : i = FirstHit(doc, e.ref), e.edit)
           IN State(kind, d, file, disk, d)

Init == t \in 1..Len(Traces) /\ k = 1 /\ kind = "none" /\ doc = <<>> /\ file = <<>> /\ disk = [p \in {} |-> NoFile]

Next ==
    /\ k > 0
    /\ k <= Len(Traces[t].ev)
    /\ t' = t
    /\ LET e == Traces[t].ev[k]
           x == Expect(e)
       IN IF Agree(x.out, e.out)
          THEN k' = k + 1 /\ kind' = x.kind /\ doc' = x.doc /\ file' = x.file /\ disk' = x.disk
          ELSE /\ PrintT("@@" \o ToJson([t |-> t, k |-> k, want |-> x.out]))
               /\ k' = 0 - k /\ kind' = "rejected" /\ doc' = <<>> /\ file' = <<>> /\ disk' = [p \in {} |-> NoFile]
==============================================================================

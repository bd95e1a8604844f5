------------------------------- MODULE KFiles --------------------------------
(***************************************************************************)
(* Files: what kind of document a text is, what writing leaves behind, and *)
(* the sheets of a schematic that lie in other files.                      *)
(*                                                                         *)
(* A disk is a function from paths to contents. A content is a text (with  *)
(* what its words are as numbers), a written document, bytes that are no   *)
(* text, or a directory.                                                   *)
(***************************************************************************)
EXTENDS KFormat, KLayout, KSchematic, KSymbol, KComponent

EndOfText(kd) == IF kd = "lay" THEN "\n" ELSE ""
SerDoc(kd, d) == CASE kd = "fp" -> SFootprint(d) [] kd = "lay" -> SBoard(d) [] kd = "tab" -> STable(d)
Joined(ps) == FoldLeft(LAMBDA s, p : s \o p, "", ps)
DocText(kd, d) ==
    CASE kd \in {"fp", "lay", "tab"} -> Joined(Layout(SerDoc(kd, d), 0, EndOfText(kd)))
      [] kd = "sch" -> TextOf(SchLines(d))
      [] kd = "lib" -> TextOf(LibLines(d))

TextFile(s, ann, num) == [k |-> "text", text |-> s, ann |-> ann, num |-> num]
DocFile(kd, d) == [k |-> "doc", kind |-> kd, doc |-> d]
BytesFile == [k |-> "bytes"]
DirFile == [k |-> "dir"]
FullFile == [k |-> "full"]       \* a device without room: it can be opened, but not written
NoFile == [k |-> "none"]
HasText(f) == f.k \in {"text", "doc"}
TextIn(f) == IF f.k = "text" THEN f.text ELSE DocText(f.kind, f.doc)

(* --------------------------------- kinds --------------------------------- *)
FileKinds == <<"fp", "sch", "lay", "lib", "project", "tab">>
KindShown(kd) == CASE kd = "fp" -> "module" [] kd = "sch" -> "schematic" [] kd = "lay" -> "layout" [] kd = "lib" -> "symbollib"
                   [] kd = "project" -> "project" [] kd = "tab" -> "fp-lib-table" [] OTHER -> "unknown"
ReadText(kd, f) ==
    CASE kd = "sch" -> RSchematic(LinesOf(f.text), f.num)
      [] kd = "lib" -> RLibrary(LinesOf(f.text), f.num)
      [] kd = "project" -> IF StartsWith(f.text, "update=") THEN Good(f.text) ELSE Bad
      [] OTHER -> LET r == Read(f.text, f.ann)
                  IN IF ~r.ok THEN Bad
                     ELSE CASE kd = "fp" -> PFootprint(r.n) [] kd = "lay" -> PBoard(r.n) [] kd = "tab" -> PTable(r.n)
(* the content of a file as a document of a kind, or Bad *)
ReadAs(kd, f) ==
    CASE f.k = "text" -> ReadText(kd, f)
      [] f.k = "doc" -> IF f.kind = kd THEN Good(f.doc) ELSE Bad
      [] OTHER -> Bad
KindOf(f) == LET ok == SelectSeq(FileKinds, LAMBDA kd : ReadAs(kd, f).ok) IN IF ok = <<>> THEN "unknown" ELSE ok[1]

(* what the programs print about a file; they fail on anything unexpected *)
Printed(prog, path, f) ==
    CASE prog = "identify" -> IF HasText(f) THEN Good("found: " \o KindShown(KindOf(f)) \o (IF KindOf(f) = "unknown" THEN ": " \o path ELSE "") \o "\n") ELSE Bad
      [] prog = "dump_footprint" -> LET r == ReadAs("fp", f) IN IF r.ok THEN Good(r.v.name \o "\n" \o DocText("fp", r.v) \o "\n") ELSE Bad
      [] prog = "dump_layout" -> LET r == ReadAs("lay", f) IN IF r.ok THEN Good(DocText("lay", r.v) \o "\n") ELSE Bad
      [] OTHER -> Bad

(* --------------------------------- paths --------------------------------- *)
Slashes(p) == SelectSeq([i \in 1..Len(p) |-> i], LAMBDA i : Char(p, i) = "/")
ParentDir(p) == LET s == Slashes(p) IN IF s = <<>> THEN "" ELSE LineHead(p, s[Len(s)] - 1)
Under(dir, p) == IF dir = "" THEN p ELSE dir \o "/" \o p
AtPlace(disk, p) == IF p \in DOMAIN disk THEN disk[p] ELSE NoFile
IsDir(disk, p) == p = "" \/ AtPlace(disk, p).k = "dir"
(* the steps of a path are taken one by one from directory to directory *)
PathSteps(p) == LET s == <<0>> \o Slashes(p) \o <<Len(p) + 1>>
            IN [i \in 1..(Len(s) - 1) |-> IF s[i] + 1 = s[i + 1] THEN "" ELSE SubSeq(p, s[i] + 1, s[i + 1] - 1)]
Nowhere == "/"
RECURSIVE PathWalk(_, _, _)
PathWalk(disk, at, steps) ==
    IF steps = <<>> THEN at
    ELSE IF ~IsDir(disk, at) THEN Nowhere
    ELSE CASE Head(steps) \in {"", "."} -> PathWalk(disk, at, Tail(steps))
           [] Head(steps) = ".." -> PathWalk(disk, ParentDir(at), Tail(steps))
           [] OTHER -> PathWalk(disk, Under(at, Head(steps)), Tail(steps))
PathPlace(disk, p) == IF p \in DOMAIN disk THEN p ELSE PathWalk(disk, "", PathSteps(p))
OnDisk(disk, p) == AtPlace(disk, PathPlace(disk, p))
(* a file can be written where there is a directory to hold it and no directory in its place *)
CanWrite(disk, p, f) == /\ IsDir(disk, ParentDir(p)) /\ OnDisk(disk, p).k # "dir"
                        /\ OnDisk(disk, p).k = "full" => TextIn(f) = ""
Write(disk, p, f) == IF CanWrite(disk, p, f) /\ OnDisk(disk, p).k # "full" THEN (p :> f) @@ disk ELSE disk
(* every directory on the way to p *)
Ways(p) == LET s == Slashes(p) IN {LineHead(p, s[i] - 1) : i \in 1..Len(s)}
MakeDirs(disk, ds) == [d \in ds |-> DirFile] @@ disk
Wipe(disk, p) == [q \in {q \in DOMAIN disk : q # p /\ ~StartsWith(q, p \o "/")} |-> disk[q]]

(* -------------------------------- sheets --------------------------------- *)
(* file: <<>> or <<path of the schematic>> *)
SheetFile(file, sh) == IF file = <<>> THEN Bad ELSE Good(Under(ParentDir(file[1]), sh.filename))
SheetDoc(disk, file, sh) == LET p == SheetFile(file, sh) IN IF p.ok THEN ReadAs("sch", OnDisk(disk, p.v)) ELSE Bad

Comps(d) == SelectSeq(d.el, LAMBDA e : e.k = "comp")
(* its own components, then those of each sheet, in order *)
RECURSIVE AllComps(_, _, _)
AllComps(disk, file, d) ==
    LET Sub(sh) == LET s == SheetDoc(disk, file, sh) IN IF s.ok THEN AllComps(disk, <<SheetFile(file, sh).v>>, s.v) ELSE Bad
    IN FoldLeft(LAMBDA a, i : IF ~a.ok THEN Bad ELSE LET s == Sub(d.sheets[i]) IN IF s.ok THEN Good(a.v \o s.v) ELSE Bad,
                Good(Comps(d)), [i \in 1..Len(d.sheets) |-> i])

(* The first component with the reference. A sheet that cannot be read     *)
(* before it is found is an error; as the code stands only a sheet of the  *)
(* schematic itself is, one further down is passed over (known finding).   *)
Found(c) == [s |-> "found", c |-> c]
NotFound == [s |-> "no"]
Unreadable == [s |-> "unreadable"]
RECURSIVE FindComp(_, _, _, _)
FindComp(disk, file, d, ref) ==
    LET own == SelectSeq(Comps(d), LAMBDA c : c.ref = ref)
        Sub(sh) == LET s == SheetDoc(disk, file, sh)
                   IN IF ~s.ok THEN Unreadable
                      ELSE LET r == FindComp(disk, <<SheetFile(file, sh).v>>, s.v, ref)
                           IN IF ~Strict /\ r.s = "unreadable" THEN NotFound ELSE r
    IN IF own # <<>> THEN Found(own[1])
       ELSE FoldLeft(LAMBDA a, i : IF a.s = "no" THEN Sub(d.sheets[i]) ELSE a, NotFound, [i \in 1..Len(d.sheets) |-> i])

(* components of the schematic itself, edited in place *)
EditComps(d, P(_), e) == [d EXCEPT !.el = [i \in 1..Len(d.el) |-> IF P(i) THEN CompEdit(d.el[i], e) ELSE d.el[i]]]
IsComp(d, i) == d.el[i].k = "comp"
Hits(d, ref) == {i \in 1..Len(d.el) : IF IsComp(d, i) THEN d.el[i].ref = ref ELSE FALSE}
FirstHit(d, ref) == CHOOSE i \in Hits(d, ref) : \A j \in Hits(d, ref) : i <= j
==============================================================================

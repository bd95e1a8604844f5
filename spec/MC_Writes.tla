------------------------------ MODULE MC_Writes ------------------------------
(***************************************************************************)
(* All short histories of writing documents and texts to a few places.     *)
(***************************************************************************)
EXTENDS MCDocs, KFiles, Json

CONSTANTS MaxWrites, Texts, Places      \* places: some of those below

VARIABLES disk, past
vars == <<disk, past>>

(* two files in a directory, one in a directory below it, and three places that cannot be written *)
AllPlaces == <<"w/a", "w/b", "w/s/c", "w/no/d", "w/dir", "w/full">>
Start == [p \in {"w", "w/s", "w/dir"} |-> DirFile] @@ ("w/full" :> FullFile)

Short == FpDoc(<<>>)
Long == FpDoc(<<Text0, Pad0, Line0>>)
Contents ==
    <<DocFile("fp", Short), DocFile("fp", Long), DocFile("lay", Board0), DocFile("lay", BoardDoc(<<Via0, Module0>>))>>
    \o [i \in 1..Len(Texts) |-> TextFile(Texts[i], <<>>, <<>>)]

Init == disk = Start /\ past = <<>>
Next == /\ Len(past) < MaxWrites
        /\ \E p \in Places, c \in 1..Len(Contents) :
              /\ disk' = Write(disk, p, Contents[c])
              /\ past' = Append(past, [path |-> p, what |-> Contents[c], ok |-> CanWrite(disk, p, Contents[c])])

(* ------------------------------- theorems -------------------------------- *)
(* each file holds what was written last to it, or is not there *)
LastTo(p) == LET s == SelectSeq(past, LAMBDA e : e.path = p) IN s[Len(s)].what
HoldsLast == \A p \in Places : OnDisk(disk, p) = (IF CanWrite(Start, p, Contents[1]) /\ (\E i \in 1..Len(past) : past[i].path = p) THEN LastTo(p) ELSE OnDisk(Start, p))
Truthful == \A i \in 1..Len(past) : past[i].ok = CanWrite(Start, past[i].path, past[i].what)

Held(p) == LET f == OnDisk(disk, p) IN IF HasText(f) THEN <<TextIn(f)>> ELSE <<>>
DocIn(p, kd) == LET f == OnDisk(disk, p) IN IF f.k = "doc" THEN IF f.kind = kd THEN <<f.doc>> ELSE <<>> ELSE <<>>
Emit == Len(past) = MaxWrites =>
        PrintT("@@" \o ToJson([past |-> past, held |-> [p \in Places \ {"w/full"} |-> [text |-> Held(p), fp |-> DocIn(p, "fp"), lay |-> DocIn(p, "lay")]]]))
==============================================================================

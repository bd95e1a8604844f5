------------------------------ MODULE MC_Sheets ------------------------------
(***************************************************************************)
(* Hierarchies of a few schematic files in two directories: which sheets   *)
(* each of them has, in which order, which components, and whether one of  *)
(* them cannot be read.                                                    *)
(***************************************************************************)
EXTENDS MCLines, KFiles, FiniteSets, Json

CONSTANTS Lists,        \* lists of references that a file may have
          Tops, Mids    \* lists of sheets that the top file and the second file may have

VARIABLES made
vars == <<made>>

Paths == <<"p/top.sch", "p/a.sch", "p/s/b.sch", "p/s/c.sch">>
(* components differ from file to file in their place *)
CompsAt(n, refs) == [i \in 1..Len(refs) |-> [Comp0 EXCEPT !.ref = refs[i], !.x = ToString(10 * n + i), !.fields = <<>>]]
SheetOf(name) == [Sheet0 EXCEPT !.filename = name]
FileDoc(n, refs, sheets) == SchDoc((IF n = 2 THEN <<Wire0>> ELSE <<>>) \o CompsAt(n, refs), [i \in 1..Len(sheets) |-> SheetOf(sheets[i])])

BadWays == {"gone", "cut", "dir"}
Init == \E l \in [1..4 -> Lists], t \in Tops, m \in Mids, c \in {<<>>, <<"c.sch">>},
           bad \in {<<0, "none">>} \cup ((2..4) \X BadWays) :
          made = [docs |-> <<FileDoc(1, l[1], t), FileDoc(2, l[2], m), FileDoc(3, l[3], c), FileDoc(4, l[4], <<>>)>>, bad |-> bad]
Next == FALSE /\ UNCHANGED made

(* a file of the right name in the wrong directory is never looked at *)
Decoys == {"p/c.sch", "p/b.sch", "p/s/a.sch", "p/s/s/b.sch"}
Decoy == FileDoc(9, <<"R1", "R2">>, <<>>)
Content(i) == IF made.bad[1] # i THEN DocFile("sch", made.docs[i])
              ELSE IF made.bad[2] = "gone" THEN NoFile ELSE IF made.bad[2] = "dir" THEN DirFile ELSE BytesFile
Disk == [p \in {Paths[i] : i \in 1..4} |-> Content(CHOOSE i \in 1..4 : Paths[i] = p)] @@ [p \in Decoys |-> DocFile("sch", Decoy)]
Top == made.docs[1]
All == AllComps(Disk, <<Paths[1]>>, Top)
Refs == {"R1", "R2", "R3"}
Find(r) == FindComp(Disk, <<Paths[1]>>, Top, r)

(* ------------------------------- theorems -------------------------------- *)
FindIsFirst == All.ok => \A r \in Refs : LET s == SelectSeq(All.v, LAMBDA c : c.ref = r)
                                         IN Find(r) = (IF s = <<>> THEN NotFound ELSE Found(s[1]))
OwnFirst == All.ok => SubSeq(All.v, 1, Len(Comps(Top))) = Comps(Top)
NeverDecoy == All.ok => \A i \in 1..Len(All.v) : NumOf(All.v[i].x) < 90
(* each use of a sheet counts *)
Uses(n, name) == Cardinality({i \in 1..Len(made.docs[n].sheets) : made.docs[n].sheets[i].filename = name})
Counted ==
    LET a == Uses(1, "a.sch")
        b == Uses(1, "s/b.sch") + a * Uses(2, "s/b.sch")
        c == Uses(1, "s/c.sch") + a * Uses(2, "s/c.sch") + b * Uses(3, "c.sch")
        N(n) == Len(Comps(made.docs[n]))
    IN All.ok => Len(All.v) = N(1) + a * N(2) + b * N(3) + c * N(4)
OkIff == made.bad[1] = 0 => All.ok

Outs(r) == LET f == Find(r) IN IF f.s = "found" THEN [ok |-> f.c] ELSE [err |-> TRUE]
FileList ==
    [i \in 1..4 |-> [path |-> Paths[i], how |-> IF made.bad[1] = i THEN made.bad[2] ELSE "", text |-> TextOf(SchLines(made.docs[i]))]]
Emit == PrintT("@@" \o ToJson([files |-> FileList, decoys |-> SetToSeq(Decoys), decoy |-> TextOf(SchLines(Decoy)), top |-> Top,
                               all |-> IF All.ok THEN [ok |-> All.v] ELSE [err |-> TRUE],
                               find |-> [r \in Refs |-> Outs(r)]]))
==============================================================================

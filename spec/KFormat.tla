------------------------------- MODULE KFormat -------------------------------
(***************************************************************************)
(* Line layout of s-expression files. The writer walks a tree and at each  *)
(* list decides, from the names of the enclosing lists and a few counters, *)
(* which blanks to put. Text is a sequence of pieces: parentheses, words   *)
(* (quoted where needed) and runs of blanks.                               *)
(***************************************************************************)
EXTENDS Integers, KSexp

RECURSIVE Times(_, _)
Times(s, n) == IF n <= 0 THEN "" ELSE s \o Times(s, n - 1)
Indented(nl, depth) == Times("\n", nl) \o Times("  ", depth)

NoWant == [w |-> FALSE, nl |-> 0, cl |-> FALSE, af |-> 0]
Line == [w |-> TRUE, nl |-> 1, cl |-> FALSE, af |-> 0]           \* own line
Block == [w |-> TRUE, nl |-> 1, cl |-> TRUE, af |-> 0]           \* own line, closed on its own line
Section == [w |-> TRUE, nl |-> 2, cl |-> TRUE, af |-> 0]         \* blank line before
Same == [w |-> TRUE, nl |-> 0, cl |-> FALSE, af |-> 0]           \* no break, no space

Parent(path) == IF path = <<>> THEN "" ELSE path[Len(path)].n
Within(path, name) == \E i \in 1..Len(path) : path[i].n = name

InModule(path, count, e) ==
    LET p == Parent(path) IN
    CASE p = "module" /\ e \in {"at", "descr", "fp_line", "fp_poly", "pad", "path", "fp_circle", "attr"} -> Line
      [] p = "module" /\ e \in {"model", "fp_text", "gr_text"} -> Block
      [] p = "dimension" /\ e = "gr_text" -> Block
      [] p \in {"fp_text", "gr_text"} /\ e = "effects" -> Line
      \* points: a line break every 4 (footprint polygon) or 5; polygons of boards also start on a new line
      [] p = "pts" /\ e = "xy" ->
           LET wrap == IF Within(path, "fp_poly") THEN 4 ELSE 5 IN
           IF count > 0 /\ count % wrap = 0 THEN Line
           ELSE IF count = 0 /\ (Within(path, "polygon") \/ Within(path, "filled_polygon")) THEN Line
           ELSE NoWant
      [] p = "model" /\ e \in {"at", "scale", "rotate"} -> Line
      [] p = "pad" /\ e = "net" -> Line
      [] OTHER -> NoWant

InBoard(path, e) ==
    LET p == Parent(path) IN
    CASE ~Within(path, "kicad_pcb") -> NoWant
      [] p = "kicad_pcb" /\ e = "page" -> [Line EXCEPT !.nl = 2]
      [] p = "kicad_pcb" /\ e \in {"net", "gr_circle", "gr_line", "gr_arc", "segment", "via"} -> Line
      [] p = "kicad_pcb" /\ e \in {"layers", "gr_text", "dimension", "zone"} -> Block
      [] p = "kicad_pcb" /\ e = "setup" -> [Section EXCEPT !.af = 1]
      [] p = "kicad_pcb" /\ e \in {"general", "net_class", "module"} -> Section
      [] p \in {"general", "layers", "setup", "pcbplotparams", "net_class"} -> Line
      [] p = "dimension" /\ e \in {"gr_text", "feature1", "feature2", "crossbar",
                                   "arrow1a", "arrow1b", "arrow2a", "arrow2b"} -> Line
      [] p = "zone" /\ e \in {"connect_pads", "min_thickness", "fill", "keepout", "priority"} -> Line
      [] p = "zone" /\ e \in {"polygon", "filled_polygon"} -> Block
      [] p \in {"polygon", "filled_polygon"} -> Block
      [] OTHER -> NoWant

InTable(path, e) ==
    IF ~Within(path, "fp_lib_table") THEN NoWant
    ELSE IF Parent(path) = "fp_lib_table" THEN Line ELSE Same

Want(path, count, e) ==
    LET m == InModule(path, count, e)
        b == InBoard(path, e)
    IN IF m.w THEN m ELSE IF b.w THEN b ELSE InTable(path, e)

(***************************************************************************)
(* Writer state: out (pieces so far), ws (blanks not yet followed by a     *)
(* piece), depth, path (name and wish of each open list), points, and the  *)
(* two section separators: a footprint was just written / a track was      *)
(* written already.                                                        *)
(***************************************************************************)
WInit(indent) == [out |-> <<>>, ws |-> "", depth |-> indent, path |-> <<>>, points |-> 0,
                  module |-> FALSE, segment |-> FALSE]

Blanks(s, b) == [s EXCEPT !.ws = @ \o b]
Piece(s, p) == [s EXCEPT !.out = IF s.ws = "" THEN Append(@, p) ELSE @ \o <<s.ws, p>>, !.ws = ""]

Open(s0, e) ==
    LET s1 == IF e = "module" THEN [s0 EXCEPT !.module = TRUE]
              ELSE IF Parent(s0.path) = "kicad_pcb" /\ s0.module
                   THEN Blanks([s0 EXCEPT !.module = FALSE], Indented(1, s0.depth))
              ELSE s0
        s2 == IF e = "segment" /\ ~s1.segment
              THEN Blanks([s1 EXCEPT !.segment = TRUE], Indented(1, s1.depth)) ELSE s1
        w == Want(s2.path, s2.points, e)
        s3 == IF w.w THEN [s2 EXCEPT !.depth = @ + 1] ELSE s2
        s4 == IF w.w /\ w.nl > 0 THEN Blanks(s3, Indented(w.nl, s3.depth)) ELSE s3
        s5 == IF e = "pts" THEN [s4 EXCEPT !.points = 0] ELSE s4
        s6 == IF e = "xy" /\ Parent(s5.path) = "pts" THEN [s5 EXCEPT !.points = @ + 1] ELSE s5
    IN Piece([s6 EXCEPT !.path = Append(@, [n |-> e, w |-> IF e = "" THEN NoWant ELSE w])], "(")

Shut(s) ==
    LET top == s.path[Len(s.path)]
        s1 == [s EXCEPT !.path = SubSeq(@, 1, Len(@) - 1)]
    IN IF top.w.w
       THEN LET s2 == [s1 EXCEPT !.depth = @ - 1]
                s3 == IF top.w.cl THEN Blanks(s2, Indented(1, s2.depth + 1)) ELSE s2
                s4 == Piece(s3, ")")
            IN Blanks(s4, Times("\n", top.w.af))
       ELSE IF s1.path = <<>> /\ top.n \in {"module", "kicad_pcb", "fp_lib_table"}
            THEN Piece(Blanks(s1, "\n"), ")")
       ELSE Piece(s1, ")")

(* the blank before an element that is not the first: none when the list brings its own break *)
Gap(s, n) ==
    IF IsWord(n) THEN Blanks(s, " ")
    ELSE IF HasName(n)
         THEN IF Want(s.path, s.points, NameOf(n)).w THEN s ELSE Blanks(s, " ")
    ELSE Blanks(s, " ")

RECURSIVE Walk(_, _)
Walk(s, n) ==
    IF IsWord(n) THEN Piece(s, Token(n.a))
    ELSE LET e == IF HasName(n) THEN NameOf(n) ELSE ""
             o == Open(s, e)
             body == FoldLeft(LAMBDA acc, i :
                                 Walk(IF i = 1 THEN acc ELSE Gap(acc, n.l[i]), n.l[i]),
                              o, [i \in 1..Len(n.l) |-> i])
         IN Shut(body)

(* the pieces of a document, with `end` blanks after it *)
Layout(n, indent, end) ==
    LET s == Blanks(Walk(WInit(indent), n), end)
    IN IF s.ws = "" THEN s.out ELSE Append(s.out, s.ws)
==============================================================================

--------------------------------- MODULE MCFault --------------------------------
(* Damaged documents: every single damage (kind k at position i, see harness/ops_fault.go) of a few documents in every *)
(* format, handed to every decoder of the format.                                                                      *)
EXTENDS MC

VARIABLES src, way, k
K(c, r) == [c |-> c, r |-> r]
T1 == [EmptyTable("T1") EXCEPT !.cols = <<C("a", "int"), C("s", "string"), C("l", "[]byte"), C("f", "float32"), C("r", "rune")>>, !.rows = <<<<3, 2, 2, 5, 3>>, <<1, 1, 1, 4, 2>>>>, !.keys = <<K("s", TRUE)>>]
T2 == [EmptyTable("T2") EXCEPT !.cols = <<C("b", "bool"), C("u", "uint8")>>, !.rows = <<<<2, 3>>>>]
T3 == [EmptyTable("T3") EXCEPT !.cols = <<C("t", "time.Time"), C("n", "*Table"), C("g", "int64")>>, !.rows = <<<<2, 1, 1>>>>]
Nested1 == [EmptyTable("N") EXCEPT !.cols = <<C("z", "uint16")>>, !.rows = <<<<2>>>>]
\* handles: 1 the table (nested in 3), 2 of struct shape, 3 with times and tables; set 1: tables 1 and 2
Pre == CASE src \in {"t", "s"} -> <<BuildOp(T1), BuildOp(T2), O("SetStructShape", [t |-> 2, b |-> TRUE]), O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> 1]), O("AppendTable", [s |-> 1, t |-> 2])>>
         [] src = "struct" -> <<BuildOp(T2), O("SetStructShape", [t |-> 1, b |-> TRUE])>>
         [] src = "nested" -> <<BuildOp(Nested1), BuildOp(T3), O("NewTableSet", [nm |-> ""]), O("AppendTable", [s |-> 1, t |-> 2])>>
         [] src = "bare" -> <<BuildOp(EmptyTable("T1")), O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> 1])>>
Tn == IF src = "nested" THEN 2 ELSE 1
TextHows == {"table", "set", "byname", "byindex", "must", "file", "setfile"}
Wy(f, s, b, h) == [f |-> f, s |-> s, by |-> b, h |-> h]
Ways == {Wy("text", s, b, h) : s \in {"t", "s"}, b \in {"bytes", "words"}, h \in TextHows}
        \cup {Wy("json", "t", b, h) : b \in {"tree", "bytes"}, h \in {"table", "byname"}} \cup {Wy("json", "s", b, "set") : b \in {"tree", "bytes"}}
        \cup {Wy("yaml", "s", b, "set") : b \in {"tree", "bytes", "words"}}
        \cup {Wy("gob", "t", b, "table") : b \in {"gob", "bytes"}} \cup {Wy("gob", "s", b, "set") : b \in {"bytes", "parts"}}
KindsOf(w) == CASE w.by = "bytes" -> 0..(IF DEEP THEN 31 ELSE 7) [] w.by = "words" -> 0..99 [] w.by = "tree" -> 0..41 [] w.by = "gob" -> 0..34 [] w.by = "parts" -> 0..3
Positions(w) == CASE w.by = "bytes" -> (IF DEEP THEN 299 ELSE 119) [] w.by = "words" -> (IF DEEP THEN 59 ELSE 35) [] w.by = "tree" -> (IF DEEP THEN 79 ELSE 39) [] w.by = "gob" -> 29 [] w.by = "parts" -> 5
Srcs == {"t", "struct", "nested", "bare"}
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ src \in Srcs /\ way \in Ways /\ k \in KindsOf(way)
        /\ (way.s = "s" => src # "struct")
        \* the readers of files and of one table share what the others read
        /\ (way.h \in {"must", "file", "setfile", "byindex"} => src = "t" /\ k % 7 = 0)
Next == FALSE /\ UNCHANGED <<tab, hist, src, way, k>>
All == <<src, way, k>>
Fl(i, m) == O("Fault", [fmt |-> way.f, src |-> way.s, by |-> way.by, how |-> way.h, t |-> Tn, s |-> IF src = "struct" THEN 0 ELSE 1, fs |-> [x \in 1..m |-> [k |-> IF x = 1 THEN k ELSE (k * 7 + i) % 97, i |-> IF x = 1 THEN i ELSE i * 31 + k]]])
\* one damage of the document written without padding, and two of the padded one
RECURSIVE Runs(_, _)
Runs(i, n) == IF i > n THEN TRUE
              ELSE LET j == IF i + 29 > n THEN n ELSE i + 29 IN Emit(Pre \o [x \in 1..(j - i + 1) |-> Fl(i + x - 1, 1)]) /\ (~DEEP \/ Emit(Pre \o [x \in 1..(j - i + 1) |-> Fl(i + x - 1, 2)])) /\ Runs(j + 1, n)
Emitted == Runs(0, Positions(way))
WellFormed == TRUE
Laws == TRUE
================================================================================

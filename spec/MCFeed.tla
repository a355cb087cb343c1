--------------------------------- MODULE MCFeed --------------------------------
(* What decoders of data take: a table with one column of every type in turn, written as JSON, YAML and GOB, with every *)
(* node of the document in turn replaced by every kind of value (every number at the limits of the number types among   *)
(* them, in every notation), taken out, doubled, renamed, moved, with something before or after it (kind k of damageTree, damageTails, damageGob of harness/            *)
(* ops_fault.go). The specification says what is taken: the document exactly, or nothing.                               *)
EXTENDS MC

VARIABLES ty, way, k, wide
One == [EmptyTable("T1") EXCEPT !.cols = <<C("a", ty)>>, !.rows = <<<<1>>, <<IF ty = "*Table" THEN 1 ELSE 2>>>>, !.keys = IF ty \in SortTypes THEN <<[c |-> "a", r |-> TRUE]>> ELSE <<>>]
Two == [One EXCEPT !.cols = @ \o <<C("b", "uint8"), C("s", "string")>>, !.rows = <<@[1] \o <<1, 1>>, @[2] \o <<2, 2>>>>]
Nested == [EmptyTable("N") EXCEPT !.cols = <<C("z", "uint16")>>, !.rows = <<<<2>>>>]
Pre == <<BuildOp(Nested), BuildOp(IF wide THEN Two ELSE One), O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> 2])>>
        \o (IF way.s = "s" /\ way.h \in {"table", "byname"} THEN <<O("AppendTable", [s |-> 1, t |-> 1])>> ELSE <<>>)
Wy(f, s, b, h) == [f |-> f, s |-> s, by |-> b, h |-> h]
Ways == {Wy("json", "t", "tree", h) : h \in {"table", "byname"}} \cup {Wy("json", "s", "tree", "set"), Wy("yaml", "s", "tree", "set"), Wy("gob", "t", "gob", "table"), Wy("gob", "s", "parts", "set"), Wy("json", "s", "tree", "table"), Wy("json", "s", "tree", "byname"), Wy("json", "t", "tails", "table"), Wy("json", "t", "tails", "byname"), Wy("json", "s", "tails", "set"), Wy("yaml", "s", "tails", "set")}
KindsOf(w) == CASE w.by = "tree" -> 0..99 [] w.by = "tails" -> 0..44 [] w.by = "gob" -> 0..34 [] w.by = "parts" -> 0..3
Positions == IF way.by \in {"parts", "tails"} THEN 3 ELSE IF way.by = "gob" THEN 11 ELSE IF wide THEN (IF way.s = "s" THEN 47 ELSE 42) ELSE IF way.s = "s" THEN IF way.h = "set" THEN 29 ELSE 47 ELSE 24
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ ty \in AllTypes /\ way \in Ways /\ k \in KindsOf(way) /\ wide \in (IF DEEP THEN BOOLEAN ELSE {FALSE})
        \* the notation of numbers is read the same whichever table of a document is asked for
        /\ (way.h = "byname" /\ way.by = "tree" => k < 42)
        \* one table asked for out of two
        /\ (way.s = "s" /\ way.h # "set" => ty = "int")
        \* what stands before and after a document does not depend on the type
        /\ (way.by = "tails" => ty = "int")
Next == FALSE /\ UNCHANGED <<tab, hist, ty, way, k, wide>>
All == <<ty, way, k, wide>>
Fl(i) == O("FaultDoc", [fmt |-> way.f, src |-> way.s, by |-> way.by, how |-> way.h, t |-> 2, s |-> 1, fs |-> <<[k |-> k, i |-> i]>>])
Emitted == Emit(Pre \o [i \in 1..(Positions + 1) |-> Fl(i - 1)])
WellFormed == TRUE
Laws == TRUE
================================================================================

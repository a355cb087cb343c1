-------------------------------- MODULE MCNames ---------------------------------
(* Names: every string of up to three characters of an alphabet, and type names with and without an addition, wherever a name can be given. *)
EXTENDS MC

VARIABLE first
Alpha == {"a", "Z", "_", "0", "9", " ", "-", ".", "[", "]", "\"", "#", "=", "\t", "*", "é", "١", "K"}
Sub == IF DEEP THEN Alpha ELSE {"a", "_", "0", " ", "]", "é"}
Words == {""} \cup {first} \cup {first \o y : y \in Alpha} \cup {first \o y \o z : y \in Alpha, z \in Sub}
Types == {x \o y : x \in AllTypes \cup {"table", "Table", "nil", "true", "T", "float", "complex64", "uintptr"}, y \in {"", "1", "_", " "}}
Init == first \in Alpha \cup {"types"} /\ tab = EmptyTable("T") /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<tab, hist, first>>
All == first
T0 == [EmptyTable("T") EXCEPT !.cols = <<C("p", "int"), C("q", "string")>>, !.rows = <<<<3, 2>>>>, !.keys = <<[c |-> "q", r |-> TRUE]>>]
Pre == <<BuildOp(T0), O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> 1])>>
Use(w) == <<O("AppendCol", [t |-> 1, c |-> w, ty |-> "int"]), O("HasCol", [t |-> 1, c |-> w]), O("DeleteCol", [t |-> 1, c |-> w]),
            O("RenameCol", [t |-> 1, c |-> "p", c2 |-> w]), O("RenameCol", [t |-> 1, c |-> w, c2 |-> "p"]),
            O("RenameColByColIndex", [t |-> 1, i |-> 1, c2 |-> w]), O("ColIndex", [t |-> 1, c |-> w]), O("RenameColByColIndex", [t |-> 1, i |-> 1, c2 |-> "q"]),
            O("SetName", [t |-> 1, nm |-> w]), O("SetHasTable", [s |-> 1, nm |-> w]), O("RenameTable", [t |-> 1, nm |-> w]), O("RenameTable", [t |-> 1, nm |-> "T"]),
            O("SetRenameTable", [s |-> 1, nm |-> "T", nm2 |-> w]), O("SetRenameTable", [s |-> 1, nm |-> w, nm2 |-> "T"]), O("SetSetName", [s |-> 1, nm |-> w]),
            O("NewTableFromMetadata", [nm |-> w, ns |-> <<"a", "b">>, ts |-> <<"int", "bool">>]), O("NewTableFromMetadata", [nm |-> "M", ns |-> <<"a", w>>, ts |-> <<"int", "bool">>]),
            O("NewTable", [nm |-> w]), O("IsValidTable", [t |-> 1])>>
RECURSIVE Chunks(_)
Chunks(s) == IF s = <<>> THEN TRUE ELSE LET n == IF Len(s) < 4 THEN Len(s) ELSE 4 IN Emit(Pre \o Flat([i \in 1..n |-> Use(s[i])])) /\ Chunks(SubSeq(s, n + 1, Len(s)))
Emitted == Chunks(SetToSeq(IF first = "types" THEN Types ELSE Words))
\* a name is a letter or underscore followed by letters, digits and underscores
WellFormed == \A w \in (IF first = "types" THEN Types ELSE Words) :
                 /\ w # "" => (ValidName(w) <=> w \notin AllTypes /\ Ch(w, 1) \notin Digits /\ {Ch(w, i) : i \in 1..Len(w)} \subseteq Letters \cup Digits)
                 /\ ValidName(w) => \A y \in {"a", "0", "_"} : WellFormedName(w \o y)
Laws == TRUE
================================================================================

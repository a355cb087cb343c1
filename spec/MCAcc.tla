--------------------------------- MODULE MCAcc ---------------------------------
(* Cell access: every column type by every typed setter and getter, by name and by index, valid or not. *)
EXTENDS MC

VARIABLE ty
Other == [EmptyTable("N") EXCEPT !.cols = <<C("z", "int")>>]
\* handle 1: a table to store; handle 2: the table accessed, with a second column on either side
Acc(x) == [EmptyTable("T") EXCEPT !.cols = <<C("p", "int"), C("a", x), C("q", "string")>>, !.rows = <<<<3, IF x = "*Table" THEN 1 ELSE 2, 3>>, <<1, IF x = "*Table" THEN 1 ELSE 1, 2>>>>]
Init == ty \in AllTypes /\ tab = EmptyTable("T") /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<tab, hist, ty>>
All == ty
V(x) == IF x = "*Table" THEN {1} ELSE {1, 2}
SetsN(x) == {O("SetTyped", [t |-> 2, by |-> "n", c |-> c, j |-> j, ty |-> x, v |-> v, must |-> m]) : c \in {"a", "q", "zz", ""}, j \in {0 - 1, 0, 1, 2}, v \in V(x), m \in BOOLEAN}
SetsI(x) == {O("SetTyped", [t |-> 2, by |-> "i", i |-> i, j |-> j, ty |-> x, v |-> v, must |-> m]) : i \in {0 - 1, 1, 2, 3}, j \in {0 - 1, 0, 1, 2}, v \in V(x), m \in BOOLEAN}
GetsN(x) == {O("GetTyped", [t |-> 2, by |-> "n", c |-> c, j |-> j, ty |-> x, must |-> m]) : c \in {"a", "p", "zz", ""}, j \in {0 - 1, 0, 1, 2}, m \in BOOLEAN}
GetsI(x) == {O("GetTyped", [t |-> 2, by |-> "i", i |-> i, j |-> j, ty |-> x, must |-> m]) : i \in {0 - 1, 0, 1, 3}, j \in {0 - 1, 0, 1, 2}, m \in BOOLEAN}
Vals(x) == {O("SetVal", [t |-> 2, c |-> c, j |-> j, v |-> VTok(x, v)]) : c \in {"a", "zz"}, j \in {0 - 1, 0, 1, 2}, v \in V(x)}
           \cup {O("SetValByColIndex", [t |-> 2, i |-> i, j |-> j, v |-> VTok(x, v)]) : i \in {0 - 1, 1, 3}, j \in {0 - 1, 0, 1, 2}, v \in V(x)}
           \cup {O("IsValidColValue", [t |-> 2, c |-> "a", v |-> VTok(x, v)]) : v \in V(x)}
           \cup {O("IsValidCellValue", [t |-> 2, c |-> "a", v |-> VTok(x, v)]) : v \in V(x)}
Rest == {O("GetVal", [t |-> 2, by |-> "n", c |-> c, j |-> j, must |-> m]) : c \in {"a", "zz"}, j \in {0 - 1, 0, 2}, m \in BOOLEAN}
        \cup {O("GetVal", [t |-> 2, by |-> "i", i |-> i, j |-> j, must |-> m]) : i \in {0 - 1, 1, 3}, j \in {0 - 1, 1, 2}, m \in BOOLEAN}
        \cup {O("SetCellToZeroValue", [t |-> 2, c |-> c, j |-> j]) : c \in {"a", "zz"}, j \in {0 - 1, 0, 2}}
        \cup {O("SetCellToZeroValueByColIndex", [t |-> 2, i |-> i, j |-> j]) : i \in {0 - 1, 1, 3}, j \in {0 - 1, 1, 2}}
        \cup {O("SetFloatCellToNaN", [t |-> 2, c |-> c, j |-> j]) : c \in {"a", "zz"}, j \in {0 - 1, 0, 2}}
        \cup {O("SetFloatCellToNaNByColIndex", [t |-> 2, i |-> i, j |-> j]) : i \in {0 - 1, 1, 3}, j \in {0 - 1, 1, 2}}
        \cup {O("SetColCellsToZeroValue", [t |-> 2, c |-> "a"]), O("SetColFloatCellsToNaN", [t |-> 2, c |-> "a"]), O("SetRowCellsToZeroValue", [t |-> 2, j |-> 0]),
              O("SetRowFloatCellsToNaN", [t |-> 2, j |-> 1]), O("SetAllFloatCellsToNaN", [t |-> 2]), O("IsTableCol", [t |-> 2, c |-> "a"])}
        \cup {O("ReadAll", [t |-> 2, route |-> r]) : r \in {"val-n", "val-i", "mval-n", "mval-i", "typed-n", "typed-i", "mtyped-n", "mtyped-i"}}
        \cup {O("IsColType", [t |-> 2, c |-> "a", ty |-> x]) : x \in AllTypes}
Pre == <<BuildOp(Other), BuildOp(Acc(ty))>>
Emitted == /\ \A x \in AllTypes : Emit(Pre \o SetToSeq(SetsN(x) \cup GetsN(x))) /\ Emit(Pre \o SetToSeq(SetsI(x) \cup GetsI(x))) /\ Emit(Pre \o SetToSeq(Vals(x)))
           /\ Emit(Pre \o SetToSeq(Rest))
WellFormed == TRUE
Laws == \A x, y \in AllTypes : SameType(x, y) = SameType(y, x) /\ (SameType(ty, x) /\ SameType(x, y) => SameType(ty, y))
================================================================================

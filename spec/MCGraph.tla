-------------------------------- MODULE MCGraph --------------------------------
(* Nesting: every way of putting three tables (and a NilTable) into each other's cells.                       *)
EXTENDS MC

VARIABLE g        \* cell -> 0 (its own fresh NilTable), 1..3, or 4 (a NilTable that may occur twice)
\* cells: of which table, in which row
Cell == IF DEEP THEN <<<<1, 0>>, <<1, 1>>, <<2, 0>>, <<2, 1>>, <<3, 0>>>> ELSE <<<<1, 0>>, <<1, 1>>, <<2, 0>>, <<3, 0>>>>
Node(k) == [EmptyTable(<<"A", "B", "C">>[k]) EXCEPT !.cols = <<C("x", "*Table")>>]
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ g \in [1..Len(Cell) -> 0..4]
Next == FALSE /\ UNCHANGED <<tab, hist, g>>
All == g
CellsOf(k) == {i \in 1..Len(Cell) : Cell[i][1] = k}
Puts == SelectSeq([i \in 1..Len(Cell) |-> O("SetTyped", [t |-> Cell[i][1], by |-> "n", c |-> "x", j |-> Cell[i][2], ty |-> "*Table", v |-> g[i], must |-> FALSE])], LAMBDA o : o.a.v # 0)
Asks == [i \in 1..21 |-> LET h == ((i - 1) \div 7) + 1 k == (i - 1) % 7 IN
         CASE k = 0 -> O("HasCircularReference", [t |-> h]) [] k = 1 -> O("IsValidTableNesting", [t |-> h]) [] k = 2 -> O("IsValidTable", [t |-> h])
           [] k = 3 -> O("Walk", [t |-> h, nested |-> TRUE, stop |-> 0 - 1]) [] k = 4 -> O("JsonRT", [t |-> h, how |-> "compact"])
           [] k = 5 -> O("Equals", [t |-> h, t2 |-> (h % 3) + 1]) [] k = 6 -> O("CopyDeep", [t |-> h])]
Script == [k \in 1..3 |-> BuildOp(Node(k))] \o <<O("NewNilTable", [x |-> 0])>>
          \o [k \in 1..3 |-> O("AppendRows", [t |-> k, n |-> Cardinality(CellsOf(k))])] \o Puts
          \o <<O("NewTableSet", [nm |-> ""]), O("AppendTable", [s |-> 1, t |-> 1]), O("AppendTable", [s |-> 1, t |-> 2]),
               O("IsValidTableSet", [s |-> 1]), O("SetWalk", [s |-> 1, nested |-> TRUE, stop |-> 0 - 1]), O("SetYamlRT", [s |-> 1, how |-> "yaml"]),
               O("SetCopy", [s |-> 1]), O("StringNested", [t |-> 1])>> \o Asks
Emitted == Emit(Script)

\* three ways to tell whether a table occurs twice in the nesting of h: counting paths, a depth-first search, reachability
Kid(h) == {g[i] : i \in CellsOf(h)} \ {0}
Occ(h, i) == g[i] # 0
RECURSIVE Paths(_, _, _)
\* the number of ways (of at most n steps) from h to x
Paths(h, x, n) == (IF h = x THEN 1 ELSE 0) + (IF n = 0 \/ h = 4 THEN 0 ELSE LET F[i \in 0..Len(Cell)] == IF i = 0 THEN 0 ELSE F[i-1] + (IF Cell[i][1] = h /\ g[i] # 0 THEN Paths(g[i], x, n - 1) ELSE 0) IN F[Len(Cell)])
TwiceByPaths(h) == \E x \in 1..4 : Paths(h, x, 4) >= 2
RECURSIVE Dfs(_, _)
Dfs(todo, seen) == IF todo = <<>> THEN FALSE ELSE LET h == Head(todo) IN
                   IF h \in seen THEN TRUE ELSE Dfs(SelectSeq([i \in 1..Len(Cell) |-> IF Cell[i][1] = h THEN g[i] ELSE 0], LAMBDA y : y # 0) \o Tail(todo), seen \cup {h})
RECURSIVE Reach(_, _)
Reach(hs, n) == IF n = 0 THEN hs ELSE Reach(hs \cup UNION {Kid(h) : h \in hs \cap 1..3}, n - 1)
Below(h) == Reach(Kid(h), 4)
Circular(h) == \E x \in (Below(h) \cup {h}) \cap 1..3 : x \in Below(x)
Laws == \A h \in 1..3 :
          /\ TwiceByPaths(h) = Dfs(<<h>>, {})
          /\ Circular(h) => TwiceByPaths(h)
          \* a repeated table that is no cycle is reached by two cells
          /\ TwiceByPaths(h) /\ ~Circular(h) => \E x \in Below(h) : Cardinality({i \in 1..Len(Cell) : g[i] = x /\ Cell[i][1] \in Below(h) \cup {h}}) >= 2
WellFormed == TRUE
================================================================================

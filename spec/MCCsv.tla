---------------------------------- MODULE MCCsv ----------------------------------
(* Exports: every value of the pool in every column type, in tables of one and several columns and rows, headings. *)
EXTENDS MC

VARIABLES kind, ty, k
PoolSize(x) == Len(H.rank[Grp(x)])
V(x, n) == IF x = "*Table" THEN FRESH ELSE ((n - 1) % PoolSize(x)) + 1
Chunk == 5
Chunks(x) == (PoolSize(x) + Chunk - 1) \div Chunk
Heads == {"", "a", "a,b", "say \"hi\"", "two\nlines", " lead", "trail ", "é", "#", "[x]", "NaN", "\t", "'"}
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ \/ kind = "values" /\ ty \in ScalarTypes /\ k \in 0..(Chunks(ty) - 1)
           \/ kind = "tables" /\ ty = "*Table" /\ k \in 0..2
           \/ kind = "heads" /\ ty \in Heads /\ k \in Heads
           \/ kind = "shapes" /\ ty \in AllTypes /\ k \in AllTypes
Next == FALSE /\ UNCHANGED <<tab, hist, kind, ty, k>>
All == <<kind, ty, k>>
Cells(nc, nr) == Flat([i \in 1..(nc + 2) |-> <<O("JoinCol", [t |-> 1, by |-> "i", i |-> i - 2, j |-> 0, sep |-> ";~|"])>> \o
                        [j \in 1..(nr + 2) |-> O("ValString", [t |-> 1, by |-> "i", i |-> i - 2, j |-> j - 2])]])
Named(cs, nr) == Flat([i \in 1..Len(cs) |-> <<O("ColStrings", [t |-> 1, by |-> "n", c |-> cs[i], i |-> 0]), O("JoinCol", [t |-> 1, by |-> "n", c |-> cs[i], j |-> 0, sep |-> "\n--"])>> \o
                        [j \in 1..nr |-> O("ValString", [t |-> 1, by |-> "n", c |-> cs[i], j |-> j - 1])]])
Csv(hd) == O("CsvOut", [t |-> 1, hd |-> hd])
Vals == [EmptyTable("T") EXCEPT !.cols = <<C("a", ty)>>, !.rows = [j \in 1..Chunk |-> <<V(ty, k * Chunk + j)>>]]
Vals3 == [EmptyTable("T") EXCEPT !.cols = <<C("p", "string"), C("a", ty), C("b", ty)>>, !.rows = [j \in 1..Chunk |-> <<(j % 4) + 1, V(ty, k * Chunk + j), V(ty, k * Chunk + j + 1)>>]]
Two(x, y, n) == [EmptyTable("T") EXCEPT !.cols = <<C("a", x), C("b", y)>>, !.rows = [j \in 1..n |-> <<V(x, j), V(y, j)>>]]
Scripts == CASE kind = "values" -> {<<BuildOp(Vals), Csv(<<>>)>> \o Named(<<"a">>, Chunk), <<BuildOp(Vals3), Csv(<<>>), Csv(<<"x", "", "y,">>)>> \o Cells(3, Chunk)}
             [] kind = "tables" -> {<<BuildOp([EmptyTable("N") EXCEPT !.cols = <<C("z", "int")>>]), BuildOp([EmptyTable("T") EXCEPT !.cols = <<C("n", "*Table")>>, !.rows = [j \in 1..k |-> <<IF j = 1 THEN 1 ELSE FRESH>>]]),
                                      O("CsvOut", [t |-> 2, hd |-> <<>>]), O("ColStrings", [t |-> 2, by |-> "n", c |-> "n", i |-> 0]), O("ValString", [t |-> 2, by |-> "n", c |-> "n", j |-> 0])>>}
             [] kind = "heads" -> {<<BuildOp(Two("int", "bool", n)), Csv(<<ty, k>>), Csv(<<ty>>), Csv(<<k, ty, "x">>), Csv(<<>>)>> : n \in 0..1}
             [] kind = "shapes" -> {<<BuildOp(Two(ty, k, n)), Csv(<<>>), Csv(<<"", "second">>)>> \o Cells(2, n) \o Named(<<"a", "zz", "b">>, n) : n \in {0, 2}}
Emitted == \A s \in Scripts : Emit(s)
WellFormed == TRUE
Laws == TRUE
================================================================================

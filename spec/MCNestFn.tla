-------------------------------- MODULE MCNestFn --------------------------------
(* Nest of every pair of small tables. The rows of the nestable a row gets are those with equal keys: once sorted they *)
(* are neighbours, every one goes to all rows with its keys and to no other.                                           *)
EXTENDS MC

VARIABLES a, b
K(c, r) == [c |-> c, r |-> r]
RowsOf(ks, vs, n) == SeqsUpTo({<<k, v>> : k \in ks, v \in vs}, n)
KV(rows, keys, nm, c2, ty) == [EmptyTable(nm) EXCEPT !.cols = <<C("k", "int"), C(c2, ty)>>, !.rows = rows, !.keys = keys]
KeyChoices == {<<<<K("k", FALSE)>>, <<>>>>, <<<<>>, <<K("k", TRUE)>>>>, <<<<K("k", TRUE)>>, <<K("k", FALSE)>>>>}
Pairs == {<<KV(r1, ks[1], "A", "v", "string"), KV(r2, ks[2], "B", "w", "string")>> : r1 \in RowsOf({1, 3}, {2}, 2), r2 \in RowsOf({1, 3}, {2, 3}, IF DEEP THEN 3 ELSE 2), ks \in KeyChoices}
\* two keys, strings without regard to case first
Two(rows, keys, nm) == [EmptyTable(nm) EXCEPT !.cols = <<C("s", "string"), C("k", "int")>>, !.rows = rows, !.keys = keys]
Twos == {<<Two(r1, <<K("s", FALSE), K("k", TRUE)>>, "A"), Two(r2, <<>>, "B")>> : r1 \in SeqsUpTo({<<2, 1>>, <<3, 1>>, <<3, 3>>}, 2), r2 \in SeqsUpTo({<<2, 1>>, <<3, 1>>, <<3, 3>>}, 2)}
Bad == {NilRec, EmptyTable("E"), KV(<<<<3, 2>>>>, <<>>, "A", "v", "string"), KV(<<<<3, 2>>>>, <<K("k", FALSE)>>, "B", "v", "string"), KV(<<<<3, 2>>>>, <<K("v", FALSE)>>, "D", "v", "string"),
        \* keys of several columns, of which the other table has some, or of another type
        [EmptyTable("H") EXCEPT !.cols = <<C("k", "int"), C("v", "int")>>, !.rows = <<<<3, 2>>>>, !.keys = <<K("k", FALSE), K("v", FALSE)>>],
        [EmptyTable("I") EXCEPT !.cols = <<C("z", "int"), C("k", "int")>>, !.rows = <<<<3, 2>>>>, !.keys = <<K("k", TRUE), K("z", FALSE)>>],
        [EmptyTable("J") EXCEPT !.cols = <<C("k", "int"), C("v", "string"), C("z", "int")>>, !.rows = <<<<3, 2, 1>>>>],
        [EmptyTable("F") EXCEPT !.cols = <<C("k", "string")>>, !.rows = <<<<2>>>>, !.keys = <<K("k", FALSE)>>], [EmptyTable("G") EXCEPT !.cols = <<C("z", "int"), C("n", "*Table")>>, !.rows = <<<<2, FRESH>>>>]}
Nested == {<<KV(<<<<3, 2>>>>, <<K("k", FALSE)>>, "A", "v", "string"), [EmptyTable("N") EXCEPT !.cols = <<C("k", "int"), C("n", "*Table"), C("x", ty)>>, !.rows = <<<<3, FRESH, 1>>, <<3, FRESH, 2>>, <<1, FRESH, 1>>>>]>> : ty \in ScalarTypes}
Init == tab = EmptyTable("T") /\ hist = <<>> /\ \E p \in Pairs \cup Twos \cup Nested \cup (Bad \X Bad) : a = p[1] /\ b = p[2]
Next == FALSE /\ UNCHANGED <<tab, hist, a, b>>
All == <<a, b>>
Make(x) == IF x.nil THEN O("NewNilTable", [nm |-> ""]) ELSE BuildOp(x)
Emitted == Emit(<<Make(a), Make(b)>> \o (IF a = b \/ a.nil THEN <<>> ELSE <<O("Nest", [t |-> 1, t2 |-> 2, c |-> "v"])>>)
                \o <<O("Nest", [t |-> 1, t2 |-> 2, c |-> "n"]), O("Nest", [t |-> 1, t2 |-> 0, c |-> "n"]), O("Nest", [t |-> 0, t2 |-> 1, c |-> "n"]), O("Nest", [t |-> 1, t2 |-> 2, c |-> "9"]),
                     O("GetSortKeysAsTable", [t |-> 2]), O("Nest", [t |-> 2, t2 |-> 1, c |-> "m"])>>)
WellFormed == \A x \in {a, b} : WFCols(x) /\ WFKeys(x)
NestKeys2 == MergeKeys(a, b)
Legal == ~a.nil /\ ~b.nil /\ NestKeys2 # <<>> /\ \A i \in 1..Len(NestKeys2) : HasC(a, NestKeys2[i].c) /\ HasC(b, NestKeys2[i].c) /\ TypeOf(a, NestKeys2[i].c) = TypeOf(b, NestKeys2[i].c)
Laws == Legal =>
        LET x == FSort([a EXCEPT !.keys = NestKeys2]) y == FSort([b EXCEPT !.keys = NestKeys2])
            KVx(j) == KeyVals(KeyInfo(x), x.rows[j]) KVy(i) == KeyVals(KeyInfo(y), y.rows[i])
            M(j) == {i \in 1..NR(y) : CmpKR(KeyInfo(x), KVy(i), KVx(j), 1, FALSE) = 0}
        IN /\ \A j \in 1..NR(x) : \A p, q \in M(j) : \A r \in p..q : r \in M(j)
           /\ \A j, l \in 1..NR(x) : KVx(j) = KVx(l) => M(j) = M(l)
           /\ \A i \in 1..NR(y) : \A j \in 1..NR(x) : (i \in M(j)) <=> KVx(j) = KVy(i)
           /\ \A j, l \in 1..NR(x) : M(j) \cap M(l) # {} => M(j) = M(l)
================================================================================

---------------------------------- MODULE MCRT ----------------------------------
(* Round trips through one format ($FMT): every value of the pool in every column type, every pair of column types, *)
(* with and without rows, columns, keys, struct shape; sets of such tables; nested tables. Trace.tla judges them.   *)
EXTENDS MC

FMT == IOEnv.FMT
VARIABLES kind, ty, k
PoolSize(x) == Len(H.rank[Grp(x)])
Hows == CASE FMT = "text" -> <<"padded", "unpadded", "string", "file", "byname", "byindex", "filename", "must", "set">>
          [] FMT = "json" -> <<"compact", "indent", "byname">>
          [] FMT = "yaml" -> <<>>
          [] FMT = "gob" -> <<"decode", "new">>
SetHows == CASE FMT = "text" -> <<"padded", "unpadded", "string", "file">>
             [] FMT = "json" -> <<"compact", "indent">>
             [] FMT = "yaml" -> <<"yaml">>
             [] FMT = "gob" -> <<"decode", "new">>
TOp == CASE FMT = "text" -> "TextRT" [] FMT = "json" -> "JsonRT" [] FMT = "gob" -> "GobRT" [] OTHER -> ""
SOp == CASE FMT = "text" -> "SetTextRT" [] FMT = "json" -> "SetJsonRT" [] FMT = "yaml" -> "SetYamlRT" [] FMT = "gob" -> "SetGobRT"
\* one way for each table, all ways over the model: n picks
One(h, n) == IF Hows = <<>> THEN <<>> ELSE <<O(TOp, [t |-> h, how |-> Hows[(n % Len(Hows)) + 1]])>>
All9(h) == [n \in 1..Len(Hows) |-> O(TOp, [t |-> h, how |-> Hows[n]])]
AllS(s) == [n \in 1..Len(SetHows) |-> O(SOp, [s |-> s, how |-> SetHows[n]])]
Ss(h, b) == IF b THEN <<O("SetStructShape", [t |-> h, b |-> TRUE])>> ELSE <<>>
InSet(nm, hs) == <<O("NewTableSet", [nm |-> nm])>> \o [i \in 1..Len(hs) |-> O("AppendTable", [s |-> 1, t |-> hs[i]])]
V(x, n) == IF x = "*Table" THEN FRESH ELSE ((n - 1) % PoolSize(x)) + 1
Chunk == 4
Chunks(x) == (PoolSize(x) + Chunk - 1) \div Chunk
Scalars == AllTypes \ {"*Table"}
Pairs == IF DEEP THEN Scalars \cup {"*Table"} ELSE {"*Table", "bool", "string", "[]byte", "float64", "time.Time", "int8", "rune"}
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ \/ kind = "values" /\ ty \in Scalars /\ k \in 0..(Chunks(ty) - 1)
           \/ kind = "pairs" /\ ty \in AllTypes /\ k \in Pairs
           \/ kind = "sets" /\ ty \in {"", "S"} /\ k \in [1..3 -> {"-", "nil", "nocols", "norows", "struct", "empty", "full", "keyed"}]
           \/ kind = "nested" /\ ty \in {"-", "empty", "nil", "full", "chain", "self", "twice", "shared"} /\ k \in {1, 2, 3}
Next == FALSE /\ UNCHANGED <<tab, hist, kind, ty, k>>
All == <<kind, ty, k>>

\* a chunk of values: as rows between two other columns, and each alone as a table of struct shape
VRows == LET x == EmptyTable("T") IN
         [x EXCEPT !.cols = <<C("p", "string"), C("a", ty), C("b", ty)>>, !.rows = [j \in 1..Chunk |-> <<j, V(ty, k * Chunk + j), V(ty, k * Chunk + j + 1)>>]]
VOne(j) == [EmptyTable("V") EXCEPT !.cols = <<C("a", ty), C("q", "int")>>, !.rows = <<<<V(ty, k * Chunk + j), j>>>>]
\* the tables a round trip makes take handles of their own, so each table is built in a behaviour of its own
ValueScripts == {<<BuildOp(VRows)>> \o All9(1), <<BuildOp(VRows)>> \o InSet("S", <<1>>) \o AllS(1)}
    \cup {<<BuildOp(VOne(j))>> \o Ss(1, TRUE) \o (IF DEEP THEN All9(1) ELSE One(1, j + k)) \o InSet("", <<1>>) \o (IF FMT = "yaml" \/ DEEP THEN AllS(1) ELSE <<>>) : j \in 1..Chunk}
PTab(n) == [EmptyTable("T") EXCEPT !.cols = <<C("x", ty), C("y", k)>>, !.rows = [j \in 1..n |-> <<V(ty, j), V(k, j + 1)>>]]
PairScripts == {<<BuildOp(PTab(n))>> \o Ss(1, b) \o (IF n = 2 THEN All9(1) ELSE One(1, n)) \o InSet("S", <<1>>) \o AllS(1) : n \in 0..2, b \in BOOLEAN}
\* sort keys: of both columns, either first, in every combination of directions
PKeys(d, r1, r2) == [PTab(2) EXCEPT !.keys = IF d THEN <<[c |-> "x", r |-> r1], [c |-> "y", r |-> r2]>> ELSE <<[c |-> "y", r |-> r2], [c |-> "x", r |-> r1]>>]
KeyScripts == IF ty \notin SortTypes \/ k \notin SortTypes THEN {}
              ELSE {<<BuildOp(PKeys(q[1], q[2], q[3]))>> \o (IF FMT = "gob" THEN All9(1) ELSE One(1, Len(ty))) \o InSet("S", <<1>>) \o (IF FMT = "gob" THEN AllS(1) ELSE <<>>) :
                    q \in IF FMT = "gob" THEN BOOLEAN \X BOOLEAN \X BOOLEAN ELSE {<<TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE>>}}
STab(nm, s) == CASE s = "nil" -> O("NewNilTable", [x |-> 0])
                 [] s = "nocols" -> BuildOp(EmptyTable(nm))
                 [] s = "norows" -> BuildOp([EmptyTable(nm) EXCEPT !.cols = <<C("a", "string"), C("b", "byte")>>])
                 [] s \in {"struct", "empty"} -> BuildOp([EmptyTable(nm) EXCEPT !.cols = <<C("a", "string")>>, !.rows = <<<<IF s = "empty" THEN 1 ELSE 2>>>>])
                 [] s = "full" -> BuildOp([EmptyTable(nm) EXCEPT !.cols = <<C("a", "int"), C("b", "bool")>>, !.rows = <<<<1, 2>>, <<2, 1>>>>])
                 [] s = "keyed" -> BuildOp([EmptyTable(nm) EXCEPT !.cols = <<C("a", "int"), C("b", "bool")>>, !.rows = <<<<1, 2>>>>, !.keys = <<[c |-> "b", r |-> TRUE], [c |-> "a", r |-> FALSE]>>])
Here == SelectSeq(<<1, 2, 3>>, LAMBDA i : k[i] # "-")
SetScripts == {LET n == Len(Here) IN
               [i \in 1..n |-> STab(<<"T1", "T2", "T3">>[i], k[Here[i]])] \o Flat([i \in 1..n |-> Ss(i, k[Here[i]] = "struct")]) \o InSet(ty, [i \in 1..n |-> i]) \o AllS(1)
               \o (IF FMT \in {"text", "json"} THEN [i \in 1..3 |-> O("SetPick", [s |-> 1, nm |-> <<"T1", "T3", "zz">>[i], i |-> i, how |-> <<IF FMT = "json" THEN "json" ELSE "name", IF FMT = "json" THEN "onejson" ELSE "index", IF FMT = "json" THEN "json" ELSE "one">>[i]])] ELSE <<>>)}
Leaf == [EmptyTable("N") EXCEPT !.cols = <<C("a", "string"), C("b", "float64")>>, !.rows = <<<<2, 5>>, <<1, 4>>>>]
Outer(nm, v, n) == [EmptyTable(nm) EXCEPT !.cols = <<C("a", "int"), C("n", "*Table")>>, !.rows = [j \in 1..n |-> <<j, IF j = n THEN v ELSE FRESH>>]]
\* handle 1: the table nested; handle 2: the outer one
NestScripts == {CASE ty = "-" -> <<BuildOp(Leaf), BuildOp(Outer("O", FRESH, 0))>>
                  [] ty = "empty" -> <<BuildOp(EmptyTable("E")), BuildOp(Outer("O", 1, k))>>
                  [] ty = "nil" -> <<O("NewNilTable", [x |-> 0]), BuildOp(Outer("O", 1, k))>>
                  [] ty = "full" -> <<BuildOp(Leaf), BuildOp(Outer("O", 1, k))>>
                  [] ty = "chain" -> <<BuildOp(Outer("M", FRESH, k)), BuildOp(Outer("O", 1, k))>>
                  [] ty = "self" -> <<BuildOp(Leaf), BuildOp(Outer("O", 1, k)), O("SetTyped", [t |-> 2, by |-> "n", c |-> "n", j |-> 0, ty |-> "*Table", v |-> 2, must |-> FALSE])>>
                  [] ty = "twice" -> <<BuildOp(Leaf), BuildOp(Outer("O", 1, k)), O("AppendRow", [t |-> 2]), O("SetVal", [t |-> 2, c |-> "n", j |-> k, v |-> VTok("*Table", 1)])>>
                  [] ty = "shared" -> <<BuildOp(Leaf), BuildOp(Outer("O", 1, k)), O("SetName", [t |-> 1, nm |-> "O"])>>}
AfterNest == All9(2) \o InSet("S", <<2>>) \o AllS(1) \o <<O("AppendTable", [s |-> 1, t |-> 1])>> \o AllS(1)
Scripts == CASE kind = "values" -> ValueScripts [] kind = "pairs" -> PairScripts \cup KeyScripts [] kind = "sets" -> SetScripts [] kind = "nested" -> {p \o AfterNest : p \in NestScripts}
Emitted == \A s \in Scripts : Emit(s)
WellFormed == TRUE
Laws == TRUE
================================================================================

-------------------------------- MODULE MCBits ---------------------------------
(* Every value of the pool of single differences (one bit, letter, second, byte of length ... away from another one), *)
(* in every column type: told apart, ordered, found, merged and carried ($WHAT says by what) as the specification has *)
(* it. The laws show that the description of the values is a total order that agrees with equality.                   *)
EXTENDS MC

WHAT == IOEnv.WHAT
VARIABLES ty, k
Size(x) == Len(H.rank[Grp(x)])
Chunk == IF WHAT \in {"text", "json", "yaml", "gob"} THEN 16 ELSE 8
Chunks(x) == (Size(x) + Chunk - 1) \div Chunk
Types == IF WHAT \in {"sort", "search", "unique", "nest"} THEN SortTypes ELSE ScalarTypes
Init == ty \in Types /\ k \in 0..(Chunks(ty) - 1) /\ tab = EmptyTable("T") /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<tab, hist, ty, k>>
All == <<ty, k>>

Base == H.base[Grp(ty)]
V(n) == ((n - 1) % Size(ty)) + 1
Tok(i) == V(k * Chunk + i)
Ks == <<[c |-> "a", r |-> FALSE]>>
One(nm, v) == [EmptyTable(nm) EXCEPT !.cols = <<C("a", ty)>>, !.rows = <<<<v>>>>]
Put(h, v) == O("SetVal", [t |-> h, c |-> "a", j |-> 0, v |-> VTok(ty, v)])
Each(f(_)) == Flat([i \in 1..Chunk |-> f(Tok(i))])
Eq2 == <<O("Equals", [t |-> 1, t2 |-> 2]), O("Equals", [t |-> 2, t2 |-> 1])>>
Mix(i) == IF i % 2 = 0 THEN Tok(i) ELSE IF i = 5 THEN Base ELSE Tok(Chunk + 1 - i)
Column(n, v(_)) == [EmptyTable("T") EXCEPT !.cols = <<C("p", "int"), C("a", ty)>>, !.rows = [j \in 1..n |-> <<(j % 4) + 1, v(j)>>]]
\* sorted: the base and the values, ascending; NaN is not searched for
Sorted2 == LET s == FSort([Column(Chunk + 1, LAMBDA j : IF j = 1 THEN Base ELSE Tok(j - 1)) EXCEPT !.keys = Ks])
           IN [s EXCEPT !.rows = Sel(@, LAMBDA r : ~IsNaNTok(ty, r[2]))]
Spec(s) == CASE s = "equals" -> {<<BuildOp(One("T", Base)), BuildOp(One("T", Base))>> \o Each(LAMBDA v : <<Put(2, v)>> \o Eq2) \o Each(LAMBDA v : <<Put(1, v)>> \o Eq2 \o <<Put(2, v)>> \o Eq2)}
             [] s = "sort" -> {<<BuildOp(Column(Chunk, Mix)), O("Sort", [t |-> 1, cs |-> <<"a">>]), O("SetSortKeysReverse", [t |-> 1, cs |-> <<"a">>]), O("Sort", [t |-> 1, cs |-> <<>>])>>
                                 \o <<BuildOp([One("T", Base) EXCEPT !.rows = <<<<Base>>, <<Base>>>>, !.keys = Ks])>>
                                 \o Each(LAMBDA v : <<Put(2, v), O("CompareRows", [t |-> 2, i |-> 0, j |-> 1]), O("CompareRows", [t |-> 2, i |-> 1, j |-> 0])>>)}
             [] s = "search" -> {<<BuildOp(Sorted2)>> \o Flat([i \in 1..Chunk + 2 |-> LET v == IF i = 1 THEN Base ELSE V(k * Chunk + i - 1) IN
                                        IF IsNaNTok(ty, v) THEN <<>> ELSE [n \in 1..4 |-> O(<<"Search", "SearchFirst", "SearchLast", "SearchRange">>[n], [t |-> 1, vs |-> <<VTok(ty, v)>>])]])}
             [] s = "unique" -> {<<BuildOp([Column(Chunk + 1, LAMBDA j : IF j = 1 THEN Base ELSE Mix(j - 1)) EXCEPT !.keys = Ks]), O("SortUnique", [t |-> 1, cs |-> <<>>])>>,
                                 <<BuildOp([One("T", Base) EXCEPT !.rows = <<<<Base>>, <<Base>>>>, !.keys = Ks])>> \o Each(LAMBDA v : <<Put(1, v), O("SortUnique", [t |-> 1, cs |-> <<>>])>>)}
             [] s = "merge" -> {<<BuildOp([EmptyTable("T") EXCEPT !.cols = <<C("p", "int"), C("a", ty)>>, !.rows = <<<<1, v>>>>, !.keys = <<[c |-> "p", r |-> FALSE]>>]),
                                  BuildOp([EmptyTable("U") EXCEPT !.cols = <<C("p", "int"), C("a", ty)>>, !.rows = <<<<1, Base>>>>, !.keys = <<[c |-> "p", r |-> FALSE]>>])>>
                                 \o Each(LAMBDA w : <<Put(2, w), O("Merge", [t |-> 1, t2 |-> 2])>>) : v \in {ZeroTok(ty), Base}}
                               \cup (IF ty \in SortTypes THEN {<<BuildOp([One("T", Base) EXCEPT !.keys = Ks]), BuildOp([One("U", Base) EXCEPT !.keys = Ks])>>
                                 \o Each(LAMBDA w : <<Put(2, w), O("Merge", [t |-> 1, t2 |-> 2])>>)} ELSE {})
             [] s = "cells" -> {<<BuildOp(Column(2, LAMBDA j : Base))>> \o Flat([i \in 1..Chunk |->
                                    <<O("SetTyped", [t |-> 1, by |-> IF b THEN "n" ELSE "i", c |-> "a", i |-> 1, j |-> i % 2, ty |-> ty, v |-> Tok(i), must |-> b]),
                                      O("GetTyped", [t |-> 1, by |-> IF b THEN "i" ELSE "n", c |-> "a", i |-> 1, j |-> i % 2, ty |-> ty, must |-> b]),
                                      O("GetVal", [t |-> 1, by |-> IF b THEN "i" ELSE "n", c |-> "a", i |-> 1, j |-> i % 2, must |-> b])>>])
                                 \o <<O("SetVal", [t |-> 1, c |-> "a", j |-> 0, v |-> VTok(ty, Tok(1))]), O("SetValByColIndex", [t |-> 1, i |-> 1, j |-> 1, v |-> VTok(ty, Tok(2))])>> : b \in BOOLEAN}
             [] s = "nest" -> {<<BuildOp([Column(4, LAMBDA j : IF j = 1 THEN Base ELSE Tok(j)) EXCEPT !.keys = Ks]),
                                 BuildOp([EmptyTable("U") EXCEPT !.cols = <<C("q", "int"), C("a", ty)>>, !.rows = [j \in 1..Chunk + 2 |-> <<(j % 4) + 1, IF j <= 2 THEN Base ELSE Tok(j - 2)>>], !.keys = Ks]),
                                 O("Nest", [t |-> 1, t2 |-> 2, c |-> "n"])>>}
             [] s = "copy" -> {<<BuildOp(Column(Chunk, Tok)), O("Copy", [t |-> 1]), O("CopyDeep", [t |-> 1]), O("NewTableFromRows", [t |-> 1, nm |-> "U", i |-> 0, j |-> Chunk - 1])>>}
             [] s = "csv" -> {<<BuildOp(Column(Chunk, Tok)), O("CsvOut", [t |-> 1, hd |-> <<>>]), O("ColStrings", [t |-> 1, by |-> "n", c |-> "a", i |-> 0]), O("JoinCol", [t |-> 1, by |-> "i", i |-> 1, j |-> 0, sep |-> ";~|"])>>
                                \o [j \in 1..Chunk |-> O("ValString", [t |-> 1, by |-> "n", c |-> "a", j |-> j - 1])]}
             [] s \in {"text", "json", "yaml", "gob"} ->
                  LET x == [Column(Chunk, Tok) EXCEPT !.cols = <<C("p", "int"), C("a", ty)>>]
                      in == <<O("NewTableSet", [nm |-> "S"]), O("AppendTable", [s |-> 1, t |-> 1])>>
                      tops == CASE s = "text" -> [n \in 1..5 |-> O("TextRT", [t |-> 1, how |-> <<"padded", "unpadded", "string", "file", "must">>[n]])]
                                [] s = "json" -> [n \in 1..2 |-> O("JsonRT", [t |-> 1, how |-> <<"compact", "indent">>[n]])]
                                [] s = "gob" -> <<O("GobRT", [t |-> 1, how |-> "decode"])>>
                                [] OTHER -> <<>>
                      sops == CASE s = "text" -> <<O("SetTextRT", [s |-> 1, how |-> "padded"])>>
                                [] s = "json" -> <<O("SetJsonRT", [s |-> 1, how |-> "compact"])>>
                                [] s = "gob" -> <<O("SetGobRT", [s |-> 1, how |-> "decode"])>>
                                [] OTHER -> <<O("SetYamlRT", [s |-> 1, how |-> "yaml"])>>
                      wide == [EmptyTable("V") EXCEPT !.cols = [i \in 1..6 |-> C(<<"a", "b", "c", "d", "e", "f">>[i], ty)], !.rows = <<[i \in 1..6 |-> Tok(i)]>>]
                  IN {<<BuildOp(x)>> \o tops \o in \o sops, <<BuildOp(wide), O("SetStructShape", [t |-> 1, b |-> TRUE])>> \o tops \o in \o sops}
Scripts == Spec(WHAT)
Emitted == \A s \in Scripts : Emit(s)
WellFormed == Base \in 1..Size(ty)
Laws == \A i \in 1..Chunk : LET v == Tok(i) IN \A w \in 1..Size(ty) :
            /\ EqTok(ty, v, w) => EqTok(ty, w, v)
            /\ ~(IsNaNTok(ty, v) \/ IsNaNTok(ty, w)) => (v = w => EqTok(ty, v, w))
            /\ ty \in SortTypes => /\ CmpVal(ty, v, w) = 0 - CmpVal(ty, w, v)
                                   /\ ~(IsNaNTok(ty, v) \/ IsNaNTok(ty, w)) => (CmpVal(ty, v, w) = 0) = EqTok(ty, v, w)
                                   /\ CmpVal(ty, v, w) <= 0 /\ CmpVal(ty, w, Base) <= 0 => CmpVal(ty, v, Base) <= 0
================================================================================

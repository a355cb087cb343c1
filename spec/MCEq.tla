---------------------------------- MODULE MCEq ----------------------------------
(* Equality: every pair of tables of a small universe. *)
EXTENDS MC

VARIABLE a
F(nm, cols, rows) == [EmptyTable(nm) EXCEPT !.cols = cols, !.rows = rows]
IC == <<C("a", "int")>>
FC == <<C("a", "float64")>>
IF2 == <<C("a", "int"), C("b", "float64")>>
FI2 == <<C("b", "float64"), C("a", "int")>>
U == {F("A", <<>>, <<>>), F("B", <<>>, <<>>), F("A", <<>>, <<<<>>>>), F("A", IC, <<>>), F("A", FC, <<>>), F("A", <<C("b", "int")>>, <<>>),
      F("A", <<C("a", "uint")>>, <<<<2>>>>), F("A", <<C("a", "byte")>>, <<<<2>>>>), F("A", <<C("a", "uint8")>>, <<<<2>>>>), F("A", <<C("a", "string")>>, <<<<2>>>>), F("A", <<C("a", "string")>>, <<<<3>>>>),
      F("A", <<C("a", "[]byte")>>, <<<<1>>>>), F("A", <<C("a", "[]byte")>>, <<<<2>>>>), F("A", <<C("a", "time.Time")>>, <<<<1>>>>), F("A", <<C("a", "time.Time")>>, <<<<2>>>>)}
     \cup {F("A", IC, r) : r \in SeqsUpTo({<<1>>, <<3>>}, 2)}
     \cup {F("A", FC, <<<<v>>>>) : v \in 1..5}
     \cup {F("A", IF2, <<<<x, y>>>>) : x \in {2, 3}, y \in {3, 4, 5}} \cup {F("A", FI2, <<<<y, x>>>>) : x \in {2, 3}, y \in {4, 5}}
     \cup (IF DEEP THEN {F("A", IF2, r) : r \in SeqsUpTo({<<x, y>> : x \in {2, 3}, y \in {1, 3, 4}}, 2)} ELSE {})
     \cup {[F("A", IC, <<<<3>>>>) EXCEPT !.ss = TRUE], [F("A", IC, <<<<3>>>>) EXCEPT !.keys = <<[c |-> "a", r |-> TRUE]>>]}
Init == a \in U /\ tab = EmptyTable("T") /\ hist = <<>>
Next == FALSE /\ UNCHANGED <<tab, hist, a>>
All == a
Us == SetToSeq(U)
Mk(x, h) == <<BuildOp(x)>> \o (IF x.ss THEN <<O("SetStructShape", [t |-> h, b |-> TRUE])>> ELSE <<>>)
RECURSIVE Pairs(_, _)
Pairs(i, h) == IF i > Len(Us) THEN <<>> ELSE Mk(Us[i], h) \o <<O("Equals", [t |-> 1, t2 |-> h]), O("Equals", [t |-> h, t2 |-> 1])>> \o Pairs(i + 1, h + 1)
Emitted == Emit(Mk(a, 1) \o <<O("Equals", [t |-> 1, t2 |-> 1])>> \o Pairs(1, 2))
Eq(x, y) == /\ x.nil = y.nil /\ x.nm = y.nm /\ NC(x) = NC(y) /\ NR(x) = NR(y)
            /\ \A i \in 1..NC(x) : HasC(y, x.cols[i].n) /\ TypeOf(y, x.cols[i].n) = x.cols[i].t
            /\ \A i \in 1..NC(x) : \A j \in 1..NR(x) : EqTok(x.cols[i].t, x.rows[j][i], y.rows[j][CI(y, x.cols[i].n)])
HasNaN(x) == \E i \in 1..NC(x) : \E j \in 1..NR(x) : IsNaNTok(x.cols[i].t, x.rows[j][i])
WellFormed == WF(a)
Laws == /\ Eq(a, a) = ~HasNaN(a)
        /\ \A x \in U : /\ Eq(a, x) = Eq(x, a)
                        /\ Eq(a, x) => \A y \in U : Eq(x, y) = Eq(a, y)
                        /\ Eq(a, x) => IsPerm(a.cols, x.cols)
================================================================================

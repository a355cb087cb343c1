--------------------------------- MODULE MCSet ---------------------------------
(* Table sets: three tables and a NilTable that can be appended, renamed, deleted; names are looked up. *)
EXTENDS MC

\* tab: [nm: names of the tables 1..4 ("" for a NilTable), set: the handles in set 1]
Names == {"A", "B", "C"}
Nm(h) == tab.nm[h]
Named(nm) == {i \in 1..Len(tab.set) : Nm(tab.set[i]) = nm}
First(nm) == CHOOSE i \in Named(nm) : \A k \in Named(nm) : i <= k
Hs == 1..4
Idx == (0 - 1)..Len(tab.set)
AnyNames == Names \cup {"", "9x", "int"}
Max == IF DEEP THEN 4 ELSE 3
Edges == {E(O("AppendTable", [s |-> 1, t |-> h]), Named(Nm(h)) = {}, [tab EXCEPT !.set = Append(@, h)]) : h \in Hs}
    \cup {E(O("Append", [s |-> 1, t |-> h]), Named(Nm(h)) = {}, [tab EXCEPT !.set = Append(@, h)]) : h \in Hs}
    \cup {E(O("DeleteTable", [s |-> 1, nm |-> n]), Named(n) # {}, [tab EXCEPT !.set = Drop(@, First(n))]) : n \in AnyNames}
    \cup {E(O("DeleteTableByTableIndex", [s |-> 1, i |-> i]), i >= 0 /\ i < Len(tab.set), [tab EXCEPT !.set = Drop(@, i + 1)]) : i \in Idx}
    \cup {E(O("SetRenameTable", [s |-> 1, nm |-> n, nm2 |-> m]), Named(n) # {} /\ Named(m) = {} /\ ValidName(m), [tab EXCEPT !.nm[tab.set[First(n)]] = m]) : n \in AnyNames, m \in AnyNames}
    \cup {E(O("SetName", [t |-> h, nm |-> n]), ValidName(n), [tab EXCEPT !.nm[h] = n]) : h \in {1}, n \in {"B", "9x"}}
    \cup {Ask1(O("SetGetTable", [s |-> 1, nm |-> n])) : n \in AnyNames} \cup {Ask1(O("SetHasTable", [s |-> 1, nm |-> n])) : n \in AnyNames}
    \cup {Ask1(O("SetTableIndex", [s |-> 1, nm |-> n])) : n \in AnyNames} \cup {Ask1(O("SetGetTableByTableIndex", [s |-> 1, i |-> i])) : i \in Idx}
    \cup {Ask1(O("SetTableCount", [s |-> 1])), Ask1(O("IsValidTableSet", [s |-> 1])), Ask1(O("SetGetName", [s |-> 1])),
          Ask1(O("SetWalk", [s |-> 1, nested |-> FALSE, stop |-> 0 - 1])), Ask1(O("SetEquals", [s |-> 1, s2 |-> 1])), Ask1(O("SetEquals", [s |-> 1, s2 |-> 2])),
          Ask1(O("SetEquals", [s |-> 2, s2 |-> 1]))}
Copies == <<O("SetCopy", [s |-> 1])>>
Tb(n) == O("Build", [nm |-> n, cols |-> <<C("a", "int")>>, rows |-> <<<<3>>>>, keys |-> <<>>])
Init == /\ tab = [nm |-> <<"A", "B", "C", "">>, set |-> <<>>]
        /\ hist = <<Tb("A"), Tb("B"), Tb("C"), O("NewNilTable", [x |-> 0]), O("NewTableSet", [nm |-> "S"]), O("NewTableSet", [nm |-> "S2"]), O("AppendTable", [s |-> 2, t |-> 2])>>
Next == StepBy(Edges, LAMBDA x : Len(x.set) <= Max)
Emitted == EmitBy(Edges) /\ Emit(hist \o Copies)
\* names are unique as long as no member was renamed directly; table 1 is the only one that is
WellFormed == \A i, j \in 1..Len(tab.set) : i # j /\ Nm(tab.set[i]) = Nm(tab.set[j]) => 1 \in {tab.set[i], tab.set[j]} \/ tab.nm[1] = "B" \/ \E o \in Range(hist) : o.op = "SetName" /\ o.a.nm = "B"
Laws == /\ \A i \in 1..Len(tab.set) : First(Nm(tab.set[i])) <= i
        /\ Len(tab.set) <= Max + 1
================================================================================

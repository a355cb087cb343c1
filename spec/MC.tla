---------------------------------- MODULE MC ----------------------------------
(* Common to the exhaustive models. A model explores a small part of the state space of Gotables, checks laws of *)
(* the specification on it, and prints the behaviours it finds as scripts ("SCRIPT [{op, a}, ...]"): bin/check   *)
(* replays them into the real package and has the recorded executions judged by Trace.tla.                       *)
(* Values are those of the driver's smallest pool, whose description is read from $HEADER.                       *)
EXTENDS Gotables, Json, IOUtils

HeaderFile == ndJsonDeserialize(IOEnv.HEADER)      \* a constant: read once (what is put in the place of a constant is not)
Header == HeaderFile[1]
DEEP == "DEEP" \in DOMAIN IOEnv /\ IOEnv.DEEP = "1"
RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})
O(op, a) == [op |-> op, a |-> a]
Emit(s) == PrintT("SCRIPT " \o ToJson(s))
EmitSet(pre, os) == IF os = {} THEN TRUE ELSE Emit(pre \o SetToSeq(os))

VTok(ty, v) == [t |-> ty, v |-> v]
C(n, ty) == [n |-> n, t |-> ty]
BuildOp(x) == O("Build", [nm |-> x.nm, cols |-> x.cols, rows |-> x.rows, keys |-> x.keys])
KeyLists(x, n) == UNION {[1..k -> [c : {x.cols[i].n : i \in 1..NC(x)}, r : BOOLEAN]] : k \in 0..n}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : p[i] = p[j] => i = j}

(* A stable insertion sort by the keys ki: one outcome the specification of Sort allows. *)
RECURSIVE InsertRow(_, _, _)
InsertRow(ki, rows, r) == IF rows = <<>> THEN <<r>>
                          ELSE IF CmpRows(ki, rows[Len(rows)], r, TRUE) <= 0 THEN Append(rows, r)
                          ELSE Append(InsertRow(ki, SubSeq(rows, 1, Len(rows) - 1), r), rows[Len(rows)])
RECURSIVE SortRows(_, _)
SortRows(ki, rows) == IF rows = <<>> THEN <<>> ELSE InsertRow(ki, SortRows(ki, SubSeq(rows, 1, Len(rows) - 1)), rows[Len(rows)])
FSort(x) == [x EXCEPT !.rows = SortRows(KeyInfo(x), @)]

-------------------------------------------------------------------------------
(* Exploration of one table (handle 1): Edges are records [o, ok, n] - a call, whether it is legal, and the table after it. *)
VARIABLES tab, hist
E(o, ok, n) == [o |-> o, ok |-> ok, n |-> IF ok THEN n ELSE tab]
Ask1(o) == [o |-> o, ok |-> TRUE, n |-> tab]
StepBy(es, bound(_)) == \E x \in es : x.ok /\ x.n # tab /\ bound(x.n) /\ tab' = x.n /\ hist' = Append(hist, x.o)
EmitBy(es) == LET stay == {x \in es : ~x.ok \/ x.n = tab}
              IN EmitSet(hist, {x.o : x \in stay}) /\ \A x \in es \ stay : Emit(Append(hist, x.o))
Seen == tab        \* the VIEW
================================================================================

------------------------------- MODULE MCSearch --------------------------------
(* Searching sorted tables: every small table sorted by one or two keys, ascending and descending, and every value   *)
(* searched for. The two binary searches the package is built on are modelled step by step (lo, hi, the first and     *)
(* last match found) and shown to answer as the specification of Search requires.                                     *)
EXTENDS MC

VARIABLES x, vs, lo, hi, mode      \* the table, the values searched for, a search in progress
N == IF DEEP THEN 5 ELSE 4
K(c, r) == [c |-> c, r |-> r]
One == UNION {{[EmptyTable("T") EXCEPT !.cols = <<C("a", ty)>>, !.keys = <<K("a", r)>>, !.rows = rows] : rows \in SeqsUpTo({<<v>> : v \in vals}, N), r \in BOOLEAN}
              : ty \in {"int"}, vals \in {{1, 2, 4}}}
Str == {[EmptyTable("T") EXCEPT !.cols = <<C("a", "string")>>, !.keys = <<K("a", r)>>, !.rows = rows] : rows \in SeqsUpTo({<<v>> : v \in {2, 3, 4}}, 3), r \in BOOLEAN}
Flt == {[EmptyTable("T") EXCEPT !.cols = <<C("a", "float64")>>, !.keys = <<K("a", r)>>, !.rows = rows] : rows \in SeqsUpTo({<<v>> : v \in {2, 3, 4}}, 3), r \in BOOLEAN}
Two == {[EmptyTable("T") EXCEPT !.cols = <<C("a", "int"), C("b", "bool")>>, !.keys = <<K("b", r1), K("a", r2)>>, !.rows = rows]
        : rows \in SeqsUpTo({<<v, w>> : v \in {1, 3}, w \in {1, 2}}, IF DEEP THEN 4 ELSE 3), r1 \in BOOLEAN, r2 \in BOOLEAN}
Tables == {y \in One \cup Str \cup Flt \cup Two : Sorted(y)}
Sizes == [int |-> 4, string |-> 4, float64 |-> 5, bool |-> 2]
Wanted(y) == LET ki == KeyInfo(y) IN {s \in [1..Len(ki) -> 1..5] : \A k \in 1..Len(ki) : s[k] <= Sizes[ki[k].ty] /\ ~IsNaNTok(ki[k].ty, s[k])}
Vs(y, s) == [k \in 1..Len(s) |-> VTok(KeyInfo(y)[k].ty, s[k])]
Ops4 == <<"Search", "SearchFirst", "SearchLast", "SearchRange">>
Script(y) == LET w == SetToSeq(Wanted(y)) IN
             <<BuildOp(y)>> \o [i \in 1..(4 * Len(w)) |-> O(Ops4[((i - 1) % 4) + 1], [t |-> 1, vs |-> Vs(y, w[((i - 1) \div 4) + 1])])]
             \o [i \in 1..Len(w) |-> O("NewTableFromRowsBySearchRange", [t |-> 1, nm |-> "U", vs |-> Vs(y, w[i])])]
             \o <<O("Sort", [t |-> 1, cs |-> <<>>])>>

\* the search itself: lo <= answer <= hi
\* row j (0-based) is not before the wanted values / is after them, in the direction of the keys
RECURSIVE Dir(_, _, _, _)
Dir(ki, a, b, k) == IF k > Len(ki) THEN 0 ELSE LET c == CmpVal(ki[k].ty, a[k], b[k]) IN IF c # 0 THEN (IF ki[k].r THEN 0 - c ELSE c) ELSE Dir(ki, a, b, k + 1)
Rel(j) == LET ki == KeyInfo(x) IN Dir(ki, KeyVals(ki, x.rows[j + 1]), vs, 1)
Init == /\ tab = EmptyTable("T") /\ hist = <<>>
        /\ x \in Tables /\ vs \in Wanted(x)
        /\ lo = 0 /\ hi = NR(x) /\ mode \in {"first", "last"}
Next == /\ lo < hi
        /\ LET mid == (lo + hi) \div 2
               right == IF mode = "first" THEN Rel(mid) < 0 ELSE Rel(mid) <= 0
           IN /\ lo' = IF right THEN mid + 1 ELSE lo
              /\ hi' = IF right THEN hi ELSE mid
        /\ UNCHANGED <<tab, hist, x, vs, mode>>
All == <<x, vs, lo, hi, mode>>
M == MatchRows(x, vs)
\* everything left of lo is before the answer, everything from hi on is not
Invariant == /\ 0 <= lo /\ lo <= hi /\ hi <= NR(x)
             /\ \A j \in 0..(lo - 1) : IF mode = "first" THEN Rel(j) < 0 ELSE Rel(j) <= 0
             /\ \A j \in hi..(NR(x) - 1) : IF mode = "first" THEN Rel(j) >= 0 ELSE Rel(j) > 0
Answer == lo = hi =>
    LET at == IF mode = "first" THEN lo ELSE lo - 1
        found == at >= 0 /\ at < NR(x) /\ Rel(at) = 0
    IN /\ found = (M # {})
       /\ found => at + 1 = (IF mode = "first" THEN CHOOSE i \in M : \A j \in M : i <= j ELSE CHOOSE i \in M : \A j \in M : j <= i)
       /\ M # {} => \A i, j \in M : \A k \in i..j : k \in M                    \* the matches are one range
Emitted == (lo = 0 /\ hi = NR(x) /\ mode = "first" /\ vs = CHOOSE s \in Wanted(x) : TRUE) => Emit(Script(x))
================================================================================

------------------------------- MODULE Trace -------------------------------
(* Checks a recorded execution of gotables against the specification: every event must be a step the     *)
(* specification allows from the recorded heap before it to the recorded heap after it.                    *)
EXTENDS Gotables, Json, IOUtils

TraceFile == IOEnv.TRACE
Trace == ndJsonDeserialize(TraceFile)
Header == Trace[1]
Lines == Len(Trace)

VARIABLES l,      \* the event just taken
          T, U,   \* tables before and after it: Seq(table), indexed by handle
          S, V,   \* table sets before and after it
          skip    \* the rest of this segment is not judged (it follows a rejected event)
vars == <<l, T, U, S, V, skip>>

e == Trace[l]
Chk(c, tag) == IF c THEN {} ELSE {tag}

Overlay(old, ds) ==
    LET hs == {ds[k].h : k \in 1..Len(ds)}
        n == Len(old)
        m == IF hs = {} THEN n ELSE LET x == CHOOSE x \in hs : \A y \in hs : y <= x IN IF x > n THEN x ELSE n
    IN IF hs = {} THEN old
       ELSE [h \in 1..m |-> IF h \in hs THEN ds[CHOOSE k \in 1..Len(ds) : ds[k].h = h] ELSE old[h]]

---------------------------------------------------------------------------
(* Judging one event *)
Changed(h) == h \in DOMAIN T /\ Core(U[h]) # Core(T[h])
Frame(mods) == \A k \in 1..Len(e.d) : e.d[k].h \in mods \/ ~Changed(e.d[k].h)
SCore(s) == <<s.nm, s.fn, s.tabs>>
SFrame(mods) == \A k \in 1..Len(e.ds) : LET h == e.ds[k].h IN h \in mods \/ h \notin DOMAIN S \/ SCore(V[h]) = SCore(S[h])
Same == Frame({}) /\ SFrame({})

NW == {e.nw[k] : k \in 1..Len(e.nw)}
IsFresh(h) == h \in NW /\ U[h].nil /\ U[h].cols = <<>> /\ U[h].rows = <<>> /\ U[h].keys = <<>> /\ U[h].nm = ""
RowsMatch(x, a) ==
    IF x = a THEN TRUE
    ELSE /\ Len(x) = Len(a)
         /\ \A j \in 1..Len(x) : Len(x[j]) = Len(a[j]) /\ \A i \in 1..Len(x[j]) : x[j][i] = a[j][i] \/ (x[j][i] = FRESH /\ IsFresh(a[j][i]))
         /\ LET fr == {p \in (1..Len(x)) \X (1..(IF Len(x) > 0 THEN Len(x[1]) ELSE 0)) : x[p[1]][p[2]] = FRESH}
            IN \A p, q \in fr : a[p[1]][p[2]] = a[q[1]][q[2]] => p = q
Match(x, a) == /\ x.nm = a.nm /\ x.nil = a.nil /\ x.ss = a.ss /\ x.cols = a.cols /\ x.keys = a.keys /\ x.par = a.par
               /\ RowsMatch(x.rows, a.rows)

Panicked == IF e.pn THEN {"panic"} ELSE {}
\* an illegal call: an error (or for Must- variants a panic) and no change
Refused(must) == (IF must THEN Chk(e.pn, "accepted") ELSE IF e.pn THEN {"panic-illegal"} ELSE IF e.ok THEN {"accepted"} ELSE {})
                 \cup Chk(Same, "changed")
Took(good) == IF e.pn THEN {"panic"} ELSE IF ~e.ok THEN {"refused"} \cup Chk(Same, "changed") ELSE good
\* an in-place change of table h
MutM(must, h, legal, exp) ==
    IF h = 0 \/ ~legal THEN Refused(must)
    ELSE Took(Chk(Match(exp, U[h]), "post") \cup Chk(Frame({h}), "frame") \cup Chk(SFrame({}), "frame"))
Mut(h, legal, exp) == MutM(FALSE, h, legal, exp)
MutP(h, legal, post) ==
    IF h = 0 \/ ~legal THEN Refused(FALSE)
    ELSE Took(Chk(post, "post") \cup Chk(Frame({h}), "frame") \cup Chk(SFrame({}), "frame"))
\* a call that makes a new table
New(legal, post) ==
    IF ~legal THEN Refused(FALSE)
    ELSE Took(Chk(Same, "frame") \cup (IF e.r.h \notin NW THEN {"notnew"} ELSE Chk(post, "post")))
\* a call that only answers
Ask(legal, ans) == IF ~legal THEN Refused(FALSE) ELSE Took(Chk(Same, "impure") \cup Chk(ans, "answer"))
AskM(must, legal, ans) == IF ~legal THEN Refused(must) ELSE Took(Chk(Same, "impure") \cup Chk(ans, "answer"))
\* a predicate: no error when true; a false answer may come with an explanation
Pred(exp) == IF e.pn THEN {"panic-illegal"} ELSE Chk(Same, "impure") \cup Chk(e.r.b = exp, "answer") \cup Chk(e.r.b => e.ok, "refused")
\* what is not valid comes with the reason
PredV(exp) == Pred(exp) \cup Chk(e.pn \/ e.r.b \/ ~e.ok, "accepted")
\* a question that asks about what is not there is an error
PredE(there, exp) == Pred(there /\ exp) \cup Chk(e.pn \/ there \/ ~e.ok, "accepted")
Neutral(ans) == IF e.pn THEN {"panic-illegal"} ELSE Chk(Same, "impure") \cup Chk(ans, "answer")

---------------------------------------------------------------------------
(* Nesting *)
Cells(t) == Flat([j \in 1..NR(t) |-> t.rows[j]])
RECURSIVE KidsR(_, _, _, _)
HasTabCol(t) == \E i \in 1..NC(t) : t.cols[i].t = "*Table"
KidsR(t, ti, j, k) == IF j > NR(t) THEN <<>> ELSE IF k > Len(ti) THEN KidsR(t, ti, j + 1, 1) ELSE <<t.rows[j][ti[k]]>> \o KidsR(t, ti, j, k + 1)
Kids(t) == IF ~HasTabCol(t) THEN <<>>
           ELSE LET ti == SelIdx(t.cols, LAMBDA i : t.cols[i].t = "*Table") IN KidsR(t, ti, 1, 1)
\* no table occurs twice in the nesting of h
RECURSIVE NestR(_, _, _)
NestR(W, todo, seen) == IF todo = <<>> THEN TRUE
                        ELSE LET h == Head(todo) IN IF h < 1 THEN NestR(W, Tail(todo), seen)
                             ELSE IF h \in seen THEN FALSE ELSE NestR(W, Kids(W[h]) \o Tail(todo), seen \cup {h})
NestOK(W, h) == NestR(W, <<h>>, {})
\* h occurs below itself (or some table below h does)
RECURSIVE Below(_, _, _)
Below(W, todo, seen) == IF todo = <<>> THEN seen
                        ELSE LET h == Head(todo) IN IF h < 1 \/ h \in seen THEN Below(W, Tail(todo), seen)
                             ELSE Below(W, Kids(W[h]) \o Tail(todo), seen \cup {h})
Reach(W, h) == Below(W, Kids(W[h]), {})
Cyclic(W, h) == \E x \in Reach(W, h) \cup {h} : x \in Reach(W, x)
\* the number of cells of h, and of the tables below it, that hold table x
NOcc(W, h, x) == Cardinality(UNION {{<<y, k>> : k \in {k \in 1..Len(Kids(W[y])) : Kids(W[y])[k] = x}} : y \in {h} \cup Reach(W, h)})
Acyclic(W, h) == ~HasTabCol(W[h]) \/ ~Cyclic(W, h)

(* Deep equality of content: of a decoded or copied table b with the original a. ignKeys etc. by flags *)
RECURSIVE SameDeep(_, _, _)
CellSame(W, ty, x, y) == IF ty = "*Table" THEN SameDeep(W, x, y) ELSE x = y
SameDeep(W, a, b) == \/ a = b
                     \/ /\ a >= 1 /\ b >= 1
                        /\ W[a].nm = W[b].nm /\ W[a].nil = W[b].nil /\ W[a].cols = W[b].cols
                        /\ IF ~HasTabCol(W[a]) THEN W[a].rows = W[b].rows
                           ELSE /\ NR(W[a]) = NR(W[b])
                                /\ \A j \in 1..NR(W[a]) : \A i \in 1..NC(W[a]) : CellSame(W, W[a].cols[i].t, W[a].rows[j][i], W[b].rows[j][i])
(* Equality as Equals defines it *)
RECURSIVE ContentEq(_, _, _)
ContentEq(W, a, b) == LET x == W[a] y == W[b] IN
    /\ x.nil = y.nil
    /\ x.nm = y.nm
    /\ NC(x) = NC(y) /\ NR(x) = NR(y)
    /\ \A i \in 1..NC(x) : HasC(y, x.cols[i].n) /\ TypeOf(y, x.cols[i].n) = x.cols[i].t
    /\ \A i \in 1..NC(x) : LET k == CI(y, x.cols[i].n) IN
          \A j \in 1..NR(x) : IF x.cols[i].t = "*Table" THEN ContentEq(W, x.rows[j][i], y.rows[j][k])
                              ELSE EqTok(x.cols[i].t, x.rows[j][i], y.rows[j][k])

---------------------------------------------------------------------------
(* The walk of a table: [1,h,0,0] for a table, [2,h,j,0] for a row, [3,h,j,i] for a cell, depth first. A nested table *)
(* that was already entered ends the walk with an error (NilTables, which hold nothing, may be met again).            *)
RECURSIVE WSim(_, _, _, _)
WSim(nested, todo, seen, log) ==
    IF todo = <<>> THEN [log |-> log, err |-> FALSE]
    ELSE LET x == Head(todo)
             r == Tail(todo)
             h == x[2]
             l2 == Append(log, x)
         IN CASE x[1] = 1 -> WSim(nested, [j \in 1..NR(T[h]) |-> <<2, h, j - 1, 0>>] \o r, seen, l2)
              [] x[1] = 2 -> WSim(nested, [i \in 1..NC(T[h]) |-> <<3, h, x[3], i - 1>>] \o r, seen, l2)
              [] x[1] = 3 ->
                   IF ~nested \/ T[h].cols[x[4] + 1].t # "*Table" THEN WSim(nested, r, seen, l2)
                   ELSE LET k == T[h].rows[x[3] + 1][x[4] + 1]
                        IN IF T[k].nil THEN WSim(nested, <<<<1, k, 0, 0>>>> \o r, seen, l2)
                           ELSE IF k \in seen THEN [log |-> l2, err |-> TRUE]
                           ELSE WSim(nested, <<<<1, k, 0, 0>>>> \o r, seen \cup {k}, l2)
WalkOf(nested, h) == WSim(nested, <<<<1, h, 0, 0>>>>, {h}, <<>>)
RECURSIVE WalkAll(_, _, _)
WalkAll(nested, hs, log) == IF hs = <<>> THEN [log |-> log, err |-> FALSE]
                            ELSE LET w == WalkOf(nested, Head(hs)) IN
                                 IF w.err THEN [log |-> log \o w.log, err |-> TRUE] ELSE WalkAll(nested, Tail(hs), log \o w.log)
\* what a walk w may report: everything, or the visits up to the one that failed
WalkAns(w) == LET n == Len(w.log) stop == e.a.stop IN
    /\ e.r.info
    /\ ~e.r.limit
    /\ IF stop >= 0 /\ stop < n THEN e.r.stopped /\ e.r.e /\ e.r.log = SubSeq(w.log, 1, stop + 1)
       ELSE IF ~w.err THEN ~e.r.e /\ e.r.log = w.log
       ELSE e.r.e /\ Len(e.r.log) >= n /\ SubSeq(e.r.log, 1, n) = w.log

---------------------------------------------------------------------------
(* One operator per group of calls *)
tH == e.a.t
t == T[e.a.t]                       \* only used when e.a.t # 0
Live == e.a.t # 0

RowEvent ==
    CASE e.op = "AppendRow" -> Mut(tH, LAppendRow(t), FAppendRow(t))
      [] e.op = "AppendRows" -> Mut(tH, LAppendRows(t, e.a.n), FAppendRows(t, e.a.n))
      [] e.op = "DeleteRow" -> Mut(tH, LDeleteRow(t, e.a.i), FDeleteRow(t, e.a.i))
      [] e.op = "DeleteRows" -> Mut(tH, LDeleteRows(t, e.a.i, e.a.j), FDeleteRows(t, e.a.i, e.a.j))
      [] e.op = "DeleteRowsAll" -> Mut(tH, TRUE, FDeleteRowsAll(t))
      [] e.op = "Reverse" -> Mut(tH, TRUE, FReverse(t))
      [] e.op \in {"ShuffleRandom", "ShufflePseudorandom"} ->
           MutP(tH, TRUE, [Core(U[tH]) EXCEPT ![5] = t.rows] = Core(t) /\ IsPerm(t.rows, U[tH].rows))
RowOps == {"AppendRow", "AppendRows", "DeleteRow", "DeleteRows", "DeleteRowsAll", "Reverse", "ShuffleRandom", "ShufflePseudorandom"}

ColEvent ==
    CASE e.op = "AppendCol" -> Mut(tH, LAppendCol(t, e.a.c, e.a.ty), FAppendCol(t, e.a.c, e.a.ty))
      [] e.op = "DeleteCol" -> Mut(tH, HasC(t, e.a.c), FDeleteColI(t, CI(t, e.a.c)))
      [] e.op = "DeleteColByColIndex" -> Mut(tH, ColOK(t, e.a.i), FDeleteColI(t, e.a.i + 1))
      [] e.op = "RenameCol" -> Mut(tH, LRenameCol(t, e.a.c, e.a.c2), FRenameCol(t, e.a.c, e.a.c2))
      [] e.op = "RenameColByColIndex" -> Mut(tH, ColOK(t, e.a.i) /\ LRenameCol(t, t.cols[e.a.i + 1].n, e.a.c2), FRenameCol(t, t.cols[e.a.i + 1].n, e.a.c2))
      [] e.op = "ReorderCols" -> Mut(tH, LPermN(t, e.a.cs), FReorderN(t, e.a.cs))
      [] e.op = "ReorderColsByColIndex" -> Mut(tH, LPermI(t, e.a.is), FReorderI(t, e.a.is))
      [] e.op = "NewTableReorderCols" -> New(Live /\ LPermN(t, e.a.cs) /\ ~t.nil, Match(NewFrom(FReorderN(t, e.a.cs)), U[e.r.h]))
      [] e.op = "NewTableReorderColsByColIndex" -> New(Live /\ LPermI(t, e.a.is) /\ ~t.nil, Match(NewFrom(FReorderI(t, e.a.is)), U[e.r.h]))
      [] e.op = "SwapCols" -> Mut(tH, HasC(t, e.a.c) /\ HasC(t, e.a.c2) /\ e.a.c # e.a.c2, FSwapI(t, CI(t, e.a.c), CI(t, e.a.c2)))
      [] e.op = "SwapColsByColIndex" -> Mut(tH, ColOK(t, e.a.i) /\ ColOK(t, e.a.j) /\ e.a.i # e.a.j, FSwapI(t, e.a.i + 1, e.a.j + 1))
      [] e.op = "OrderColsBySortKeys" -> Mut(tH, TRUE, FOrderByKeys(t))
ColOps == {"AppendCol", "DeleteCol", "DeleteColByColIndex", "RenameCol", "RenameColByColIndex", "ReorderCols", "ReorderColsByColIndex",
           "NewTableReorderCols", "NewTableReorderColsByColIndex", "SwapCols", "SwapColsByColIndex", "OrderColsBySortKeys"}

BuildOK == /\ ValidName(e.a.nm)
           /\ \A i \in 1..Len(e.a.cols) : ValidName(e.a.cols[i].n) /\ e.a.cols[i].t \in AllTypes
           /\ \A i, j \in 1..Len(e.a.cols) : e.a.cols[i].n = e.a.cols[j].n => i = j
BuildKeys == IF "keys" \in DOMAIN e.a THEN e.a.keys ELSE <<>>
BuildRec == [EmptyTable(e.a.nm) EXCEPT !.cols = e.a.cols, !.rows = e.a.rows, !.keys = BuildKeys]
\* tables put into cells by Build get the new table as parent
BuildKids == {x \in 1..Len(T) : \E i \in 1..Len(e.a.cols) : e.a.cols[i].t = "*Table" /\ \E j \in 1..Len(e.a.rows) : e.a.rows[j][i] = x}
MetaRec == [EmptyTable(e.a.nm) EXCEPT !.cols = [i \in 1..Len(e.a.ns) |-> [n |-> e.a.ns[i], t |-> e.a.ts[i]]]]
MetaOK == /\ ValidName(e.a.nm) /\ Len(e.a.ns) = Len(e.a.ts)
          /\ \A i \in 1..Len(e.a.ns) : ValidName(e.a.ns[i]) /\ e.a.ts[i] \in AllTypes
          /\ Distinct(e.a.ns)
TableEvent ==
    CASE e.op = "Build" -> IF ~BuildOK THEN {} ELSE
            Took(Chk(Frame(BuildKids) /\ SFrame({}), "frame") \cup (IF e.r.h \notin NW THEN {"notnew"} ELSE Chk(Match(BuildRec, U[e.r.h]), "post"))
                 \cup Chk(\A x \in BuildKids : U[x].par = e.r.h /\ [Core(U[x]) EXCEPT ![7] = 0] = [Core(T[x]) EXCEPT ![7] = 0], "parent"))
      [] e.op = "NewTable" -> New(ValidName(e.a.nm), Match(EmptyTable(e.a.nm), U[e.r.h]))
      [] e.op = "NewNilTable" -> New(TRUE, Match(NilRec, U[e.r.h]))
      [] e.op = "NewTableFromMetadata" -> New(MetaOK, Match(MetaRec, U[e.r.h]))
      [] e.op \in {"SetName", "RenameTable"} -> Mut(tH, ValidName(e.a.nm), [t EXCEPT !.nm = e.a.nm, !.nil = FALSE])
      [] e.op = "SetStructShape" -> Mut(tH, TRUE, [t EXCEPT !.ss = e.a.b])
TableOps == {"Build", "NewTable", "NewNilTable", "NewTableFromMetadata", "SetName", "RenameTable", "SetStructShape"}

\* the column addressed by an accessor call: 1-based position, 0 if there is none
Addr == IF e.a.by = "n" THEN (IF HasC(t, e.a.c) THEN CI(t, e.a.c) ELSE 0) ELSE IF ColOK(t, e.a.i) THEN e.a.i + 1 ELSE 0
ValOK(ct, v) == SameType(ct, v.t) /\ v.v >= 1
NaNCells == {"SetAllFloatCellsToNaN"}
TypedSetOK == Live /\ Addr # 0 /\ RowOK(t, e.a.j) /\ SameType(t.cols[Addr].t, e.a.ty) /\ e.a.v >= 1
SetTableEffects ==   \* SetTable also records the parent of the table it stores
    LET x == e.a.v
        par == [T[x] EXCEPT !.par = tH]
        exp == PutCell(IF x = tH THEN [t EXCEPT !.par = tH] ELSE t, Addr, e.a.j + 1, x)
    IN Took(Chk(Match(exp, U[tH]), "post") \cup Chk(x = tH \/ Core(U[x]) = Core(par), "parent") \cup Chk(Frame({tH, x}) /\ SFrame({}), "frame"))
CellEvent ==
    CASE e.op = "SetVal" -> Mut(tH, HasC(t, e.a.c) /\ RowOK(t, e.a.j) /\ ValOK(TypeOf(t, e.a.c), e.a.v), PutCell(t, CI(t, e.a.c), e.a.j + 1, e.a.v.v))
      [] e.op = "SetValByColIndex" -> Mut(tH, ColOK(t, e.a.i) /\ RowOK(t, e.a.j) /\ ValOK(t.cols[e.a.i + 1].t, e.a.v), PutCell(t, e.a.i + 1, e.a.j + 1, e.a.v.v))
      [] e.op = "SetTyped" -> IF ~TypedSetOK THEN Refused(e.a.must)
                              ELSE IF e.a.ty = "*Table" THEN SetTableEffects
                              ELSE MutM(e.a.must, tH, TRUE, PutCell(t, Addr, e.a.j + 1, e.a.v))
      [] e.op = "GetTyped" -> LET ok == Live /\ Addr # 0 /\ RowOK(t, e.a.j) /\ SameType(t.cols[Addr].t, e.a.ty)
                              IN AskM(e.a.must, ok, e.r.v = t.rows[e.a.j + 1][Addr])
      [] e.op = "GetVal" -> LET ok == Live /\ Addr # 0 /\ RowOK(t, e.a.j)
                            IN AskM(e.a.must, ok, e.r.v = t.rows[e.a.j + 1][Addr])
      [] e.op = "ReadAll" -> Ask(Live, e.r.rows = t.rows)
      [] e.op = "SetCellToZeroValue" -> Mut(tH, HasC(t, e.a.c) /\ RowOK(t, e.a.j), PutCell(t, CI(t, e.a.c), e.a.j + 1, ZeroTok(TypeOf(t, e.a.c))))
      [] e.op = "SetCellToZeroValueByColIndex" -> Mut(tH, ColOK(t, e.a.i) /\ RowOK(t, e.a.j), PutCell(t, e.a.i + 1, e.a.j + 1, ZeroTok(t.cols[e.a.i + 1].t)))
      [] e.op = "SetRowCellsToZeroValue" -> Mut(tH, RowOK(t, e.a.j), FZeroRow(t, e.a.j + 1))
      [] e.op = "SetColCellsToZeroValue" -> Mut(tH, HasC(t, e.a.c), FZeroCol(t, CI(t, e.a.c)))
      [] e.op = "SetColCellsToZeroValueByColIndex" -> Mut(tH, ColOK(t, e.a.i), FZeroCol(t, e.a.i + 1))
      [] e.op = "SetAllFloatCellsToNaN" -> Mut(tH, TRUE, FNaNAll(t))
      [] e.op = "SetColFloatCellsToNaN" -> Mut(tH, HasC(t, e.a.c) /\ (NR(t) = 0 \/ IsFloat(TypeOf(t, e.a.c))), FNaNCol(t, CI(t, e.a.c)))
      [] e.op = "SetColFloatCellsToNaNByColIndex" -> Mut(tH, ColOK(t, e.a.i) /\ (NR(t) = 0 \/ IsFloat(t.cols[e.a.i + 1].t)), FNaNCol(t, e.a.i + 1))
      [] e.op = "SetFloatCellToNaN" -> Mut(tH, HasC(t, e.a.c) /\ RowOK(t, e.a.j) /\ IsFloat(TypeOf(t, e.a.c)), PutCell(t, CI(t, e.a.c), e.a.j + 1, NaNTok(TypeOf(t, e.a.c))))
      [] e.op = "SetFloatCellToNaNByColIndex" -> Mut(tH, ColOK(t, e.a.i) /\ RowOK(t, e.a.j) /\ IsFloat(t.cols[e.a.i + 1].t), PutCell(t, e.a.i + 1, e.a.j + 1, NaNTok(t.cols[e.a.i + 1].t)))
      [] e.op = "SetRowFloatCellsToNaN" -> Mut(tH, RowOK(t, e.a.j), FNaNRow(t, e.a.j + 1))
CellSetOps == {"SetVal", "SetValByColIndex", "SetTyped", "SetCellToZeroValue", "SetCellToZeroValueByColIndex", "SetRowCellsToZeroValue",
               "SetColCellsToZeroValue", "SetColCellsToZeroValueByColIndex", "SetAllFloatCellsToNaN", "SetColFloatCellsToNaN",
               "SetColFloatCellsToNaNByColIndex", "SetRowFloatCellsToNaN", "SetFloatCellToNaN", "SetFloatCellToNaNByColIndex"}
CellGetOps == {"GetTyped", "GetVal", "ReadAll"}

LookEvent ==
    CASE e.op = "ColCount" -> Neutral(e.r.n = IF Live THEN NC(t) ELSE -1)
      [] e.op = "RowCount" -> Neutral(e.r.n = IF Live THEN NR(t) ELSE -1)
      [] e.op = "Name" -> Neutral(e.r.s = IF Live THEN t.nm ELSE "")
      [] e.op = "SortKeyCount" -> Neutral(IF Live THEN e.r.n = Len(t.keys) ELSE e.r.n <= 0)
      [] e.op = "IsNilTable" -> Ask(Live, e.r.b = t.nil)
      [] e.op = "IsStructShape" -> Ask(Live, e.r.b = t.ss)
      [] e.op = "IsValidTable" -> PredV(Live /\ ~t.nil /\ NestOK(T, tH))
      [] e.op = "HasCol" -> PredE(Live, HasC(t, e.a.c))
      [] e.op = "HasColByColIndex" -> PredE(Live, ColOK(t, e.a.i))
      [] e.op = "HasRow" -> PredE(Live, RowOK(t, e.a.j))
      [] e.op = "HasCell" -> PredE(Live, HasC(t, e.a.c) /\ RowOK(t, e.a.j))
      [] e.op = "HasCellByColIndex" -> PredE(Live, ColOK(t, e.a.i) /\ RowOK(t, e.a.j))
      [] e.op = "ColIndex" -> Ask(Live /\ HasC(t, e.a.c), e.r.n = CI(t, e.a.c) - 1)
      [] e.op \in {"ColName", "ColNameByColIndex"} -> Ask(Live /\ ColOK(t, e.a.i), e.r.s = t.cols[e.a.i + 1].n)
      [] e.op = "ColType" -> Ask(Live /\ HasC(t, e.a.c), e.r.s = TypeOf(t, e.a.c))
      [] e.op = "ColTypeByColIndex" -> Ask(Live /\ ColOK(t, e.a.i), e.r.s = t.cols[e.a.i + 1].t)
      [] e.op = "IsTableCol" -> Ask(Live /\ HasC(t, e.a.c), e.r.b = (TypeOf(t, e.a.c) = "*Table"))
      [] e.op = "IsTableColByColIndex" -> Ask(Live /\ ColOK(t, e.a.i), e.r.b = (t.cols[e.a.i + 1].t = "*Table"))
      [] e.op = "IsColType" -> PredE(Live /\ HasC(t, e.a.c), TypeOf(t, e.a.c) = e.a.ty)
      [] e.op = "IsColTypeByColIndex" -> PredE(Live /\ ColOK(t, e.a.i), t.cols[e.a.i + 1].t = e.a.ty)
      [] e.op = "IsValidRow" -> PredV(Live /\ RowOK(t, e.a.j))
      [] e.op \in {"IsValidColValue", "IsValidCellValue"} -> PredV(Live /\ HasC(t, e.a.c) /\ ValOK(TypeOf(t, e.a.c), e.a.v))
      [] e.op = "IsSortKey" -> PredE(Live /\ HasC(t, e.a.c), IsKey(t, e.a.c))
      [] e.op = "GetCellInfo" -> Ask(Live /\ HasC(t, e.a.c) /\ RowOK(t, e.a.j),
              e.r.ct = tH /\ e.r.s = e.a.c /\ e.r.ty = TypeOf(t, e.a.c) /\ e.r.n = CI(t, e.a.c) - 1 /\ e.r.j = e.a.j)
      [] e.op = "GetCellInfoByColIndex" -> Ask(Live /\ ColOK(t, e.a.i) /\ RowOK(t, e.a.j),
              e.r.ct = tH /\ e.r.s = t.cols[e.a.i + 1].n /\ e.r.ty = t.cols[e.a.i + 1].t /\ e.r.n = e.a.i /\ e.r.j = e.a.j)
      [] e.op = "RowByRowIndex" -> Ask(Live /\ RowOK(t, e.a.j), e.r.ct = tH /\ e.r.j = e.a.j)
      [] e.op = "ParentTable" -> Neutral(e.r.n = IF Live THEN t.par ELSE 0)
      [] e.op = "GetColInfoAsSlices" -> Ask(Live /\ ~t.nil, e.r.ns = [i \in 1..NC(t) |-> t.cols[i].n] /\ e.r.ts = [i \in 1..NC(t) |-> t.cols[i].t])
      [] e.op = "GetColInfoAsTable" -> Ask(Live /\ ~t.nil, e.r.ns = [i \in 1..NC(t) |-> t.cols[i].n] /\ e.r.ts = [i \in 1..NC(t) |-> t.cols[i].t]
                                                            /\ e.r.is = [i \in 1..NC(t) |-> i - 1])
      [] e.op = "GetSortKeysAsTable" -> Ask(Live, e.r.keys = t.keys /\ e.r.ts = [k \in 1..Len(t.keys) |-> TypeOf(t, t.keys[k].c)])
LookOps == {"ColCount", "RowCount", "Name", "SortKeyCount", "IsNilTable", "IsStructShape", "IsValidTable", "HasCol", "HasColByColIndex", "HasRow",
            "HasCell", "HasCellByColIndex", "ColIndex", "ColName", "ColNameByColIndex", "ColType", "ColTypeByColIndex", "IsTableCol",
            "IsTableColByColIndex", "IsColType", "IsColTypeByColIndex", "IsValidRow", "IsValidColValue", "IsValidCellValue", "IsSortKey",
            "GetCellInfo", "GetCellInfoByColIndex", "RowByRowIndex", "ParentTable", "GetColInfoAsSlices", "GetColInfoAsTable", "GetSortKeysAsTable"}

SortedTypes == <<"*Table", "[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8",
                 "rune", "string", "time.Time", "uint", "uint16", "uint32", "uint64", "uint8">>
PkgEvent ==
    CASE e.op \in {"IsValidColName", "IsValidTableName"} -> PredV(ValidName(e.a.s))
      [] e.op = "IsValidColType" -> PredV(e.a.s \in AllTypes)
      [] e.op = "IsNumericColType" -> Pred(e.a.s \in NumTypes)
      [] e.op = "IsSliceColType" -> Pred(e.a.s \in {"[]byte", "[]uint8"})
      [] e.op = "IsTableColType" -> Pred(e.a.s = "*Table")
      [] e.op = "Uint8SliceEquals" -> Pred(e.a.v = e.a.w)
      [] e.op = "TypesList" -> Neutral(Range(e.r.l) = AllTypes)
PkgOps == {"IsValidColName", "IsValidTableName", "IsValidColType", "IsNumericColType", "IsSliceColType", "IsTableColType", "Uint8SliceEquals", "TypesList"}

SortPost(keys) == LET x == [t EXCEPT !.keys = keys] y == U[tH] IN
    /\ [Core(y) EXCEPT ![5] = t.rows] = Core(x)
    /\ IsPerm(t.rows, y.rows)
    /\ SortedOrNaN(y)
KeyEvent ==
    CASE e.op = "SetSortKeys" -> Mut(tH, LKeys(t, e.a.cs), FKeys(t, e.a.cs))
      [] e.op = "SetSortKeysReverse" -> Mut(tH, \A k \in 1..Len(e.a.cs) : IsKey(t, e.a.cs[k]), FKeysReverse(t, e.a.cs))
      [] e.op = "AppendSortKey" -> Mut(tH, LKeys(t, <<e.a.c>>), FAppendKey(t, e.a.c))
      [] e.op = "DeleteSortKey" -> Mut(tH, IsKey(t, e.a.c), FDeleteKey(t, e.a.c))
      [] e.op = "SetSortKeysFromTable" ->
            LET u == T[e.a.t2] IN
            Mut(tH, e.a.t2 # 0 /\ Len(u.keys) > 0 /\ LKeys(t, [k \in 1..Len(u.keys) |-> u.keys[k].c]), [t EXCEPT !.keys = u.keys])
      [] e.op = "Sort" -> IF Len(e.a.cs) > 0 THEN MutP(tH, LKeys(t, e.a.cs), SortPost(FKeys(t, e.a.cs).keys))
                          ELSE MutP(tH, Len(t.keys) > 0, SortPost(t.keys))
      [] e.op = "SortSimple" -> MutP(tH, Len(e.a.cs) > 0 /\ LKeys(t, e.a.cs), SortPost(FKeys(t, e.a.cs).keys))
      [] e.op = "CompareRows" -> LET ki == KeyInfo(t) IN
            IF ~(Live /\ Len(t.keys) > 0 /\ RowOK(t, e.a.i) /\ RowOK(t, e.a.j)) THEN Refused(FALSE)
            ELSE IF NaNKeyRow(ki, t.rows[e.a.i + 1]) \/ NaNKeyRow(ki, t.rows[e.a.j + 1]) THEN Neutral(TRUE)
            ELSE Ask(TRUE, e.r.n = CmpRows(ki, t.rows[e.a.i + 1], t.rows[e.a.j + 1], FALSE))
KeyOps == {"SetSortKeys", "SetSortKeysReverse", "AppendSortKey", "DeleteSortKey", "SetSortKeysFromTable", "Sort", "SortSimple", "CompareRows"}

SearchArgsOK == Len(t.keys) > 0 /\ Len(e.a.vs) = Len(t.keys)
                /\ \A k \in 1..Len(t.keys) : e.a.vs[k].v >= 1 /\ SameType(TypeOf(t, t.keys[k].c), e.a.vs[k].t)
SVals == [k \in 1..Len(t.keys) |-> e.a.vs[k].v]
NaNVals == \E k \in 1..Len(t.keys) : IsNaNTok(TypeOf(t, t.keys[k].c), e.a.vs[k].v)
SMin(M) == CHOOSE x \in M : \A y \in M : x <= y
SMax(M) == CHOOSE x \in M : \A y \in M : y <= x
SearchEvent ==
    IF ~Live THEN Refused(FALSE)
    ELSE IF ~SearchArgsOK THEN Refused(FALSE) \cup Chk(e.pn \/ (e.r.i = -1 /\ e.r.j = -1), "answer")
    ELSE IF HasNaNKey(t) \/ NaNVals \/ ~Sorted(t) THEN Chk(~e.pn, "panic-illegal") \cup Chk(Same, "impure")
    ELSE LET M == MatchRows(t, SVals) IN
         IF e.pn THEN {"panic"}
         ELSE Chk(Same, "impure") \cup
              (IF M = {} THEN Chk(~e.ok, "found") \cup Chk(e.r.i = -1 /\ e.r.j = -1, "answer")
               ELSE IF ~e.ok THEN {"refused"}
               ELSE CASE e.op = "Search" -> Chk(e.r.i + 1 \in M, "answer")
                      [] e.op = "SearchFirst" -> Chk(e.r.i + 1 = SMin(M), "answer")
                      [] e.op = "SearchLast" -> Chk(e.r.i + 1 = SMax(M), "answer")
                      [] e.op = "SearchRange" -> Chk(e.r.i + 1 = SMin(M) /\ e.r.j + 1 = SMax(M), "answer"))
SearchOps == {"Search", "SearchFirst", "SearchLast", "SearchRange"}
PredSearchEvent ==
    CASE e.op = "PredSearchFirst" -> Neutral(e.r.bad = 0 /\ (IF e.a.k < e.a.n THEN e.r.n = e.a.k ELSE e.r.n \in {e.a.n, -1}))
      [] e.op = "PredSearchLast" -> Neutral(e.r.bad = 0 /\ e.r.n = (IF e.a.k > e.a.n THEN e.a.n ELSE e.a.k) - 1)
PredSearchOps == {"PredSearchFirst", "PredSearchLast"}

\* Merge may set the (same) sort keys on its inputs; nothing else of them changes
KeysOnly(h, allowed) == LET x == U[h] y == T[h] IN [Core(x) EXCEPT ![6] = <<>>] = [Core(y) EXCEPT ![6] = <<>>] /\ x.keys \in allowed
NilHs == {h \in 1..Len(U) : U[h].nil}
FreshHs == NilHs \cap NW
MergeEvent ==
    LET h1 == e.a.t h2 == e.a.t2 t1 == T[h1] t2 == T[h2]
        ks == MergeKeys(t1, t2)
        legal == h1 # 0 /\ h2 # 0 /\ ~t1.nil /\ ~t2.nil /\ LMerge(t1, t2)
        free == KeysNaN(t1, ks) \/ KeysNaN(t2, ks)
    IN IF ~legal THEN Refused(FALSE)
       ELSE IF e.pn THEN {"panic"}
       ELSE IF ~e.ok THEN (IF free THEN {} ELSE {"refused"}) \cup Chk(Same, "changed")
       ELSE Chk(Frame({h1, h2}) /\ SFrame({}), "frame")
            \cup Chk(KeysOnly(h1, {t1.keys, ks}) /\ KeysOnly(h2, {t2.keys, ks}), "inputs")
            \cup (IF e.r.h \notin NW THEN {"notnew"}
                  ELSE IF KeysNaN(t1, ks) \/ KeysNaN(t2, ks) THEN {}
                  ELSE Chk(MergePost(t1, t2, U[e.r.h], NilHs, FreshHs), "post"))
UniqueEvent ==
    LET ks == IF Len(e.a.cs) > 0 THEN FKeys(t, e.a.cs).keys ELSE t.keys
        legal == Live /\ ~t.nil /\ Len(ks) > 0 /\ (Len(e.a.cs) > 0 => LKeys(t, e.a.cs))
        free == KeysNaN(t, ks)
    IN IF ~legal THEN Refused(FALSE)
       ELSE IF e.pn THEN {"panic"}
       ELSE IF ~e.ok THEN (IF free THEN {} ELSE {"refused"}) \cup Chk(Same, "changed")
       ELSE Chk(Frame({tH}) /\ SFrame({}), "frame") \cup Chk(KeysOnly(tH, {t.keys, ks}), "inputs")
            \cup (IF e.r.h \notin NW THEN {"notnew"} ELSE IF KeysNaN(t, ks) THEN {} ELSE Chk(UniquePost(t, ks, U[e.r.h], NilHs, FreshHs), "post"))
RelOps == {"Merge", "SortUnique"}

RowSlice(x, nm, i, j) == [NewFrom(x) EXCEPT !.nm = nm, !.rows = IF i > j THEN <<>> ELSE SubSeq(x.rows, i + 1, j + 1)]
CopyEvent ==
    CASE e.op = "Copy" -> New(Live /\ ~t.nil /\ NestOK(T, tH), Match(NewFrom(t), U[e.r.h]))
      [] e.op = "CopyCols" -> New(Live /\ ~t.nil /\ NestOK(T, tH), Match([NewFrom(t) EXCEPT !.rows = <<>>], U[e.r.h]))
      [] e.op = "CopyDeep" -> New(Live /\ ~t.nil /\ NestOK(T, tH),
             /\ SameDeep(U, tH, e.r.h)
             /\ ({e.r.h} \cup Reach(U, e.r.h)) \cap DOMAIN T = {}
             /\ NestOK(U, e.r.h))
      [] e.op = "NewTableFromRows" -> New(Live /\ ~t.nil /\ ValidName(e.a.nm) /\ (e.a.i > e.a.j \/ (RowOK(t, e.a.i) /\ RowOK(t, e.a.j))),
             Match(RowSlice(t, e.a.nm, e.a.i, e.a.j), U[e.r.h]))
      [] e.op = "NewTableFromRowsBySearchRange" ->
             IF ~Live \/ ~SearchArgsOK \/ ~ValidName(e.a.nm) THEN Refused(FALSE)
             ELSE IF HasNaNKey(t) \/ NaNVals \/ ~Sorted(t) THEN Chk(~e.pn, "panic-illegal") \cup Chk(Same, "frame")
             ELSE LET M == MatchRows(t, SVals) IN
                  New(M # {}, Match(RowSlice(t, e.a.nm, SMin(M) - 1, SMax(M) - 1), U[e.r.h]))
      [] e.op = "AppendRowsFromTable" ->
             LET u == T[e.a.t2]
                 n == e.a.j - e.a.i + 1
                 fits == \A i \in 1..NC(u) : HasC(t, u.cols[i].n) /\ SameType(TypeOf(t, u.cols[i].n), u.cols[i].t)
                 legal == e.a.t2 # 0 /\ ~t.nil /\ ~u.nil /\ (e.a.i > e.a.j \/ (fits /\ RowOK(u, e.a.i) /\ RowOK(u, e.a.j)))
                 new == [k \in 1..n |-> [i \in 1..NC(t) |-> IF HasC(u, t.cols[i].n) THEN u.rows[e.a.i + k][CI(u, t.cols[i].n)] ELSE ZeroTok(t.cols[i].t)]]
             IN IF Live /\ e.a.t2 # 0 /\ e.a.i > e.a.j THEN Mut(tH, ~t.nil /\ ~u.nil, t)
                ELSE Mut(tH, legal, [t EXCEPT !.rows = @ \o new])
      [] e.op = "AppendColsFromTable" ->
             LET u == T[e.a.t2]
                 legal == e.a.t2 # 0 /\ ~t.nil /\ ~u.nil /\ \A i \in 1..NC(u) : HasC(t, u.cols[i].n) => TypeOf(t, u.cols[i].n) = u.cols[i].t
                 add == Sel(u.cols, LAMBDA c : ~HasC(t, c.n))
             IN Mut(tH, legal, [t EXCEPT !.cols = @ \o add, !.rows = [j \in 1..Len(@) |-> @[j] \o [k \in 1..Len(add) |-> ZeroTok(add[k].t)]]])
CopyOps == {"Copy", "CopyCols", "CopyDeep", "NewTableFromRows", "NewTableFromRowsBySearchRange", "AppendRowsFromTable", "AppendColsFromTable"}

EqEvent ==
    CASE e.op = "Equals" ->
           LET h1 == e.a.t h2 == e.a.t2 IN
           IF h1 = 0 \/ h2 = 0 THEN (IF e.pn THEN {"panic-illegal"} ELSE Chk(~e.r.b, "answer") \cup Chk(Same, "impure"))
           ELSE IF ~(Acyclic(T, h1) /\ Acyclic(T, h2)) THEN (IF e.pn THEN {"panic-illegal"} ELSE Chk(Same, "impure") \cup Chk(~e.r.b, "answer") \cup Chk(e.r.why, "noreason"))
           ELSE IF e.pn THEN {"panic"}
           ELSE Chk(Same, "impure") \cup Chk(e.r.b = ContentEq(T, h1, h2), "answer") \cup Chk(e.r.b \/ e.r.why, "noreason") \cup Chk(e.ok, "refused")
      [] e.op = "SetEquals" ->
           LET h1 == e.a.s h2 == e.a.s2 IN
           IF h1 = 0 \/ h2 = 0 THEN (IF e.pn THEN {"panic-illegal"} ELSE Chk(~e.r.b, "answer") \cup Chk(Same, "impure"))
           ELSE LET x == S[h1].tabs y == S[h2].tabs IN
           IF ~((\A i \in 1..Len(x) : Acyclic(T, x[i])) /\ (\A i \in 1..Len(y) : Acyclic(T, y[i]))) THEN (IF e.pn THEN {"panic-illegal"} ELSE Chk(Same, "impure") \cup Chk(~e.r.b, "answer") \cup Chk(e.r.why, "noreason"))
           ELSE IF e.pn THEN {"panic"}
           ELSE Chk(Same, "impure") \cup Chk(e.r.b = (Len(x) = Len(y) /\ \A i \in 1..Len(x) : ContentEq(T, x[i], y[i])), "answer")
                \cup Chk(e.r.b \/ e.r.why, "noreason") \cup Chk(e.ok, "refused")
EqOps == {"Equals", "SetEquals"}

---------------------------------------------------------------------------
(* Table sets: [nm, fn, tabs]; tables are looked up by name, first match *)
sH == e.a.s
st == S[e.a.s]
SLive == sH # 0
NamesOf(W, x) == [i \in 1..Len(x.tabs) |-> W[x.tabs[i]].nm]
Named(x, nm) == {i \in 1..Len(x.tabs) : T[x.tabs[i]].nm = nm}
SMut(legal, nm, fn, tabs) ==
    IF ~legal THEN Refused(FALSE)
    ELSE Took(Chk(SCore(V[sH]) = <<nm, fn, tabs>>, "post") \cup Chk(Frame({}) /\ SFrame({sH}), "frame"))
SetEvent ==
    CASE e.op = "NewTableSet" -> Took(Chk(Same, "frame") \cup
            (IF e.r.s \notin {e.ns[k] : k \in 1..Len(e.ns)} THEN {"notnew"} ELSE Chk(SCore(V[e.r.s]) = <<e.a.nm, "", <<>>>>, "post")))
      [] e.op \in {"Append", "AppendTable"} -> SMut(SLive /\ Live /\ Named(st, t.nm) = {}, st.nm, st.fn, Append(st.tabs, tH))
      [] e.op = "DeleteTable" -> SMut(SLive /\ Named(st, e.a.nm) # {}, st.nm, st.fn, Drop(st.tabs, SMin(Named(st, e.a.nm))))
      [] e.op = "DeleteTableByTableIndex" -> SMut(SLive /\ e.a.i >= 0 /\ e.a.i < Len(st.tabs), st.nm, st.fn, Drop(st.tabs, e.a.i + 1))
      [] e.op = "SetGetTable" -> Ask(SLive /\ Named(st, e.a.nm) # {}, e.r.h = st.tabs[SMin(Named(st, e.a.nm))])
      [] e.op = "SetGetTableByTableIndex" -> Ask(SLive /\ e.a.i >= 0 /\ e.a.i < Len(st.tabs), e.r.h = st.tabs[e.a.i + 1])
      [] e.op = "SetHasTable" -> PredE(SLive, Named(st, e.a.nm) # {})
      [] e.op = "SetTableIndex" -> Ask(SLive /\ Named(st, e.a.nm) # {}, e.r.n = SMin(Named(st, e.a.nm)) - 1)
      [] e.op = "SetTableCount" -> Neutral(e.r.n = IF SLive THEN Len(st.tabs) ELSE -1)
      [] e.op = "SetGetName" -> Neutral(e.r.nm = IF SLive THEN st.nm ELSE "")
      [] e.op = "SetFileNameGet" -> Neutral(e.r.nm = IF SLive THEN st.fn ELSE "")
      [] e.op = "IsValidTableSet" -> PredV(SLive /\ \A i \in 1..Len(st.tabs) : ~T[st.tabs[i]].nil /\ NestOK(T, st.tabs[i]))
      [] e.op = "SetRenameTable" ->
            IF ~(SLive /\ Named(st, e.a.nm) # {} /\ Named(st, e.a.nm2) = {} /\ ValidName(e.a.nm2)) THEN Refused(FALSE)
            ELSE LET x == st.tabs[SMin(Named(st, e.a.nm))] IN
                 Took(Chk(Match([T[x] EXCEPT !.nm = e.a.nm2, !.nil = FALSE], U[x]), "post") \cup Chk(Frame({x}) /\ SFrame({}), "frame"))
      [] e.op = "SetSetName" -> SMut(SLive, e.a.nm, st.fn, st.tabs)
      [] e.op = "SetSetFileName" -> IF ~SLive THEN Neutral(TRUE) ELSE SMut(TRUE, st.nm, e.a.nm, st.tabs)
      [] e.op = "SetCopy" ->
            LET legal == SLive /\ Distinct(NamesOf(T, st)) /\ \A i \in 1..Len(st.tabs) : ~T[st.tabs[i]].nil /\ NestOK(T, st.tabs[i])
            IN IF ~legal THEN Refused(FALSE)
               ELSE Took(Chk(Same, "frame") \cup
                   (IF e.r.s \notin {e.ns[k] : k \in 1..Len(e.ns)} THEN {"notnew"}
                    ELSE LET y == V[e.r.s] IN
                         Chk(/\ y.nm = st.nm /\ y.fn = st.fn /\ Len(y.tabs) = Len(st.tabs) /\ Distinct(y.tabs)
                             /\ \A i \in 1..Len(y.tabs) : y.tabs[i] \in NW /\ Match(NewFrom(T[st.tabs[i]]), U[y.tabs[i]]), "post")))
SetOps == {"NewTableSet", "Append", "AppendTable", "DeleteTable", "DeleteTableByTableIndex", "SetGetTable", "SetGetTableByTableIndex", "SetHasTable",
           "SetTableIndex", "SetTableCount", "SetGetName", "SetFileNameGet", "IsValidTableSet", "SetRenameTable", "SetSetName", "SetSetFileName", "SetCopy"}

NestEvent ==
    CASE e.op = "HasCircularReference" ->
            IF e.pn THEN {"panic-illegal"}
            ELSE Chk(Same, "impure") \cup (IF ~Live THEN Chk(~e.r.b /\ e.r.e, "answer") ELSE Chk(e.r.b = ~NestOK(T, tH) /\ e.r.e = e.r.b, "answer"))
      [] e.op = "IsValidTableNesting" ->
            IF e.pn THEN {"panic-illegal"}
            ELSE Chk(Same, "impure") \cup Chk(/\ e.r.b = (Live /\ NestOK(T, tH)) /\ e.r.e = ~e.r.b
                                          \* the error tells which table occurs twice
                                          /\ (Live /\ e.r.e) => e.r.circ /\ e.r.root = tH /\ NOcc(T, tH, e.r.in) + (IF e.r.in = tH THEN 1 ELSE 0) >= 2, "answer")
      [] e.op = "Walk" -> IF e.pn THEN {"panic-illegal"}
            ELSE Chk(Same, "impure") \cup (IF ~Live THEN Chk(e.r.e /\ e.r.log = <<>>, "accepted") ELSE Chk(WalkAns(WalkOf(e.a.nested, tH)), "answer"))
      [] e.op = "SetWalk" -> IF e.pn THEN {"panic-illegal"}
            ELSE Chk(Same, "impure") \cup (IF ~SLive THEN Chk(e.r.e /\ e.r.log = <<>>, "accepted")
                                            ELSE Chk(e.r.vs = <<sH>> /\ WalkAns(WalkAll(e.a.nested, st.tabs, <<>>)), "answer"))
      \* only that it refuses what it cannot do, and leaves every table but those it made alone
      [] e.op = "NewTreeTable" -> IF ~(Live /\ ~t.nil /\ NestOK(T, tH) /\ e.a.n >= 0) THEN Refused(FALSE) ELSE Took(Chk(Frame({tH}), "frame"))
      \* what it prints is not specified
      [] e.op = "StringNested" -> Neutral(e.r.some = Live)
WalkOps == {"StringNested", "HasCircularReference", "IsValidTableNesting", "Walk", "SetWalk", "NewTreeTable"}

---------------------------------------------------------------------------
(* Round trips. What cannot be written: text has no literal for invalid runes and strings, no line for rows without   *)
(* columns and no form for a NilTable by itself; JSON has no NaN or infinities; GOB carries neither times nor tables. *)
ColHas(x, i, vs) == \E j \in 1..NR(x) : x.rows[j][i] \in vs
BadText(x) == \E i \in 1..NC(x) : \/ x.cols[i].t = "rune" /\ ColHas(x, i, Range(H.badRune))
                                  \/ x.cols[i].t = "string" /\ ColHas(x, i, Range(H.badStr))
NaNOrInf(x) == \E i \in 1..NC(x) : IsFloat(x.cols[i].t) /\ ColHas(x, i, {NaNTok(x.cols[i].t)} \cup Range(H.inf[x.cols[i].t]))
RowsNoCols(x) == NC(x) = 0 /\ NR(x) > 0
Deep(h) == IF HasTabCol(T[h]) THEN {h} \cup Reach(T, h) ELSE {h}
\* no table occurs twice in the nesting of h, NilTables aside
RECURSIVE NestNR(_, _, _)
NestNR(W, todo, seen) == IF todo = <<>> THEN TRUE
                         ELSE LET h == Head(todo) IN IF h < 1 \/ W[h].nil THEN NestNR(W, Tail(todo), seen)
                              ELSE IF h \in seen THEN FALSE ELSE NestNR(W, Kids(W[h]) \o Tail(todo), seen \cup {h})
NestNN(h) == ~HasTabCol(T[h]) \/ NestNR(T, <<h>>, {})
TextFree(h) == T[h].nil \/ BadText(T[h]) \/ RowsNoCols(T[h])
\* text keeps only the name of a nested table
TextTab(v, w, d) == /\ w \in NW /\ U[w].nm = T[v].nm /\ U[w].nil = T[v].nil /\ U[w].par = d
                    /\ U[w].cols = <<>> /\ U[w].rows = <<>> /\ U[w].keys = <<>>
TextPost(h, d) == LET x == T[h] y == U[d] IN
    /\ y.nm = x.nm /\ ~y.nil /\ y.cols = x.cols /\ y.keys = <<>> /\ y.par = 0
    /\ y.ss = (x.ss /\ NR(x) <= 1 /\ NC(x) > 0)
    /\ NR(y) = NR(x)
    /\ \A j \in 1..NR(x) : \A i \in 1..NC(x) : IF x.cols[i].t = "*Table" THEN TextTab(x.rows[j][i], y.rows[j][i], d) ELSE y.rows[j][i] = x.rows[j][i]
    /\ NestOK(U, d)
\* JSON, YAML and GOB keep nested tables; keys: sort keys are kept; negz: the sign of zero may be lost
RECURSIVE Kept(_, _, _, _, _)
Kept(h, d, par, keys, negz) == LET x == T[h] y == U[d] IN
    /\ d \in NW
    /\ y.nil = x.nil /\ y.par = par /\ y.keys = (IF keys THEN x.keys ELSE <<>>)
    /\ x.nil \/ (/\ y.nm = x.nm /\ y.cols = x.cols /\ y.ss = x.ss /\ NR(y) = NR(x)
                 /\ \A j \in 1..NR(x) : \A i \in 1..NC(x) :
                      LET v == x.rows[j][i] w == y.rows[j][i] ty == x.cols[i].t IN
                      IF ty = "*Table" THEN Kept(v, w, d, keys, negz)
                      ELSE v = w \/ (negz /\ ZeroLike(ty, v) /\ ZeroLike(ty, w)))
KeptAll(h, d, keys, negz) == Kept(h, d, 0, keys, negz) /\ (~HasTabCol(U[d]) \/ NestOK(U, d))
Free == IF e.pn THEN {"panic-illegal"} ELSE Chk(Same, "impure")
\* nothing may be written that cannot be read back
NotWritten == Refused(FALSE) \cup Chk(e.pn \/ e.ok \/ e.r.st = 1, "unreadable")
RTrip(legal, free, post) ==
    IF ~legal THEN Refused(FALSE) ELSE IF free THEN Free
    ELSE Took(Chk(Same, "impure") \cup (IF e.r.h \notin NW THEN {"notnew"} ELSE Chk(post, "post") \cup Chk(e.r.same, "rewritten")))
SRTrip(legal, free, nm, fn, P(_, _)) ==
    IF ~legal THEN Refused(FALSE) ELSE IF free THEN Free
    ELSE Took(Chk(Same, "impure") \cup
              (IF e.r.s \notin {e.ns[k] : k \in 1..Len(e.ns)} THEN {"notnew"}
               ELSE LET y == V[e.r.s] IN
                    Chk(/\ y.nm = nm /\ y.fn = fn /\ Len(y.tabs) = Len(st.tabs) /\ Distinct(y.tabs)
                        /\ \A i \in 1..Len(y.tabs) : y.tabs[i] \in NW /\ P(st.tabs[i], y.tabs[i]), "post") \cup Chk(e.r.same, "rewritten")))
AllTabs(P(_)) == \A i \in 1..Len(st.tabs) : P(st.tabs[i])
DistinctNames == Distinct(NamesOf(T, st))
SetNameText == st.nm = "" \/ ValidName(st.nm)
JsonNo(h) == \E x \in Deep(h) : NaNOrInf(T[x])
JsonFree(h) == T[h].nil \/ \E x \in Deep(h) : BadText(T[x])
GobNo(h) == NR(T[h]) > 0 /\ \E i \in 1..NC(T[h]) : T[h].cols[i].t \in {"*Table", "time.Time"}
CodecEvent ==
    CASE e.op = "TextRT" -> RTrip(Live, TextFree(tH), TextPost(tH, e.r.h))
      [] e.op = "SetTextRT" ->
            IF ~SLive THEN Free ELSE SRTrip(TRUE, ~SetNameText \/ ~DistinctNames \/ ~AllTabs(LAMBDA h : ~TextFree(h)) \/ st.tabs = <<>>, st.nm, IF e.a.how = "file" THEN e.r.fn ELSE "", TextPost)
      [] e.op = "JsonRT" ->
            IF Live /\ ~t.nil /\ (~NestNN(tH) \/ JsonNo(tH)) THEN NotWritten
            ELSE RTrip(Live, JsonFree(tH), KeptAll(tH, e.r.h, FALSE, FALSE))
      [] e.op = "SetJsonRT" ->
            IF SLive /\ ~AllTabs(LAMBDA h : NestNN(h) /\ ~JsonNo(h)) THEN NotWritten
            ELSE SRTrip(SLive, ~DistinctNames \/ ~AllTabs(LAMBDA h : ~JsonFree(h)), st.nm, "", LAMBDA h, d : KeptAll(h, d, FALSE, FALSE))
      [] e.op = "SetYamlRT" ->
            IF SLive /\ ~AllTabs(NestNN) THEN NotWritten
            ELSE SRTrip(SLive, ~DistinctNames \/ ~AllTabs(LAMBDA h : \A x \in Deep(h) : ~BadText(T[x])), st.nm, "", LAMBDA h, d : KeptAll(h, d, FALSE, TRUE))
      [] e.op = "GobRT" ->
            IF Live /\ ~t.nil /\ GobNo(tH) THEN (IF e.ok THEN RTrip(TRUE, FALSE, KeptAll(tH, e.r.h, TRUE, FALSE)) ELSE NotWritten)
            ELSE RTrip(Live, t.nil, KeptAll(tH, e.r.h, TRUE, FALSE))
      [] e.op = "SetGobRT" ->
            IF SLive /\ ~DistinctNames THEN Free
            ELSE IF SLive /\ ~AllTabs(LAMBDA h : ~GobNo(h)) /\ ~e.ok THEN NotWritten
            ELSE SRTrip(SLive, ~DistinctNames \/ ~AllTabs(LAMBDA h : ~T[h].nil), st.nm, st.fn, LAMBDA h, d : KeptAll(h, d, TRUE, FALSE))
      [] e.op = "SetPick" ->
            LET one == e.a.how \in {"one", "onefile", "onejson"}
                js == e.a.how \in {"json", "onejson"}
                ok == SLive /\ (IF one THEN Len(st.tabs) = 1 ELSE IF e.a.how = "index" THEN e.a.i >= 0 /\ e.a.i < Len(st.tabs) ELSE Named(st, e.a.nm) # {})
                h == st.tabs[IF one THEN 1 ELSE IF e.a.how = "index" THEN e.a.i + 1 ELSE SMin(Named(st, e.a.nm))]
                free == \/ ~DistinctNames
                        \/ (IF js THEN ~AllTabs(LAMBDA x : NestNN(x) /\ ~JsonNo(x) /\ ~JsonFree(x)) ELSE ~SetNameText \/ ~AllTabs(LAMBDA x : ~TextFree(x)))
            IN IF SLive /\ free THEN Free
               ELSE IF ~ok THEN Refused(FALSE)
               ELSE Took(Chk(Same, "impure") \cup (IF e.r.h \notin NW THEN {"notnew"} ELSE Chk(IF js THEN KeptAll(h, e.r.h, FALSE, FALSE) ELSE TextPost(h, e.r.h), "post")))
TextOps == {"TextRT", "SetTextRT", "SetPick"}
JsonOps == {"JsonRT", "SetJsonRT"}
YamlOps == {"SetYamlRT"}
GobOps == {"GobRT", "SetGobRT"}

---------------------------------------------------------------------------
(* Text documents. The automaton over lines is DocLine in Gotables.tla. *)
DocTab(x, h) == LET y == U[h] IN
    /\ h \in NW /\ y.nm = x.nm /\ ~y.nil /\ y.cols = x.cols /\ y.keys = <<>> /\ y.par = 0 /\ y.ss = x.ss
    /\ NR(y) = Len(x.rows)
    /\ \A j \in 1..NR(y) : /\ Len(y.rows[j]) = Len(x.cols)
                          /\ \A i \in 1..NC(y) :
        LET c == x.rows[j][i] v == y.rows[j][i] IN
        IF x.cols[i].t # "*Table" THEN v = c.v
        ELSE /\ v \in NW /\ U[v].nm = c.nm /\ U[v].nil = (c.nm = "") /\ U[v].par = h /\ U[v].cols = <<>> /\ U[v].rows = <<>>
DocEvent ==
    LET d == DocOf(e.a.lines)
        one == e.a.how \in {"one", "onefile"}
    IN IF d.free /\ ~d.rej THEN Free
       ELSE IF d.rej \/ (one /\ Len(d.tabs) # 1) THEN Refused(FALSE)
       ELSE Took(Chk(Same, "impure") \cup
                 Chk(/\ (one \/ e.r.nm = d.snm)
                     /\ Len(e.r.tabs) = Len(d.tabs)
                     /\ \A k \in 1..Len(d.tabs) : DocTab(d.tabs[k], e.r.tabs[k]), "post"))
DocOps == {"ParseDoc"}

(* A damaged document: an error, or tables that are valid (or NilTables in a set) and can be used. *)
Usable(h) == h \in NW /\ (U[h].vt = 1 \/ U[h].nil)
(* What a JSON, YAML or GOB document says (e.r.want, read without the library) and what was decoded (e.r.got): a        *)
(* document that is accepted is taken as it is, every cell in the column it is given under; cells left out at the end   *)
(* of a row are zero values. Cell texts are canonical for the type; "!" is not a value of the type.                     *)
ZeroText(ty) == CASE ty = "bool" -> "false" [] ty = "string" -> "s" [] ty \in {"[]byte", "[]uint8"} -> "x" [] ty = "time.Time" -> "0001-01-01T00:00:00Z" [] ty = "*Table" -> "t" [] OTHER -> "0"
RECURSIVE SameDoc(_, _)
SameDoc(i, k) ==
    LET a == e.r.want.ts[i] b == e.r.got.ts[k]
        Cell(j, c) == LET y == b.rows[j][c] IN
            IF c > Len(a.rows[j]) THEN y.v = ZeroText(a.cols[c].t) /\ (y.x # 0 => e.r.got.ts[y.x].nil)
            ELSE LET x == a.rows[j][c] IN /\ x.c \in {"", a.cols[c].n}
                                          /\ x.v # "!" /\ x.v = y.v
                                          /\ (x.x = 0) = (y.x = 0)
                                          /\ (x.x # 0 => SameDoc(x.x, y.x))
    IN /\ ~a.bad /\ ~b.bad /\ a.nil = b.nil
       /\ a.nil \/ (/\ a.nm = b.nm /\ a.cols = b.cols /\ a.ss \in {"?", b.ss} /\ a.keys = b.keys
                    /\ Len(a.rows) = Len(b.rows)
                    /\ \A j \in 1..Len(a.rows) : Len(b.rows[j]) = Len(a.cols) /\ \A c \in 1..Len(a.cols) : Cell(j, c))
Faithful == LET a == e.r.want b == e.r.got IN
    /\ ~a.bad /\ ~b.bad
    /\ CASE e.a.how = "set" -> a.nm = b.nm /\ a.fn = b.fn /\ Len(a.tabs) = Len(b.tabs) /\ \A i \in 1..Len(a.tabs) : SameDoc(a.tabs[i], b.tabs[i])
         [] e.a.how = "byname" -> Len(b.tabs) = 1 /\ \E i \in 1..Len(a.tabs) : a.ts[a.tabs[i]].nm = e.r.nm /\ SameDoc(a.tabs[i], b.tabs[1])
         [] OTHER -> Len(a.tabs) = 1 /\ Len(b.tabs) = 1 /\ SameDoc(a.tabs[1], b.tabs[1])
FaultEvent ==
    IF e.pn THEN {"panic-illegal"}
    ELSE Chk(Frame({}) /\ SFrame({}), "frame")
         \cup (IF ~e.ok \/ ~e.r.fed THEN {} ELSE IF e.r.h = 0 /\ e.r.s = 0 THEN {"nothing"}
               ELSE Chk(e.r.use = "", "unusable")
                    \cup (IF "got" \in DOMAIN e.r THEN Chk(Faithful, "unfaithful") ELSE {})
                    \cup (IF e.r.h # 0 THEN Chk(e.r.h \in NW /\ U[e.r.h].vt = 1, "invalid")
                          ELSE Chk(e.r.s \in Range(e.ns) /\ LET y == V[e.r.s] IN Distinct(y.tabs) /\ Distinct([i \in 1..Len(y.tabs) |-> U[y.tabs[i]].nm]) /\ \A i \in 1..Len(y.tabs) : Usable(y.tabs[i]), "invalid")))
FaultOps == {"Fault"}
ReadOps == {"FaultDoc"}

---------------------------------------------------------------------------
(* Exports. Values written as strings are read back by the driver: a value's token, or the name of a table.   *)
Exported(ty, v, got, gotname) == IF ty = "*Table" THEN got = 0 /\ gotname = T[v].nm
                                 ELSE (ty = "rune" /\ v \in Range(H.badRune)) \/ got = v
ExportedCol(i) == /\ Len(e.r.vs) = NR(t)
                  /\ \A j \in 1..NR(t) : Exported(t.cols[i].t, t.rows[j][i], e.r.vs[j], e.r.tn[j])
ExportEvent ==
    CASE e.op = "CsvOut" ->
            LET legal == Live /\ ~t.nil /\ (e.a.hd = <<>> \/ Len(e.a.hd) = NC(t))
            IN IF ~legal THEN Refused(FALSE) \cup Chk("partial" \notin DOMAIN e.r, "accepted")
               ELSE Took(Chk(Same, "impure") \cup
                    Chk(\/ NC(t) = 0
                        \/ /\ e.r.rd
                           /\ e.r.hd = [i \in 1..NC(t) |-> IF e.a.hd # <<>> /\ e.a.hd[i] # "" THEN e.a.hd[i] ELSE t.cols[i].n]
                           /\ Len(e.r.rows) = NR(t)
                           /\ \A j \in 1..NR(t) : /\ Len(e.r.rows[j]) = NC(t)
                                                  /\ \A i \in 1..NC(t) : Exported(t.cols[i].t, t.rows[j][i], e.r.rows[j][i], e.r.tn[j][i]), "answer"))
      [] e.op = "ValString" -> Ask(Live /\ ~t.nil /\ Addr # 0 /\ RowOK(t, e.a.j), Exported(t.cols[Addr].t, t.rows[e.a.j + 1][Addr], e.r.v, e.r.tn))
      \* a column that is not there has no values to be refused in a table without rows
      [] e.op = "ColStrings" -> IF Live /\ ~t.nil /\ NR(t) = 0 /\ Addr = 0 THEN Free ELSE Ask(Live /\ ~t.nil /\ Addr # 0, ExportedCol(Addr))
      [] e.op = "JoinCol" -> IF Live /\ ~t.nil /\ NR(t) = 0 /\ Addr = 0 THEN Free ELSE Ask(Live /\ ~t.nil /\ Addr # 0, ExportedCol(Addr))
ExportOps == {"CsvOut", "ValString", "ColStrings", "JoinCol"}

---------------------------------------------------------------------------
(* Nest: both tables are sorted by the keys they share (those of the table, or else of the nestable), and every row   *)
(* of the table gets, as text in a new column, the rows of the nestable that match it - possibly none.                *)
(* The driver takes the new column out again; e.r.hs are the tables read back from its cells.                         *)
u2 == T[e.a.t2]
NestKeys == MergeKeys(t, u2)
LNest == /\ Live /\ e.a.t2 # 0
         /\ ValidName(e.a.c) /\ ~HasC(t, e.a.c)
         /\ Len(NestKeys) > 0
         /\ \A k \in 1..Len(NestKeys) : HasC(t, NestKeys[k].c) /\ HasC(u2, NestKeys[k].c) /\ TypeOf(t, NestKeys[k].c) = TypeOf(u2, NestKeys[k].c)
SortedBy(h) == LET y == U[h] IN [Core(y) EXCEPT ![5] = T[h].rows] = Core([T[h] EXCEPT !.keys = NestKeys]) /\ IsPerm(y.rows, T[h].rows) /\ Sorted(y)
NestedIn(j) == LET d == e.r.hs[j] x == U[tH] y == U[e.a.t2] ki == KeyInfo(x) kv == KeyVals(ki, x.rows[j])
                   m == SelIdx(y.rows, LAMBDA i : CmpKR(ki, KeyVals(KeyInfo(y), y.rows[i]), kv, 1, FALSE) = 0)
               IN /\ d \in NW
                  /\ U[d].nm = e.a.c /\ U[d].cols = y.cols /\ U[d].keys = <<>>
                  /\ NR(U[d]) = Len(m)
                  /\ \A i \in 1..Len(m) : \A c \in 1..NC(y) :
                        IF y.cols[c].t = "*Table" THEN TextTab(y.rows[m[i]][c], U[d].rows[i][c], d) ELSE U[d].rows[i][c] = y.rows[m[i]][c]
SortNestEvent ==
    IF ~LNest THEN Refused(FALSE)
    ELSE IF KeysNaN(t, NestKeys) \/ KeysNaN(u2, NestKeys) \/ BadText(u2) THEN (IF e.pn THEN {"panic"} ELSE {})
    ELSE Took(Chk(Frame({tH, e.a.t2}) /\ SFrame({}), "frame")
              \cup Chk(/\ e.r.cn = e.a.c /\ e.r.ct = "string"
                       /\ SortedBy(tH) /\ SortedBy(e.a.t2)
                       /\ Len(e.r.hs) = NR(t)
                       /\ \A j \in 1..NR(t) : NestedIn(j), "post"))
NestOps == {"Nest"}

---------------------------------------------------------------------------
(* Generated Go source: compiled, it takes a table to a slice of structs and back. Names that mean something else in   *)
(* Go are not specified. The stored tables of *Table columns become members of the new table.                         *)
GoWords == {"break", "case", "chan", "const", "continue", "default", "defer", "else", "fallthrough", "for", "func", "go", "goto", "if",
            "import", "interface", "map", "package", "range", "return", "select", "struct", "switch", "type", "var", "_"}
GoTaken == {"table", "gotables", "fmt", "time", "err", "error", "make", "nil", "len", "rowIndex", "init", "main", "true", "false", "iota", "any"}
GenFree == t.nil \/ t.nm \in GoWords \cup GoTaken \/ \E i \in 1..NC(t) : t.cols[i].n \in GoWords
GenFrame(h) == \A k \in 1..Len(e.d) : LET x == e.d[k].h IN ~Changed(x) \/ (x \in Range(Kids(t)) /\ [Core(U[x]) EXCEPT ![7] = 0] = [Core(T[x]) EXCEPT ![7] = 0] /\ U[x].par = h)
GenEvent ==
    CASE e.op = "GenSrc" -> IF Live /\ t.nil THEN Free ELSE Ask(Live, e.r.some)
      [] e.op = "GenRT" ->
            IF ~Live THEN Refused(FALSE)
            ELSE IF GenFree THEN (IF e.pn THEN {"panic"} ELSE {})
            ELSE Took(IF e.r.h \notin NW THEN {"notnew"}
                      ELSE Chk(GenFrame(e.r.h) /\ SFrame({}), "frame")
                           \cup Chk(e.r.n = NR(t) /\ LET y == U[e.r.h] IN y.nm = t.nm /\ ~y.nil /\ ~y.ss /\ y.cols = t.cols /\ y.rows = t.rows /\ y.keys = <<>> /\ y.par \in {0, e.r.h}, "post"))
GenOps == {"GenSrc", "GenRT"}

---------------------------------------------------------------------------
(* Well-formedness of what the API shows of each changed table *)
WFObs(x) == /\ WF(x)
            /\ x.ci = [i \in 1..NC(x) |-> i - 1] /\ x.ph = <<>>
            /\ (x.nil \/ (x.sn = [i \in 1..NC(x) |-> x.cols[i].n] /\ x.st = [i \in 1..NC(x) |-> x.cols[i].t]))
            /\ x.kc = Len(x.keys)
            /\ (IF x.nil THEN x.nm = "" ELSE ValidName(x.nm))
VtOK(h) == LET x == U[h] IN x.vt = IF x.nil THEN 0 ELSE IF NestOK(U, h) THEN 1 ELSE 0
WFAll == /\ \A k \in 1..Len(e.d) : WFObs(e.d[k])
         /\ \A k \in 1..Len(e.d) : HasTabCol(e.d[k]) \/ VtOK(e.d[k].h)
         /\ Len(e.d) = 0 \/ \A h \in 1..Len(U) : ~HasTabCol(U[h]) \/ VtOK(h)
\* lookups by name find the first table of that name; a set is valid when its tables are
WFSet(x) == /\ \A i \in 1..Len(x.tabs) : LET n == U[x.tabs[i]].nm
                                               f == SMin({k \in 1..Len(x.tabs) : U[x.tabs[k]].nm = n})
                                           IN x.ti[i] = f - 1 /\ x.gt[i] = x.tabs[f]
            /\ x.ph = <<>>
            /\ x.vt = IF \A i \in 1..Len(x.tabs) : ~U[x.tabs[i]].nil /\ NestOK(U, x.tabs[i]) THEN 1 ELSE 0
WFSets == (Len(e.d) = 0 /\ Len(e.ds) = 0) \/ \A k \in 1..Len(V) : WFSet(V[k])
SetTabsOK == \A k \in 1..Len(e.ds) : \A i \in 1..Len(e.ds[k].tabs) : e.ds[k].tabs[i] \in DOMAIN U
TabCellsOK == \A k \in 1..Len(e.d) : LET x == e.d[k] IN
                \A i \in 1..NC(x) : x.cols[i].t = "*Table" => \A j \in 1..NR(x) : Len(x.rows[j]) >= i => x.rows[j][i] \in DOMAIN U

Judge == CASE e.op = "Reset" -> {}
           [] e.op \in RowOps -> RowEvent
           [] e.op \in ColOps -> ColEvent
           [] e.op \in CellSetOps \cup CellGetOps -> CellEvent
           [] e.op \in TableOps -> TableEvent
           [] e.op \in LookOps -> LookEvent
           [] e.op \in PkgOps -> PkgEvent
           [] e.op \in KeyOps -> KeyEvent
           [] e.op \in SearchOps -> SearchEvent
           [] e.op \in PredSearchOps -> PredSearchEvent
           [] e.op = "Merge" -> MergeEvent
           [] e.op = "SortUnique" -> UniqueEvent
           [] e.op \in CopyOps -> CopyEvent
           [] e.op \in EqOps -> EqEvent
           [] e.op \in SetOps -> SetEvent
           [] e.op \in WalkOps -> NestEvent
           [] e.op \in TextOps \cup JsonOps \cup YamlOps \cup GobOps -> CodecEvent
           [] e.op \in NestOps -> SortNestEvent
           [] e.op \in ExportOps -> ExportEvent
           [] e.op \in DocOps -> DocEvent
           [] e.op \in FaultOps \cup ReadOps -> FaultEvent
           [] e.op \in GenOps -> GenEvent
           [] OTHER -> {"unknown-op"}
\* calls that only read what was there before
PureOps == CellGetOps \cup LookOps \cup PkgOps \cup SearchOps \cup PredSearchOps \cup EqOps \cup (WalkOps \ {"NewTreeTable"})
           \cup TextOps \cup JsonOps \cup YamlOps \cup GobOps \cup ExportOps \cup DocOps \cup FaultOps \cup ReadOps \cup GenOps
           \cup {"CompareRows", "Copy", "CopyCols", "CopyDeep", "NewTableFromRows", "SetGetTable", "SetGetTableByTableIndex", "SetHasTable", "SetTableIndex",
                 "SetTableCount", "SetGetName", "SetFileNameGet", "IsValidTableSet", "SetCopy"}
\* calls that change one table, e.a.t
OneTableOps == RowOps \cup ColOps \cup CellSetOps \cup {"SetName", "RenameTable", "SetStructShape", "SetSortKeys", "SetSortKeysReverse", "AppendSortKey", "DeleteSortKey", "Sort", "SortSimple"}
\* what else it means when a table or set is not well-formed any more: a call that should not have touched it
Broken == LET w == Chk(WFAll, "wf") \cup Chk(WFSets, "wfset") IN
    IF w = {} THEN {}
    ELSE w \cup (IF e.op = "Reset" THEN {} ELSE Chk(e.pn = FALSE, "panic"))
           \cup (IF e.op \in PureOps /\ \E k \in 1..Len(e.d) : e.d[k].h \in DOMAIN T THEN {"impure"} ELSE {})
           \cup (IF e.op \in OneTableOps /\ \E k \in 1..Len(e.d) : LET h == e.d[k].h IN h \in DOMAIN T /\ h # e.a.t /\ ~WFObs(e.d[k]) THEN {"frame"} ELSE {})
Verdict == IF ~TabCellsOK THEN {"wf"} ELSE IF ~SetTabsOK THEN {"wfset"} ELSE IF Broken # {} THEN Broken ELSE Judge

Family == CASE e.op \in RowOps -> "C03"
            [] e.op \in ColOps -> "C04"
            [] e.op \in CellSetOps \cup CellGetOps -> "C02"
            [] e.op \in TableOps \cup LookOps \cup PkgOps -> "C01"
            [] e.op \in KeyOps -> "C05"
            [] e.op \in SearchOps \cup PredSearchOps -> "C06"
            [] e.op = "Merge" -> "C07"
            [] e.op = "SortUnique" -> "C08"
            [] e.op \in CopyOps -> "C09"
            [] e.op \in EqOps -> "C18"
            [] e.op \in SetOps -> "C16"
            [] e.op \in WalkOps -> "C17"
            [] e.op \in TextOps -> "C10"
            [] e.op \in JsonOps -> "C11"
            [] e.op \in YamlOps -> "C12"
            [] e.op \in GobOps -> "C13"
            [] e.op \in DocOps -> "C14"
            [] e.op \in FaultOps -> "C15"
            [] e.op \in ReadOps -> "C24"
            [] e.op \in ExportOps -> "C22"
            [] e.op \in NestOps -> "C21"
            [] e.op \in GenOps -> "C23"
            [] OTHER -> "C01"
\* JSON and YAML of a circular nesting
Circular == \/ e.op = "JsonRT" /\ Live /\ HasTabCol(t) /\ Cyclic(T, tH)
            \/ e.op \in {"SetJsonRT", "SetYamlRT"} /\ SLive /\ \E i \in 1..Len(st.tabs) : HasTabCol(T[st.tabs[i]]) /\ Cyclic(T, st.tabs[i])
\* a decoder that panics, hangs or gives what cannot be used, and one that gives what the document does not say
Decoder(v) == (IF v \ {"unfaithful"} # {} THEN {"C15"} ELSE {}) \cup (IF v \cap {"unfaithful", "nothing"} # {} \/ (e.op \in ReadOps /\ "panic-illegal" \in v) THEN {"C24"} ELSE {})
Props(v) == (IF e.op \in FaultOps \cup ReadOps THEN Decoder(v) ELSE {Family})
            \cup (IF Circular THEN {"C17"} ELSE {})
            \cup (IF "wf" \in v THEN {"C01"} ELSE {})
            \cup (IF "wfset" \in v THEN {"C16"} ELSE {})
            \cup (IF v \cap {"changed", "panic-illegal", "accepted"} # {} THEN {"C19"} ELSE {})
            \cup (IF v \cap {"wf", "wfset"} # {} /\ ~e.ok THEN {"C19"} ELSE {})
            \cup (IF "impure" \in v THEN {"C20"} ELSE {})
            \cup (IF "frame" \in v THEN {"C09"} ELSE {})
            \cup (IF "frame" \in v /\ e.op \in CopyOps THEN {"C20"} ELSE {})

---------------------------------------------------------------------------
Init == l = 1 /\ T = <<>> /\ U = <<>> /\ S = <<>> /\ V = <<>> /\ skip = FALSE
Step == LET v == IF l = 1 \/ l = Lines \/ skip THEN {} ELSE Verdict
            n == Trace[l + 1]
            base == IF n.op = "Reset" THEN <<>> ELSE U
            sbase == IF n.op = "Reset" THEN <<>> ELSE V
        IN /\ (IF v = {} THEN TRUE ELSE PrintT("REJECT " \o ToJson([l |-> l, seg |-> e.seg, n |-> e.n, op |-> e.op, why |-> v, props |-> Props(v)])))
           /\ l' = l + 1
           /\ T' = base
           /\ S' = sbase
           /\ U' = IF n.op = "End" THEN <<>> ELSE Overlay(base, n.d)
           /\ V' = IF n.op = "End" THEN <<>> ELSE Overlay(sbase, n.ds)
           /\ skip' = IF n.op = "Reset" THEN FALSE ELSE skip \/ v # {}
Next == l < Lines /\ Step
Spec == Init /\ [][Next]_vars
\* the whole trace was read, and it is complete
Accepted == TLCGet("stats").diameter = Lines /\ Trace[Lines].op = "End"
=============================================================================

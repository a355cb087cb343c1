------------------------------ MODULE Gotables ------------------------------
(* The observable behaviour of urban-wombat/gotables: tables, their rows, columns, cells and sort keys,   *)
(* as functions from table records to table records (F...), legality predicates (L...) and judgements on  *)
(* results. Values of cells are tokens (integers >= 1, per value group); cells of type *Table hold table  *)
(* handles. The same operators are used by the exhaustive models (MC*.tla) and by Trace.tla, which checks  *)
(* recorded executions of the real package.                                                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANT H   \* value description: rank, fold, zero, nan, negz, ... (see harness/pool.go, MC*.tla)

---------------------------------------------------------------------------
(* Types *)
ScalarTypes == {"[]byte", "[]uint8", "bool", "byte", "float32", "float64", "int", "int16", "int32", "int64", "int8",
                "rune", "string", "time.Time", "uint", "uint16", "uint32", "uint64", "uint8"}
AllTypes == ScalarTypes \cup {"*Table"}
Grp(ty) == CASE ty \in {"byte", "uint8"} -> "u8"
             [] ty \in {"[]byte", "[]uint8"} -> "sl"
             [] ty \in {"int32", "rune"} -> "i32"
             [] ty = "time.Time" -> "time"
             [] OTHER -> ty
\* Go types that are one and the same type under two names
SameType(a, b) == a = b \/ (a \in AllTypes /\ b \in AllTypes /\ a # "*Table" /\ b # "*Table" /\ Grp(a) = Grp(b))
SortTypes == {"bool", "float32", "float64", "int", "int8", "int16", "int32", "int64", "string",
              "uint", "uint8", "uint16", "uint32", "uint64"}
FloatTypes == {"float32", "float64"}
NumTypes == {"float32", "float64", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "byte"}
IsFloat(ty) == ty \in FloatTypes

(* Names: letters, digits and underscore, not starting with a digit, and not the name of a type. *)
Letters == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z",
            "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z","_"}
Digits == {"0","1","2","3","4","5","6","7","8","9"}
Ch(s, i) == SubSeq(s, i, i)
GoTypeNames == AllTypes
WellFormedName(s) == /\ Len(s) > 0
                     /\ Ch(s, 1) \in Letters
                     /\ \A i \in 1..Len(s) : Ch(s, i) \in Letters \cup Digits
ValidName(s) == WellFormedName(s) /\ s \notin GoTypeNames

(* Values *)
FRESH == 0                                   \* placeholder: a newly made empty nested table
ZeroTok(ty) == IF ty = "*Table" THEN FRESH ELSE H.zero[Grp(ty)]
NaNTok(ty) == H.nan[ty]
IsNaNTok(ty, v) == IsFloat(ty) /\ v = H.nan[ty]
ZeroLike(ty, v) == v = ZeroTok(ty) \/ (IsFloat(ty) /\ v = H.negz[ty])
Rk(g, v) == IF v >= 1 /\ v <= Len(H.rank[g]) THEN H.rank[g][v] ELSE -1
Fd(v) == IF v >= 1 /\ v <= Len(H.fold) THEN H.fold[v] ELSE -1
Sgn(n) == IF n < 0 THEN -1 ELSE IF n > 0 THEN 1 ELSE 0
\* the order of two values of a sortable type: strings without regard to case first, then exactly
CmpVal(ty, a, b) == IF ty = "string" /\ Fd(a) # Fd(b) THEN Sgn(Fd(a) - Fd(b))
                    ELSE Sgn(Rk(Grp(ty), a) - Rk(Grp(ty), b))
\* equality of content: numeric equality for floats (0 = -0, NaN is unequal to everything)
EqTok(ty, a, b) == IF IsFloat(ty) THEN ~IsNaNTok(ty, a) /\ ~IsNaNTok(ty, b) /\ Rk(ty, a) = Rk(ty, b) ELSE a = b

---------------------------------------------------------------------------
(* Tables: [nm, nil, ss, cols : Seq([n, t]), rows : Seq(Seq(token)), keys : Seq([c, r]), par] *)
NC(t) == Len(t.cols)
NR(t) == Len(t.rows)
Core(t) == <<t.nm, t.nil, t.ss, t.cols, t.rows, t.keys, t.par>>
Body(t) == <<t.cols, t.rows>>
ColIdxs(t, n) == {i \in 1..NC(t) : t.cols[i].n = n}
HasC(t, n) == ColIdxs(t, n) # {}
CI(t, n) == CHOOSE i \in 1..NC(t) : t.cols[i].n = n           \* 1-based
TypeOf(t, n) == t.cols[CI(t, n)].t
ColOK(t, i) == i >= 0 /\ i < NC(t)                             \* i is 0-based, as in the API
RowOK(t, j) == j >= 0 /\ j < NR(t)
EmptyTable(nm) == [nm |-> nm, nil |-> FALSE, ss |-> FALSE, cols |-> <<>>, rows |-> <<>>, keys |-> <<>>, par |-> 0]
NilRec == [EmptyTable("") EXCEPT !.nil = TRUE]
ZeroRow(t) == [i \in 1..NC(t) |-> ZeroTok(t.cols[i].t)]
Distinct(s) == \A i, j \in 1..Len(s) : s[i] = s[j] => i = j
Range(s) == {s[i] : i \in 1..Len(s)}
IsPerm(a, b) == /\ Len(a) = Len(b)
                /\ \A i \in 1..Len(a) : Cardinality({j \in 1..Len(a) : a[j] = a[i]}) = Cardinality({j \in 1..Len(b) : b[j] = a[i]})
RECURSIVE FlatR(_, _)
FlatR(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o FlatR(ss, i + 1)
Flat(ss) == FlatR(ss, 1)
Sel(s, P(_)) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF P(s[i]) THEN Append(F[i-1], s[i]) ELSE F[i-1] IN F[Len(s)]
SelIdx(s, P(_)) == LET F[i \in 0..Len(s)] == IF i = 0 THEN <<>> ELSE IF P(i) THEN Append(F[i-1], i) ELSE F[i-1] IN F[Len(s)]
Drop(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

(* Well-formedness of a table as such. *)
WFCols(t) == /\ \A i \in 1..NC(t) : ValidName(t.cols[i].n) /\ t.cols[i].t \in AllTypes
             /\ \A i, j \in 1..NC(t) : t.cols[i].n = t.cols[j].n => i = j
WFRows(t) == \A j \in 1..NR(t) : Len(t.rows[j]) = NC(t) /\ \A i \in 1..NC(t) : t.rows[j][i] >= 1
WFKeys(t) == \A k \in 1..Len(t.keys) : HasC(t, t.keys[k].c) /\ TypeOf(t, t.keys[k].c) \in SortTypes
WF(t) == WFCols(t) /\ WFRows(t) /\ WFKeys(t)

(* Rows *)
LAppendRow(t) == ~t.nil
FAppendRow(t) == [t EXCEPT !.rows = Append(@, ZeroRow(t))]
LAppendRows(t, n) == ~t.nil /\ n >= 0
FAppendRows(t, n) == [t EXCEPT !.rows = @ \o [i \in 1..n |-> ZeroRow(t)]]
LDeleteRow(t, i) == RowOK(t, i)
FDeleteRow(t, i) == [t EXCEPT !.rows = Drop(@, i + 1)]
LDeleteRows(t, i, j) == RowOK(t, i) /\ RowOK(t, j) /\ i <= j
FDeleteRows(t, i, j) == [t EXCEPT !.rows = SubSeq(@, 1, i) \o SubSeq(@, j + 2, Len(@))]
FDeleteRowsAll(t) == [t EXCEPT !.rows = <<>>]
FReverse(t) == [t EXCEPT !.rows = Rev(@)]

(* Columns *)
LAppendCol(t, c, ty) == ~t.nil /\ ValidName(c) /\ ty \in AllTypes /\ ~HasC(t, c)
FAppendCol(t, c, ty) == [t EXCEPT !.cols = Append(@, [n |-> c, t |-> ty]),
                                  !.rows = [j \in 1..Len(@) |-> Append(@[j], ZeroTok(ty))]]
FDeleteColI(t, i) == [t EXCEPT !.cols = Drop(@, i), !.rows = [j \in 1..Len(@) |-> Drop(@[j], i)],
                               !.keys = Sel(@, LAMBDA k : k.c # t.cols[i].n)]
LRenameCol(t, c, c2) == HasC(t, c) /\ ValidName(c2) /\ ~HasC(t, c2)
FRenameCol(t, c, c2) == [t EXCEPT !.cols[CI(t, c)].n = c2,
                                  !.keys = [k \in 1..Len(@) |-> IF @[k].c = c THEN [@[k] EXCEPT !.c = c2] ELSE @[k]]]
\* p: new position -> old position (1-based)
Permute(t, p) == [t EXCEPT !.cols = [i \in 1..Len(@) |-> @[p[i]]], !.rows = [j \in 1..Len(@) |-> [i \in 1..NC(t) |-> @[j][p[i]]]]]
LPermI(t, is) == Len(is) = NC(t) /\ {is[k] : k \in 1..Len(is)} = 0..(NC(t) - 1)
LPermN(t, cs) == Len(cs) = NC(t) /\ Range(cs) = {t.cols[i].n : i \in 1..NC(t)}
FReorderI(t, is) == Permute(t, [k \in 1..NC(t) |-> is[k] + 1])
FReorderN(t, cs) == Permute(t, [k \in 1..NC(t) |-> CI(t, cs[k])])
FSwapI(t, i, j) == Permute(t, [k \in 1..NC(t) |-> IF k = i THEN j ELSE IF k = j THEN i ELSE k])
\* the columns of the sort keys (each once) in key order, then the others in their order
RECURSIVE Firsts(_, _, _)
Firsts(ks, i, out) == IF i > Len(ks) THEN out ELSE Firsts(ks, i + 1, IF \E k \in 1..Len(out) : out[k] = ks[i].c THEN out ELSE Append(out, ks[i].c))
KeyCols(t) == Firsts(t.keys, 1, <<>>)
FOrderByKeys(t) == LET kc == KeyCols(t)
                       rest == Sel([i \in 1..NC(t) |-> t.cols[i].n], LAMBDA n : n \notin Range(kc))
                   IN FReorderN(t, kc \o rest)
NewFrom(t) == [t EXCEPT !.ss = FALSE, !.keys = <<>>, !.par = 0, !.nil = FALSE]

(* Cells *)
PutCell(t, i, j, v) == [t EXCEPT !.rows[j][i] = v]             \* 1-based
FZeroRow(t, j) == [t EXCEPT !.rows[j] = ZeroRow(t)]
FZeroCol(t, i) == [t EXCEPT !.rows = [j \in 1..Len(@) |-> [@[j] EXCEPT ![i] = ZeroTok(t.cols[i].t)]]]
FNaNRow(t, j) == [t EXCEPT !.rows[j] = [i \in 1..NC(t) |-> IF IsFloat(t.cols[i].t) THEN NaNTok(t.cols[i].t) ELSE @[i]]]
FNaNCol(t, i) == [t EXCEPT !.rows = [j \in 1..Len(@) |-> [@[j] EXCEPT ![i] = NaNTok(t.cols[i].t)]]]
FNaNAll(t) == [t EXCEPT !.rows = [j \in 1..Len(@) |-> [i \in 1..NC(t) |-> IF IsFloat(t.cols[i].t) THEN NaNTok(t.cols[i].t) ELSE @[j][i]]]]

(* Sort keys and sorting *)
LKeys(t, cs) == \A k \in 1..Len(cs) : HasC(t, cs[k]) /\ TypeOf(t, cs[k]) \in SortTypes
FKeys(t, cs) == [t EXCEPT !.keys = [k \in 1..Len(cs) |-> [c |-> cs[k], r |-> FALSE]]]
IsKey(t, c) == \E k \in 1..Len(t.keys) : t.keys[k].c = c
FKeysReverse(t, cs) == [t EXCEPT !.keys = [k \in 1..Len(@) |-> IF @[k].c \in Range(cs) THEN [@[k] EXCEPT !.r = TRUE] ELSE @[k]]]
FAppendKey(t, c) == [t EXCEPT !.keys = Append(@, [c |-> c, r |-> FALSE])]
FDeleteKey(t, c) == LET i == CHOOSE i \in 1..Len(t.keys) : t.keys[i].c = c /\ \A k \in 1..(i-1) : t.keys[k].c # c
                    IN [t EXCEPT !.keys = Drop(@, i)]
\* index of each key's column, its type and its direction, computed once per table
KeyInfo(t) == [k \in 1..Len(t.keys) |-> [i |-> CI(t, t.keys[k].c), ty |-> TypeOf(t, t.keys[k].c), r |-> t.keys[k].r]]
RECURSIVE CmpKR(_, _, _, _, _)
CmpKR(ki, va, vb, k, rev) == IF k > Len(ki) THEN 0
    ELSE LET c == CmpVal(ki[k].ty, va[k], vb[k])
         IN IF c # 0 THEN (IF rev /\ ki[k].r THEN 0 - c ELSE c) ELSE CmpKR(ki, va, vb, k + 1, rev)
KeyVals(ki, row) == [k \in 1..Len(ki) |-> row[ki[k].i]]
\* comparison under the keys; rev: honour the reverse flags
CmpRows(ki, ra, rb, rev) == CmpKR(ki, KeyVals(ki, ra), KeyVals(ki, rb), 1, rev)
Sorted(t) == LET ki == KeyInfo(t) IN \A j \in 1..(NR(t) - 1) : CmpRows(ki, t.rows[j], t.rows[j + 1], TRUE) <= 0
NaNKeyRow(ki, row) == \E k \in 1..Len(ki) : IsNaNTok(ki[k].ty, row[ki[k].i])
HasNaNKey(t) == LET ki == KeyInfo(t) IN \E j \in 1..NR(t) : NaNKeyRow(ki, t.rows[j])
SortedOrNaN(t) == HasNaNKey(t) \/ Sorted(t)
MatchRows(t, vs) == LET ki == KeyInfo(t) IN {j \in 1..NR(t) : CmpKR(ki, KeyVals(ki, t.rows[j]), vs, 1, FALSE) = 0}

(* Merge: t1 takes precedence. m is the result. *)
MergeKeys(t1, t2) == IF Len(t1.keys) > 0 THEN t1.keys ELSE t2.keys
NonKeyN(t, ks) == {t.cols[i].n : i \in 1..NC(t)} \ {ks[k].c : k \in 1..Len(ks)}
LMerge(t1, t2) == LET ks == MergeKeys(t1, t2) IN
    /\ Len(ks) > 0
    /\ \A k \in 1..Len(ks) : HasC(t1, ks[k].c) /\ HasC(t2, ks[k].c) /\ TypeOf(t1, ks[k].c) = TypeOf(t2, ks[k].c)
    /\ \A i \in 1..NC(t1) : HasC(t2, t1.cols[i].n) => TypeOf(t2, t1.cols[i].n) = t1.cols[i].t
MergeCols(t1, t2) == LET ks == MergeKeys(t1, t2)
                         kn == KeyCols([t1 EXCEPT !.keys = ks])
                         kc == [k \in 1..Len(kn) |-> [n |-> kn[k], t |-> TypeOf(t1, kn[k])]]
                         r1 == Sel(t1.cols, LAMBDA c : c.n \notin Range(kn))
                         r2 == Sel(t2.cols, LAMBDA c : ~HasC(t1, c.n))
                     IN kc \o r1 \o r2
\* nils: the NilTables; fresh: those made by the call. A missing value: zero, NaN or a NilTable
Missing(ty, v, nils) == IF ty = "*Table" THEN v = FRESH \/ v \in nils ELSE ZeroLike(ty, v) \/ IsNaNTok(ty, v)
OneOf(v, vs, fresh) == v \in vs \/ (FRESH \in vs /\ v \in fresh)
\* the values a merged cell may take: vs1, vs2 the values of the matching rows (absent columns: one missing value)
MergedCell(ty, vs1, vs2, v, nils, fresh) ==
    LET n1 == {x \in vs1 : ~Missing(ty, x, nils)}
        n2 == {x \in vs2 : ~Missing(ty, x, nils)}
        z == {x \in vs1 \cup vs2 : ZeroLike(ty, x)}
    IN IF n1 # {} THEN v \in n1 ELSE IF n2 # {} THEN v \in n2
       ELSE IF ty # "*Table" /\ z # {} THEN v \in z ELSE OneOf(v, vs1 \cup vs2, fresh)
AbsentVal(ty) == IF IsFloat(ty) THEN NaNTok(ty) ELSE ZeroTok(ty)
KeyIdx(t, ks) == [k \in 1..Len(ks) |-> [i |-> CI(t, ks[k].c), ty |-> TypeOf(t, ks[k].c), r |-> ks[k].r]]
MergePost(t1, t2, m, nils, fresh) ==
    LET ks == MergeKeys(t1, t2)
        k1 == KeyIdx(t1, ks)
        k2 == KeyIdx(t2, ks)
        kn == KeyCols([t1 EXCEPT !.keys = ks])
        km == KeyIdx(m, ks)
        kv1 == [j \in 1..NR(t1) |-> KeyVals(k1, t1.rows[j])]
        kv2 == [j \in 1..NR(t2) |-> KeyVals(k2, t2.rows[j])]
        kvm == [j \in 1..NR(m) |-> KeyVals(km, m.rows[j])]
        Eqv(a, b) == CmpKR(k1, a, b, 1, FALSE) = 0
    IN /\ m.cols = MergeCols(t1, t2)
       /\ WFRows(m)
       /\ m.keys = ks
       /\ \A j \in 1..(NR(m) - 1) : CmpKR(k1, kvm[j], kvm[j + 1], 1, TRUE) < 0      \* sorted, one row per key
       /\ \A i \in 1..NR(t1) : \E j \in 1..NR(m) : Eqv(kv1[i], kvm[j])
       /\ \A i \in 1..NR(t2) : \E j \in 1..NR(m) : Eqv(kv2[i], kvm[j])
       /\ \A j \in 1..NR(m) :
            LET m1 == {i \in 1..NR(t1) : Eqv(kv1[i], kvm[j])}
                m2 == {i \in 1..NR(t2) : Eqv(kv2[i], kvm[j])}
                Vals(t, ms, n, ty) == IF HasC(t, n) THEN {t.rows[i][CI(t, n)] : i \in ms}
                                      ELSE IF ms = {} THEN {} ELSE {AbsentVal(ty)}
            IN /\ m1 \cup m2 # {}
               /\ \A c \in 1..NC(m) :
                    LET n == m.cols[c].n
                        ty == m.cols[c].t
                        v == m.rows[j][c]
                        a == Vals(t1, m1, n, ty)
                        b == Vals(t2, m2, n, ty)
                    IN IF n \in Range(kn) THEN v \in a \cup b ELSE MergedCell(ty, a, b, v, nils, fresh)
KeysNaN(t, ks) == LET ki == KeyIdx(t, ks) IN \E j \in 1..NR(t) : NaNKeyRow(ki, t.rows[j])

(* SortUnique over the table's (possibly just given) keys *)
UniquePost(t, ks, m, nils, fresh) ==
    LET ki == KeyIdx(t, ks)
        km == KeyIdx(m, ks)
        kv == [j \in 1..NR(t) |-> KeyVals(ki, t.rows[j])]
        kvm == [j \in 1..NR(m) |-> KeyVals(km, m.rows[j])]
    IN /\ NC(m) = NC(t)
       /\ Range(m.cols) = Range(t.cols)
       /\ WFRows(m)
       /\ \A j \in 1..(NR(m) - 1) : CmpKR(ki, kvm[j], kvm[j + 1], 1, TRUE) < 0
       /\ \A i \in 1..NR(t) : \E j \in 1..NR(m) : CmpKR(ki, kv[i], kvm[j], 1, FALSE) = 0
       /\ \A j \in 1..NR(m) :
            LET ms == {i \in 1..NR(t) : CmpKR(ki, kv[i], kvm[j], 1, FALSE) = 0}
            IN /\ ms # {}
               /\ \A c \in 1..NC(m) :
                    LET n == m.cols[c].n
                        a == {t.rows[i][CI(t, n)] : i \in ms}
                    IN IF \E k \in 1..Len(ks) : ks[k].c = n THEN m.rows[j][c] \in a ELSE MergedCell(m.cols[c].t, a, {}, m.rows[j][c], nils, fresh)

---------------------------------------------------------------------------
(* Text documents: an automaton over lines. A line has a kind k (blank, comment, or other), its words ws and, where it *)
(* was written as values, the values cs it denotes: [ty, v, nm], v = -1 where the text is no value of that type.        *)
(* sec: what the next line has to be. free: the line's meaning is not specified.                                       *)
DocInit == [sec |-> "name", tabs |-> <<>>, names |-> <<>>, snm |-> "", sset |-> FALSE, data |-> FALSE, rej |-> FALSE, free |-> FALSE]
Bracketed(w, n) == Len(w) > 2 * n /\ (\A i \in 1..n : Ch(w, i) = "[" /\ Ch(w, Len(w) + 1 - i) = "]")
Inner(w, n) == SubSeq(w, n + 1, Len(w) - n)
Rej(d) == [d EXCEPT !.rej = TRUE]
FreeDoc(d) == [d EXCEPT !.free = TRUE]
Loose == {"true", "false", "NaN", "Inf", "[]"}          \* words that are values as well
NewDocTab(nm) == [nm |-> nm, cols |-> <<>>, rows |-> <<>>, ss |-> FALSE]
Last(d) == d.tabs[Len(d.tabs)]
PutLast(d, x) == [d EXCEPT !.tabs[Len(d.tabs)] = x]
NameLine(d, w) ==
    IF Len(w) # 1 THEN Rej(d)
    ELSE IF ~d.sset /\ Bracketed(w[1], 2) /\ WellFormedName(Inner(w[1], 2))
         THEN IF Len(d.tabs) > 0 THEN FreeDoc(d) ELSE [d EXCEPT !.sset = TRUE, !.snm = Inner(w[1], 2)]
    ELSE IF Bracketed(w[1], 1) /\ ValidName(Inner(w[1], 1)) /\ \A k \in 1..Len(d.tabs) : d.tabs[k].nm # Inner(w[1], 1)
         THEN [d EXCEPT !.tabs = Append(@, NewDocTab(Inner(w[1], 1))), !.sec = "cols"]
    ELSE Rej(d)
StructLike(w) == Len(w) >= 2 /\ ValidName(w[1]) /\ w[2] \in AllTypes /\ (Len(w) = 2 \/ (Len(w) >= 4 /\ w[3] = "="))
StructLine(d, x) ==
    LET w == x.ws t == Last(d) IN
    IF ~StructLike(w) \/ HasC(t, w[1]) \/ (d.data # (Len(w) > 2)) THEN Rej(d)
    ELSE LET t2 == [t EXCEPT !.cols = Append(@, [n |-> w[1], t |-> w[2]]), !.ss = TRUE] IN
         IF ~d.data THEN PutLast(d, t2)
         ELSE IF x.k # "field" \/ x.cs = <<>> THEN FreeDoc(d)
         ELSE IF ~SameType(x.cs[1].ty, w[2]) THEN FreeDoc(d)
         ELSE IF Len(x.cs) # 1 \/ x.cs[1].v = -1 THEN Rej(d)
         ELSE PutLast(d, [t2 EXCEPT !.rows = <<(IF t.rows = <<>> THEN <<>> ELSE t.rows[1]) \o <<x.cs[1]>>>>])
ColsLine(d, x) ==
    LET w == x.ws IN
    IF StructLike(w) THEN StructLine([d EXCEPT !.sec = "struct", !.data = (Len(w) > 2)], x)
    ELSE IF \A i \in 1..Len(w) : ValidName(w[i]) THEN [d EXCEPT !.names = w, !.sec = "types"]
    ELSE Rej(d)
TypesLine(d, w) ==
    IF Len(w) # Len(d.names) \/ ~Distinct(d.names) \/ \E i \in 1..Len(w) : w[i] \notin AllTypes THEN Rej(d)
    ELSE [PutLast(d, [Last(d) EXCEPT !.cols = [i \in 1..Len(w) |-> [n |-> d.names[i], t |-> w[i]]]]) EXCEPT !.sec = "rows"]
RowLine(d, x) ==
    LET t == Last(d) w == x.ws n == IF Len(x.cs) < NC(t) THEN Len(x.cs) ELSE NC(t) IN
    IF x.k = "cells" THEN
        IF \E i \in 1..n : ~SameType(x.cs[i].ty, t.cols[i].t) THEN FreeDoc(d)
        ELSE IF Len(x.cs) # NC(t) \/ \E i \in 1..n : x.cs[i].v = -1 THEN Rej(d)
        ELSE PutLast(d, [t EXCEPT !.rows = Append(@, x.cs)])
    ELSE IF NC(t) = 1 /\ Len(w) = 1 /\ t.cols[1].t = "*Table" /\ Bracketed(w[1], 1) /\ ValidName(Inner(w[1], 1))
         THEN PutLast(d, [t EXCEPT !.rows = Append(@, <<[ty |-> "*Table", v |-> 0, nm |-> Inner(w[1], 1)]>>)])
    ELSE IF w[1] \in Loose \/ (t.cols[1].t = "*Table" /\ Bracketed(w[1], 1)) \/ (t.cols[1].t \in {"string", "rune", "[]byte", "[]uint8"}) THEN FreeDoc(d)
    ELSE Rej(d)
DocLine(d, x) ==
    IF d.rej \/ d.free \/ x.k = "comment" THEN d
    ELSE IF x.k = "blank" THEN (IF d.sec = "types" THEN Rej(d) ELSE [d EXCEPT !.sec = "name"])
    ELSE CASE d.sec = "name" -> NameLine(d, x.ws)
           [] d.sec = "cols" -> ColsLine(d, x)
           [] d.sec = "types" -> TypesLine(d, x.ws)
           [] d.sec = "rows" -> RowLine(d, x)
           [] d.sec = "struct" -> StructLine(d, x)
RECURSIVE DocRun(_, _, _)
DocRun(d, ls, i) == IF i > Len(ls) THEN d ELSE DocRun(DocLine(d, ls[i]), ls, i + 1)
DocOf(ls) == LET d == DocRun(DocInit, ls, 1) IN IF ~d.rej /\ ~d.free /\ d.sec = "types" THEN Rej(d) ELSE d

=============================================================================

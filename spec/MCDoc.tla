--------------------------------- MODULE MCDoc ----------------------------------
(* Text documents: every sequence of lines over a small alphabet. The automaton that judges documents (DocLine) is *)
(* checked against a grammar stated on whole documents, and against the lines a writer of tables produces.         *)
EXTENDS MC

VARIABLES ls
MaxLen == IF DEEP THEN 8 ELSE 6
Ln(k, raw, ws, cs) == [k |-> k, raw |-> raw, ws |-> ws, cs |-> cs]
Plain(raw, ws) == Ln("line", raw, ws, <<>>)
Vl(ty, v) == [ty |-> ty, v |-> v, nm |-> ""]
Blank == Ln("blank", " ", <<>>, <<>>)
Comment == Ln("comment", "\t# [T]", <<"#", "[T]">>, <<>>)
Alphabet == {Blank, Comment,
             Plain("[T]", <<"[T]">>), Plain("[U] ", <<"[U]">>), Plain("[[S]]", <<"[[S]]">>), Plain("a", <<"a">>), Plain("a\tb", <<"a", "b">>), Plain("a a", <<"a", "a">>),
             Plain("int", <<"int">>), Plain("  int   string", <<"int", "string">>), Plain("[T] x", <<"[T]", "x">>), Plain("a int =", <<"a", "int", "=">>),
             Ln("cells", "1", <<"1">>, <<Vl("int", 3)>>), Ln("cells", "0x0 \"A\"", <<"0x0", "\"A\"">>, <<Vl("int", 2), Vl("string", 2)>>), Ln("cells", "1.5", <<"1.5">>, <<Vl("int", 0 - 1)>>),
             Ln("field", "a int", <<"a", "int">>, <<>>), Ln("field", "b string", <<"b", "string">>, <<>>),
             Ln("field", "a int = -1", <<"a", "int", "=", "-1">>, <<Vl("int", 1)>>), Ln("field", "b  string =  \"\"", <<"b", "string", "=", "\"\"">>, <<Vl("string", 1)>>)}
d == DocRun(DocInit, ls, 1)
Doc(l, how, eol, last) == O("ParseDoc", [lines |-> l, eol |-> eol, last |-> last, how |-> how])
Init == ls = <<>> /\ tab = EmptyTable("T") /\ hist = <<>>
Next == /\ Len(ls) < MaxLen /\ ~d.rej /\ ~d.free
        /\ \E x \in Alphabet :
              \* at most one comment, at most two blank lines
              /\ x = Comment => \A i \in 1..Len(ls) : ls[i] # Comment
              /\ x = Blank => Cardinality({i \in 1..Len(ls) : ls[i] = Blank}) < 2
              /\ ls' = Append(ls, x)
        /\ UNCHANGED <<tab, hist>>
All == ls
Emitted == IF d.rej \/ d.free THEN TRUE
           ELSE Emit(SetToSeq({Doc(Append(ls, x), "set", "\n", TRUE) : x \in Alphabet}) \o
                     SetToSeq({Doc(Append(ls, x), IF Len(ls) % 2 = 0 THEN "one" ELSE "file", "\r\n", FALSE) : x \in Alphabet}))

-------------------------------------------------------------------------------
(* The grammar, on whole documents: comments are taken out; runs of lines between blank lines are blocks. *)
RECURSIVE Blocks(_, _, _)
Blocks(l, i, b) == IF i > Len(l) THEN (IF b = <<>> THEN <<>> ELSE <<b>>)
                   ELSE IF l[i].k = "blank" THEN (IF b = <<>> THEN <<>> ELSE <<b>>) \o Blocks(l, i + 1, <<>>)
                   ELSE Blocks(l, i + 1, Append(b, l[i]))
NoComments(l) == SelectSeq(l, LAMBDA x : x.k # "comment")
IsTabName(x) == x.ws \in {<<"[T]">>, <<"[U]">>}
IsField(x, data) == Len(x.ws) = (IF data THEN 4 ELSE 2) /\ x.ws[1] \in {"a", "b"} /\ x.ws[2] \in {"int", "string"}
TabBody(b) == \/ b = <<>>
              \/ \E data \in BOOLEAN : (\A i \in 1..Len(b) : IsField(b[i], data)) /\ (\A i, j \in 1..Len(b) : b[i].ws[1] = b[j].ws[1] => i = j)
              \/ /\ Len(b) >= 2 /\ b[1].ws \in {<<"a">>, <<"a", "b">>} /\ b[2].ws \in {<<"int">>, <<"int", "string">>} /\ Len(b[1].ws) = Len(b[2].ws)
                 /\ \A i \in 3..Len(b) : b[i].k = "cells" /\ Len(b[i].cs) = Len(b[1].ws) /\ \A k \in 1..Len(b[i].cs) : b[i].cs[k].v > 0
TableBlock(b) == IsTabName(b[1]) /\ TabBody(SubSeq(b, 2, Len(b)))
SetName(x) == x.ws = <<"[[S]]">>
Grammar(l) == LET bs == Blocks(NoComments(l), 1, <<>>)
                  strip(i) == IF i = 1 /\ SetName(bs[1][1]) THEN SubSeq(bs[1], 2, Len(bs[1])) ELSE bs[i]
                  ts == {i \in 1..Len(bs) : strip(i) # <<>>}
              IN /\ \A i \in ts : TableBlock(strip(i))
                 /\ \A i, j \in ts : strip(i)[1].ws = strip(j)[1].ws => i = j
WellFormed == LET f == DocOf(ls) IN ~f.free => (f.rej <=> ~Grammar(ls))

(* What a writer makes of small tables is read as the same tables. *)
W(x) == IF NC(x) = 0 THEN <<Plain("", <<"[" \o x.nm \o "]">>)>>
        ELSE IF x.ss /\ NR(x) <= 1
             THEN <<Plain("", <<"[" \o x.nm \o "]">>)>> \o
                  [i \in 1..NC(x) |-> IF NR(x) = 0 THEN Ln("field", "", <<x.cols[i].n, x.cols[i].t>>, <<>>)
                                      ELSE Ln("field", "", <<x.cols[i].n, x.cols[i].t, "=", "?">>, <<Vl(x.cols[i].t, x.rows[1][i])>>)]
             ELSE <<Plain("", <<"[" \o x.nm \o "]">>), Plain("", [i \in 1..NC(x) |-> x.cols[i].n]), Plain("", [i \in 1..NC(x) |-> x.cols[i].t])>> \o
                  [j \in 1..NR(x) |-> Ln("cells", "", <<"?">>, [i \in 1..NC(x) |-> Vl(x.cols[i].t, x.rows[j][i])])]
Small == {[EmptyTable("T") EXCEPT !.cols = cs, !.rows = rs, !.ss = b] : b \in BOOLEAN, cs \in {<<C("a", "int")>>}, rs \in SeqsUpTo({<<1>>, <<3>>}, 2)}
    \cup {[EmptyTable("U") EXCEPT !.cols = cs, !.rows = rs, !.ss = b] : b \in BOOLEAN, cs \in {<<C("a", "int"), C("b", "string")>>}, rs \in SeqsUpTo({<<1, 2>>, <<3, 1>>}, 2)}
    \cup {EmptyTable("V")}
Reads(x, t) == /\ t.nm = x.nm /\ t.cols = x.cols /\ Len(t.rows) = NR(x) /\ \A j \in 1..NR(x) : \A i \in 1..NC(x) : t.rows[j][i].v = x.rows[j][i]
               /\ t.ss = (x.ss /\ NR(x) <= 1 /\ NC(x) > 0)
ASSUME \A x \in Small : \A y \in Small \cup {x} :
          LET f == DocOf(W(x) \o <<Blank>> \o (IF y.nm = x.nm THEN <<>> ELSE W(y)))
          IN ~f.rej /\ ~f.free /\ Reads(x, f.tabs[1]) /\ (y.nm # x.nm => Reads(y, f.tabs[2]))
Laws == TRUE
================================================================================

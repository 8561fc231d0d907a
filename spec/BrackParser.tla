----------------------------- MODULE BrackParser -----------------------------
(* The parser as a pushdown machine over the token list, and, separately,    *)
(* the documented grammar (brack.cst.ebnf) as a recogniser.                  *)
(*                                                                           *)
(* State: a stack of open nodes (Document, Stmt, Expr and bracket frames),   *)
(* a newline that may end a statement (pend), whether a backslash has just   *)
(* been read (esc), whether only newlines may follow (tail), and the verdict.*)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, BrackTokenizer

Node(k, v, l, ch) == [k |-> k, v |-> v, l |-> l, ch |-> ch]
Leaf(t) == Node(t.k, t.t, t.l, <<>>)
StartOf(l) == <<l[1], l[2]>>
EndOf(l) == <<l[3], l[4]>>
Span(ch) == LET a == ch[1].l  b == ch[Len(ch)].l IN <<a[1], a[2], b[3], b[4]>>

OpenKinds  == {"AO", "CO", "SO"}
CloseKinds == {"AC", "CC", "SC"}
BracketOf == [AO |-> "Angle", CO |-> "Curly", SO |-> "Square"]
CloserOf  == [Angle |-> "AC", Curly |-> "CC", Square |-> "SC"]
BracketKinds == {"Angle", "Curly", "Square"}
EscapableKinds == {"BS", "Dot", "Comma"} \cup OpenKinds \cup CloseKinds
ItemKinds == {"Module", "Ident", "Text", "Dot", "Comma", "WS"}

ParInit == [st |-> <<[k |-> "Document", ch |-> <<>>]>>, pend |-> <<>>,
            esc |-> <<>>, tail |-> FALSE, res |-> "run"]

Top(p) == p.st[Len(p.st)]
Under(p) == p.st[Len(p.st) - 1]
Push(p, k) == [p EXCEPT !.st = Append(@, [k |-> k, ch |-> <<>>])]
Add(p, n) == [p EXCEPT !.st[Len(p.st)].ch = Append(@, n)]
AddAll(p, ns) == [p EXCEPT !.st[Len(p.st)].ch = @ \o ns]
FoldTo(p, l) == LET t == Top(p)
                IN Add([p EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)], Node(t.k, "", l, t.ch))
Fold(p) == FoldTo(p, Span(Top(p).ch))
Fail(p) == [p EXCEPT !.res = "err"]
Flush(p) == [AddAll(p, p.pend) EXCEPT !.pend = <<>>]
\* the innermost bracket ends without its closing bracket, at token t
Cut(p, t) == LET o == Top(p).ch[1].l IN FoldTo(p, <<o[1], o[2], t.l[3], t.l[4]>>)

(* makes the top frame an Expr that can take an element, or fails *)
InExpr(p) ==
   CASE Top(p).k = "Expr" -> p
     [] Top(p).k \in BracketKinds -> Push(p, "Expr")
     [] Top(p).k = "Stmt" /\ p.pend # <<>> -> Push(Flush(p), "Expr")
     [] Top(p).k = "Document" /\ ~p.tail -> Push(Push(p, "Stmt"), "Expr")
     [] OTHER -> Fail(p)

ParElement(p, n) == LET q == InExpr(p) IN IF q.res = "err" THEN q ELSE Add(q, n)
ParOpen(p, t) == LET q == InExpr(p)
                 IN IF q.res = "err" THEN q ELSE Add(Push(q, BracketOf[t.k]), Leaf(t))
RECURSIVE ParClose(_, _)
ParClose(p, t) ==
   CASE Top(p).k = "Expr" /\ Under(p).k \in BracketKinds -> ParClose(Fold(p), t)
     [] Top(p).k \in BracketKinds /\ CloserOf[Top(p).k] = t.k -> Fold(Add(p, Leaf(t)))
     [] Top(p).k \in BracketKinds /\ CloserOf[Top(p).k] # t.k -> ParClose(Cut(p, t), t)
     [] Top(p).k = "Stmt" /\ p.pend # <<>> -> Add(Flush(p), Leaf(t))
     [] Top(p).k = "Document" /\ ~p.tail -> Add(Push(p, "Stmt"), Leaf(t))
     [] OTHER -> Fail(p)
ParNewline(p, t) ==
   CASE Top(p).k = "Expr" /\ Under(p).k \in BracketKinds -> Add(Fold(p), Leaf(t))
     [] Top(p).k \in BracketKinds -> Add(p, Leaf(t))
     [] Top(p).k = "Expr" /\ Under(p).k = "Stmt" -> [Fold(p) EXCEPT !.pend = <<Leaf(t)>>]
     [] Top(p).k = "Stmt" /\ p.pend = <<>> -> [p EXCEPT !.pend = <<Leaf(t)>>]
     [] Top(p).k = "Stmt" /\ p.pend # <<>> -> Add(Flush(Fold(p)), Leaf(t))
     [] OTHER -> [Add(p, Leaf(t)) EXCEPT !.tail = p.st[1].ch = <<>> \/ p.tail]
RECURSIVE ParEof(_, _)
ParEof(p, t) ==
   CASE Top(p).k = "Expr" -> ParEof(Fold(p), t)
     [] Top(p).k \in BracketKinds -> ParEof(Cut(p, t), t)
     [] Top(p).k = "Stmt" -> ParEof(Fold(p), t)
     [] OTHER -> [Add(Flush(p), Leaf(t)) EXCEPT !.res = "ok"]

ParPlain(p, t) ==
   CASE t.k = "BS" -> [p EXCEPT !.esc = <<t>>]
     [] t.k \in ItemKinds -> ParElement(p, Leaf(t))
     [] t.k \in OpenKinds -> ParOpen(p, t)
     [] t.k \in CloseKinds -> ParClose(p, t)
     [] t.k = "NL" -> ParNewline(p, t)
     [] t.k = "EOF" -> ParEof(p, t)
     [] OTHER -> Fail(p)
(* one transition per token *)
ParStep(p, t) ==
   IF p.res # "run" THEN p
   ELSE IF p.esc = <<>> THEN ParPlain(p, t)
   ELSE LET b == p.esc[1]
            q == [p EXCEPT !.esc = <<>>]
        IN IF t.k \in EscapableKinds
           THEN ParElement(q, Node("BackSlash", "", <<b.l[1], b.l[2], t.l[3], t.l[4]>>,
                                   <<Node("Text", CharOf[t.k], t.l, <<>>)>>))
           ELSE LET r == ParElement(q, Node("BackSlash", "", b.l, <<>>))
                IN IF r.res = "err" THEN r ELSE ParPlain(r, t)

ParRun(toks) == FoldLeft(ParStep, ParInit, toks)
Accepts(toks) == ParRun(toks).res = "ok"
(* the tree of an accepted token list *)
Parse(toks) == LET p == ParRun(toks)
               IN Node("Document", "", Span(p.st[1].ch), p.st[1].ch)

-----------------------------------------------------------------------------
(* The documented grammar, every repetition and option taken greedily.       *)
(* G_x(s, i) is the position after the x that starts at i, or 0 if none does.*)
GK(s, i) == IF i > Len(s) THEN "-" ELSE s[i].k
GTok(s, i, ks) == IF GK(s, i) \in ks THEN i + 1 ELSE 0
GEscaped(s, i) == IF GK(s, i) # "BS" THEN 0
                  ELSE IF GK(s, i + 1) \in EscapableKinds THEN i + 2 ELSE i + 1
RECURSIVE GExprs(_, _), GInside(_, _), GStmtMore(_, _), GNewlines(_, _), GStmts(_, _)
GBracket(s, i) ==
   IF GK(s, i) \notin OpenKinds THEN 0
   ELSE LET j == GInside(s, i + 1)
        IN IF GK(s, j) = CloserOf[BracketOf[s[i].k]] THEN j + 1 ELSE j
GItem(s, i) ==
   LET a == GEscaped(s, i)  b == GTok(s, i, ItemKinds)
   IN IF a # 0 THEN a ELSE IF b # 0 THEN b ELSE GBracket(s, i)
GExprs(s, i) == LET j == GItem(s, i) IN IF j = 0 THEN i ELSE GExprs(s, j)
GExpr(s, i) == LET j == GExprs(s, i) IN IF j = i THEN 0 ELSE j
GInside(s, i) == \* (expr | newline)*
   LET e == GExpr(s, i)
   IN IF e # 0 THEN GInside(s, e) ELSE IF GK(s, i) = "NL" THEN GInside(s, i + 1) ELSE i
GLine(s, i) == LET e == GExpr(s, i) IN IF e # 0 THEN e ELSE GTok(s, i, CloseKinds)
GStmtMore(s, i) == IF GK(s, i) = "NL" /\ GLine(s, i + 1) # 0
                   THEN GStmtMore(s, GLine(s, i + 1)) ELSE i
GStmt(s, i) == LET j == GLine(s, i) IN IF j = 0 THEN 0 ELSE GStmtMore(s, j)
GNewlines(s, i) == IF GK(s, i) = "NL" THEN GNewlines(s, i + 1) ELSE i
GStmts(s, i) == \* (stmt newline newline+)*
   LET j == GStmt(s, i)
   IN IF j # 0 /\ GK(s, j) = "NL" /\ GK(s, j + 1) = "NL" THEN GStmts(s, GNewlines(s, j)) ELSE i
GDocument(s) ==
   LET a == GStmts(s, 1)
       b == GStmt(s, a)
       c == GNewlines(s, IF b = 0 THEN a ELSE b)
   IN GK(s, c) = "EOF" /\ c = Len(s)

-----------------------------------------------------------------------------
(* Relations between trees and tokens (C04-C06).                             *)
RECURSIVE Leaves(_)
Leaves(n) == IF n.ch = <<>> /\ n.k # "BackSlash" THEN <<n>>
             ELSE IF n.k = "BackSlash" THEN <<n>>
             ELSE FlattenSeq(TLCEval([i \in 1..Len(n.ch) |-> Leaves(n.ch[i])]))
(* tokens a leaf stands for, as <<kind, text>> *)
LeafTokens(n) ==
   IF n.k = "BackSlash"
   THEN IF n.ch = <<>> THEN << <<"BS", "">> >>
        ELSE << <<"BS", "">>,
                <<IF n.ch[1].v \in DOMAIN KindOf THEN KindOf[n.ch[1].v] ELSE "?", "">> >>
   ELSE << <<n.k, n.v>> >>
TreeTokens(n) == LET ls == Leaves(n) IN FlattenSeq(TLCEval([i \in 1..Len(ls) |-> LeafTokens(ls[i])]))
TokenPairs(toks) == [i \in 1..Len(toks) |-> <<toks[i].k, toks[i].t>>]
KeepsTokens(tree, toks) == TreeTokens(tree) = TokenPairs(toks)

(* the tree without locations and ids *)
RECURSIVE Shape(_)
Shape(n) == <<n.k, n.v, TLCEval([i \in 1..Len(n.ch) |-> Shape(n.ch[i])])>>
(* the locations only, in preorder *)
RECURSIVE Locs(_)
Locs(n) == <<n.l>> \o FlattenSeq(TLCEval([i \in 1..Len(n.ch) |-> Locs(n.ch[i])]))
RECURSIVE Ids(_), Size(_)
Ids(n) == {n.id} \cup UNION {Ids(n.ch[i]) : i \in 1..Len(n.ch)}
Size(n) == 1 + FoldLeft(LAMBDA a, c : a + Size(c), 0, n.ch)
UniqueIds(n) == Cardinality(Ids(n)) = Size(n)
=============================================================================

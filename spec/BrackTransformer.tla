-------------------------- MODULE BrackTransformer --------------------------
(* From the parse tree to the syntax tree and the diagnostics.               *)
(* (TLCEval only makes TLC evaluate a function once.)                        *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, BrackParser

Problem(k, l) == [k |-> k, l |-> l]
NotOpened(k) == CASE k = "AC" -> "Angle bracket not opened"
                  [] k = "CC" -> "Curly bracket not opened"
                  [] k = "SC" -> "Square bracket not opened"
NotClosed(k) == CASE k = "Angle" -> "Angle bracket not closed"
                  [] k = "Curly" -> "Curly bracket not closed"
                  [] k = "Square" -> "Square bracket not closed"
NeedModule == "Need module"
NeedDot == "Need dot after module"
NeedIdent == "Need identifier after module"
UnexpectedDot == "Unexpected dot"
UnexpectedComma == "Unexpected comma"
BadBackslash == "Backslash must be followed by dot, comma, backslash, or bracket"

Merge(a, b) == \* the least location covering both
   LET lt(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
       s == IF lt(StartOf(b), StartOf(a)) THEN StartOf(b) ELSE StartOf(a)
       e == IF lt(EndOf(a), EndOf(b)) THEN EndOf(b) ELSE EndOf(a)
   IN s \o e

Punctuation == {"WS", "NL", "Comma", "Dot", "EOF"} \cup OpenKinds \cup CloseKinds
SyntaxOnly(ns) == SelectSeq(ns, LAMBDA n : n.k \notin Punctuation)

(* --- the elements of a command, from its opening bracket on --- *)
CommandProblems(kind, es) ==
   LET n == Len(es)
       need(i, ks, msg) == IF n >= i /\ es[i].k \notin ks THEN <<Problem(msg, es[i].l)>> ELSE <<>>
   IN (IF es[n].k = CloserOf[kind] THEN <<>>
       ELSE <<Problem(NotClosed(kind), Merge(es[1].l, es[n].l))>>)
      \o need(2, {"Module", "Angle"}, NeedModule)
      \o need(3, {"Dot"}, NeedDot)
      \o need(4, {"Ident", "Angle"}, NeedIdent)
      \o [i \in 1..Len(SelectSeq(SubSeq(es, 4, n), LAMBDA e : e.k = "Dot")) |->
            Problem(UnexpectedDot, SelectSeq(SubSeq(es, 4, n), LAMBDA e : e.k = "Dot")[i].l)]

(* the head (first four elements) and the rest, which forms the arguments *)
DropLayout(es) ==
   FoldLeft(LAMBDA acc, e : IF e.k = "NL" \/ (e.k = "WS" /\ Len(acc) < 4) THEN acc
                            ELSE Append(acc, e), <<>>, es)

(* Arguments: state of a left-to-right scan over the elements after the head *)
ArgInit == [args |-> <<>>, cur |-> <<>>, ws |-> <<>>, comma |-> <<>>, errs |-> <<>>, done |-> FALSE]
Argument(cur) == Node("Expr", "", Span(cur), cur)
ArgStep(a, e) ==
   IF a.done THEN a
   ELSE CASE e.k = "WS" -> IF a.cur = <<>> THEN a
                           ELSE [a EXCEPT !.ws = Append(@, Node("Text", " ", e.l, <<>>))]
     [] e.k = "Comma" ->
          IF a.cur = <<>> THEN [a EXCEPT !.ws = <<>>, !.errs = Append(@, Problem(UnexpectedComma, e.l))]
          ELSE [a EXCEPT !.ws = <<>>, !.args = Append(@, Argument(a.cur)), !.cur = <<>>,
                         !.comma = <<e>>]
     [] e.k \in CloseKinds ->
          IF a.cur # <<>> THEN [a EXCEPT !.args = Append(@, Argument(a.cur)), !.cur = <<>>, !.done = TRUE]
          ELSE [a EXCEPT !.done = TRUE,
                         !.errs = @ \o [i \in 1..Len(a.comma) |-> Problem(UnexpectedComma, a.comma[i].l)]]
     [] e.k = "Dot" -> a
     [] OTHER -> [a EXCEPT !.cur = (@ \o a.ws) \o <<e>>, !.ws = <<>>, !.comma = <<>>]
Arguments(es) == LET a == FoldLeft(ArgStep, ArgInit, es)
                 IN IF a.cur = <<>> THEN a ELSE [a EXCEPT !.args = Append(@, Argument(a.cur))]

RECURSIVE Simplify(_)
Simplify(n) == \* [n |-> simplified node, e |-> its problems]
   LET sub == TLCEval([i \in 1..Len(n.ch) |-> Simplify(n.ch[i])])
       nodes == TLCEval([i \in 1..Len(n.ch) |-> sub[i].n])
       errs == FlattenSeq([i \in 1..Len(n.ch) |-> sub[i].e])
       stray == SelectSeq(n.ch, LAMBDA c : c.k \in CloseKinds)
   IN CASE n.k = "Document" -> [n |-> [n EXCEPT !.ch = SyntaxOnly(nodes)], e |-> errs]
        [] n.k = "Stmt" ->
             [n |-> [n EXCEPT !.ch = SyntaxOnly(nodes)],
              e |-> errs \o [i \in 1..Len(stray) |-> Problem(NotOpened(stray[i].k), stray[i].l)]]
        [] n.k = "Expr" -> [n |-> [n EXCEPT !.ch = nodes], e |-> errs]
        [] n.k = "BackSlash" ->
             IF n.ch = <<>> THEN [n |-> Node("Invalid", "", n.l, <<>>), e |-> <<Problem(BadBackslash, n.l)>>]
             ELSE [n |-> nodes[1], e |-> <<>>]
        [] n.k \in BracketKinds ->
             LET es == FlattenSeq([i \in 1..Len(nodes) |->
                          IF nodes[i].k = "Expr" THEN nodes[i].ch ELSE <<nodes[i]>>])
                 ds == DropLayout(es)
                 as == IF Len(ds) < 4 THEN [args |-> <<>>, errs |-> <<>>]
                       ELSE Arguments(SubSeq(ds, 5, Len(ds)))
                 head == SubSeq(ds, 1, IF Len(ds) < 4 THEN Len(ds) ELSE 4)
             IN [n |-> [n EXCEPT !.ch = SyntaxOnly(head) \o as.args],
                 e |-> errs \o CommandProblems(n.k, es) \o as.errs]
        [] OTHER -> [n |-> n, e |-> <<>>]

(* line and argument expressions contain no punctuation in the syntax tree *)
RECURSIVE Strip(_)
Strip(n) == LET ch == IF n.k = "Expr" THEN SyntaxOnly(n.ch) ELSE n.ch
            IN [n EXCEPT !.ch = TLCEval([i \in 1..Len(ch) |-> Strip(ch[i])])]
Transform(cst) == LET s == Simplify(cst) IN [ast |-> Strip(s.n), errs |-> s.e]

(* the whole front end *)
FrontEnd(doc) == LET toks == Tokenize(doc)
              IN IF Accepts(toks) THEN Transform(Parse(toks)) @@ [ok |-> TRUE]
                 ELSE [ok |-> FALSE, ast |-> Node("-", "", <<0,0,0,0>>, <<>>), errs |-> <<>>]

(* bags of problems: order is not observable *)
AsBag(es) == LET s == {es[i] : i \in 1..Len(es)}
             IN [x \in s |-> Cardinality({i \in 1..Len(es) : es[i] = x})]
=============================================================================

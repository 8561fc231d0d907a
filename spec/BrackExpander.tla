---------------------------- MODULE BrackExpander ----------------------------
(* Macro expansion: a machine that visits the syntax tree in document order  *)
(* and replaces every outermost macro (Angle) by the answer of its plugin.   *)
(* Trees are [k, v, id, l, ch].                                              *)
EXTENDS Naturals, Sequences, SequencesExt, BrackPlugins

(* module and name of a command: its last Module and Ident child *)
LastOf(n, k) == LET s == SelectSeq(n.ch, LAMBDA c : c.k = k)
                IN IF s = <<>> THEN "" ELSE s[Len(s)].v
RECURSIVE FirstExpr(_)
FirstExpr(n) == \* the first Expr below n in preorder, as a sequence of at most one
   FoldLeft(LAMBDA acc, c : IF acc # <<>> THEN acc ELSE IF c.k = "Expr" THEN <<c>> ELSE FirstExpr(c),
            <<>>, n.ch)
MacroAnswer(e, whole, n) ==
   CASE e.mode = "IDENTITY" -> <<n>>
     [] e.mode = "WHOLE"    -> <<whole>>
     [] e.mode = "INNER"    -> IF FirstExpr(n) = <<>> THEN <<n>> ELSE FirstExpr(n)
     [] e.mode = "SQUARE"   -> <<[n EXCEPT !.k = "Square"]>>
     [] e.mode = "CURLY"    -> <<[n EXCEPT !.k = "Curly"]>>
     [] e.mode = "CONST"    -> e.tree        \* <<>> if the payload is not a tree
     [] OTHER               -> <<>>

(* s = [log, ok]; the result is [n, log, ok] *)
ExpandMacro(ps, whole, n, log) ==
   LET m == LastOf(n, "Module")  c == LastOf(n, "Ident")
   IN IF ~Exists(ps, m, c, "A") THEN [n |-> n, log |-> log, ok |-> FALSE]
      ELSE LET r == Resolve(ps, m, c, "A")
               a == MacroAnswer(Entry(r.p, r.c.x), whole, n)
               log2 == Append(log, [p |-> m, x |-> r.c.x, id |-> n.id])
           IN IF a = <<>> THEN [n |-> n, log |-> log2, ok |-> FALSE]
              ELSE [n |-> a[1], log |-> log2, ok |-> TRUE]
RECURSIVE Visit(_, _, _, _)
Visit(ps, whole, n, log) ==
   LET step(s, c) ==
         IF ~s.ok THEN s
         ELSE LET r == IF c.k = "Angle" THEN ExpandMacro(ps, whole, c, s.log) ELSE Visit(ps, whole, c, s.log)
              IN [ch |-> Append(s.ch, r.n), log |-> r.log, ok |-> r.ok]
       r == FoldLeft(step, [ch |-> <<>>, log |-> log, ok |-> TRUE], n.ch)
   IN [n |-> [n EXCEPT !.ch = r.ch], log |-> r.log, ok |-> r.ok]
Expand(ps, tree) == Visit(ps, tree, tree, <<>>)

(* C09 as a relation: the outermost macros, in document order *)
RECURSIVE Outermost(_)
Outermost(n) == IF n.k = "Angle" THEN <<n>>
                ELSE FlattenSeq(TLCEval([i \in 1..Len(n.ch) |-> Outermost(n.ch[i])]))
=============================================================================

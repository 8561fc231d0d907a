------------------------------ MODULE MC_Front ------------------------------
(* Exhaustive exploration of the front end: every document of at most        *)
(* MaxLen graphemes over Alphabet is fed to the tokenizer one grapheme per   *)
(* step (each branch sharing its prefix), its tokens to the parser one per   *)
(* step, and the resulting tree to the transformer.                          *)
EXTENDS BrackTransformer, TLC
CONSTANTS Alphabet, MaxLen
VARIABLES phase, doc, tk, i, pr, tr
vars == <<phase, doc, tk, i, pr, tr>>
NoTree == [ast |-> Node("-", "", <<0, 0, 0, 0>>, <<>>), errs |-> <<>>, cst |-> Node("-", "", <<0,0,0,0>>, <<>>)]

Init == phase = "read" /\ doc = <<>> /\ tk = TokInit /\ i = 0 /\ pr = ParInit /\ tr = NoTree

\* the last grapheme of doc is read but not yet consumed: its successor is unknown
Pending == Len(doc) > 0
Consume(a, nx) == Pending /\ TokAction(tk, Norm(doc[Len(doc)]), nx) = a
                  /\ tk' = TokStep(tk, Norm(doc[Len(doc)]), nx)
Reads(g) == phase = "read" /\ Len(doc) < MaxLen /\ doc' = Append(doc, g)
            /\ UNCHANGED <<phase, i, pr, tr>>
ReadFirst(g) == Reads(g) /\ ~Pending /\ UNCHANGED tk
ReadEscaped(g)   == Reads(g) /\ Consume("Escaped", g)
ReadBackslash(g) == Reads(g) /\ Consume("Backslash", g)
ReadOpen(g)      == Reads(g) /\ Consume("Open", g)
ReadClose(g)     == Reads(g) /\ Consume("Close", g)
ReadPunct(g)     == Reads(g) /\ Consume("Punct", g)
ReadNewline(g)   == Reads(g) /\ Consume("Newline", g)
ReadWordEnd(g)   == Reads(g) /\ Consume("WordEnd", g)
ReadCollect(g)   == Reads(g) /\ Consume("Collect", g)
EndOfFile == /\ phase = "read" /\ phase' = "parse"
             /\ tk' = TokEnd(IF Pending THEN TokStep(tk, Norm(doc[Len(doc)]), "") ELSE tk)
             /\ UNCHANGED <<doc, i, pr, tr>>
ParseToken == /\ phase = "parse" /\ pr.res = "run"
              /\ i' = i + 1 /\ pr' = ParStep(pr, tk.toks[i + 1])
              /\ UNCHANGED <<phase, doc, tk, tr>>
TransformTree == /\ phase = "parse" /\ pr.res = "ok" /\ phase' = "done"
                 /\ LET cst == Parse(tk.toks) IN tr' = Transform(cst) @@ [cst |-> cst]
                 /\ UNCHANGED <<doc, tk, i, pr>>
Rejected == /\ phase = "parse" /\ pr.res = "err" /\ phase' = "rejected"
            /\ UNCHANGED <<doc, tk, i, pr, tr>>
Next == \/ \E g \in Alphabet : \/ ReadFirst(g) \/ ReadEscaped(g) \/ ReadBackslash(g) \/ ReadOpen(g) \/ ReadClose(g)
                               \/ ReadPunct(g) \/ ReadNewline(g) \/ ReadWordEnd(g) \/ ReadCollect(g)
        \/ EndOfFile \/ ParseToken \/ TransformTree \/ Rejected
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Toks == tk.toks
Widths == [k \in 1..Len(Toks) |-> IF Toks[k].k = "EOF" THEN 0 ELSE IF Toks[k].k \in WordKinds
             THEN Toks[k].l[4] - Toks[k].l[2] ELSE 1]
(* C01, C02 at every step *)
TokenizerInv ==
   LET consumed == IF phase = "read" /\ Pending THEN SubSeq(doc, 1, Len(doc) - 1) ELSE doc
   IN /\ Render(Toks) \o Concat(tk.pool) = Text(consumed)
      /\ NoEmpty(Toks) /\ Tiles(Toks, Widths)
      /\ tk.look => Nested(tk)
      /\ tk.esc => tk.pool = <<>>
      /\ phase # "read" => OneEof(Toks) /\ tk.pool = <<>> /\ ~tk.esc
(* C03: what a token kind says about its context *)
ContextInv ==
   \A k \in 1..Len(Toks) :
      LET before == SubSeq(Toks, 1, k - 1)
          esc(j) == j > 1 /\ Toks[j - 1].k = "BS" /\ Cardinality({m \in 1..(j-1) : Toks[m].k = "BS" /\
                        \A x \in m..(j-1) : Toks[x].k = "BS"}) % 2 = 1
          opens == \E j \in 1..k-1 : Toks[j].k \in OpenKinds /\ ~esc(j)
      IN /\ Toks[k].k \in {"Module", "Ident", "WS"} => opens
         /\ Toks[k].k \in {"Dot", "Comma"} => opens \/ esc(k)
         /\ Toks[k].k = "Ident" =>
               \* since the last bracket that opened there is no other name and no close
               \E j \in 1..k-1 : /\ Toks[j].k \in OpenKinds /\ ~esc(j)
                                 /\ \A x \in j+1..k-1 : ~(Toks[x].k \in CloseKinds /\ ~esc(x))
                                                        /\ Toks[x].k # "Ident"
(* C04: nothing is lost on the stack *)
FramesInv ==
   phase = "parse" /\ pr.res = "run" =>
     /\ FlattenSeq([k \in 1..Len(pr.st) |-> FlattenSeq([m \in 1..Len(pr.st[k].ch) |->
            TreeTokens(pr.st[k].ch[m])])])
         \o [m \in 1..Len(pr.pend) |-> <<"NL", "">>] \o [m \in 1..Len(pr.esc) |-> <<"BS", "">>]
        = TokenPairs(SubSeq(Toks, 1, i))
     /\ pr.st[1].k = "Document"
     /\ \A k \in 2..Len(pr.st) :
           pr.st[k].k \in (CASE pr.st[k-1].k = "Document" -> {"Stmt"} [] pr.st[k-1].k = "Stmt" -> {"Expr"}
                             [] pr.st[k-1].k = "Expr" -> BracketKinds [] OTHER -> {"Expr"})
(* the machine and the grammar agree *)
GrammarInv == /\ pr.res = "ok" => GDocument(Toks) /\ i = Len(Toks)
              /\ pr.res = "err" => ~GDocument(Toks)
RECURSIVE WellFormed(_)
WellFormed(n) ==
   /\ \A k \in 1..Len(n.ch) : WellFormed(n.ch[k])
   /\ n.k = "Document" => n.ch[Len(n.ch)].k = "EOF" /\ \A k \in 1..Len(n.ch) : n.ch[k].k \in {"Stmt", "NL", "EOF"}
   /\ n.k = "Stmt" => /\ Len(n.ch) % 2 = 1
                      /\ \A k \in 1..Len(n.ch) : IF k % 2 = 0 THEN n.ch[k].k = "NL"
                                                 ELSE n.ch[k].k \in {"Expr"} \cup CloseKinds
   /\ n.k = "Expr" => n.ch # <<>> /\ \A k \in 1..Len(n.ch) : n.ch[k].k \in ItemKinds \cup BracketKinds \cup {"BackSlash"}
   /\ n.k \in BracketKinds => /\ BracketOf[n.ch[1].k] = n.k
                              /\ \A k \in 2..Len(n.ch) : n.ch[k].k \in {"Expr", "NL"} \/ (k = Len(n.ch) /\ n.ch[k].k = CloserOf[n.k])
TreeInv == phase = "done" => /\ KeepsTokens(tr.cst, Toks) /\ WellFormed(tr.cst)
(* C07/C08 *)
RECURSIVE AstOk(_), Words(_)
AstOk(n) ==
   /\ \A k \in 1..Len(n.ch) : AstOk(n.ch[k])
   /\ n.k # "Invalid"
   /\ n.k = "Document" => \A k \in 1..Len(n.ch) : n.ch[k].k = "Stmt"
   /\ n.k = "Stmt" => \A k \in 1..Len(n.ch) : n.ch[k].k = "Expr"
   /\ n.k = "Expr" => n.ch # <<>>
   /\ n.k \in BracketKinds =>
        /\ Len(n.ch) >= 1 => n.ch[1].k \in {"Module", "Angle"}
        /\ Len(n.ch) >= 2 => n.ch[2].k \in {"Ident", "Angle"}
        /\ \A k \in 3..Len(n.ch) : /\ n.ch[k].k = "Expr"
                                   /\ n.ch[k].ch[1].v # " " /\ n.ch[k].ch[Len(n.ch[k].ch)].v # " "
Words(n) == IF n.k \in WordKinds THEN IF n.v = " " THEN "" ELSE n.v
            ELSE Concat([k \in 1..Len(n.ch) |-> Words(n.ch[k])])
\* the text of a clean document: words, and escapes resolved (blanks aside)
WordsOf(toks) ==
   LET at(k) == IF toks[k].k \in WordKinds THEN IF toks[k].t = " " THEN "" ELSE toks[k].t ELSE ""
       esc(k) == k > 1 /\ toks[k-1].k = "BS" /\ Cardinality({m \in 1..(k-1) :
                        \A x \in m..(k-1) : toks[x].k = "BS"}) % 2 = 1
   IN Concat([k \in 1..Len(toks) |-> IF esc(k) /\ toks[k].k \in EscapableKinds THEN CharOf[toks[k].k] ELSE at(k)])
CleanInv == phase = "done" /\ tr.errs = <<>> => AstOk(tr.ast) /\ Words(tr.ast) = WordsOf(Toks)
(* a document without brackets and backslashes is always clean *)
PlainInv == phase = "done" /\ (\A k \in 1..Len(doc) : doc[k] \notin Brackets \cup {"\\"}) => tr.errs = <<>>
(* every problem lies inside the document *)
PlaceInv == phase = "done" => \A k \in 1..Len(tr.errs) :
               LET l == tr.errs[k].l e == Toks[Len(Toks)].l
               IN /\ l[1] <= l[3] /\ l[3] <= e[3]
                  /\ \E a, b \in 1..Len(Toks) : StartOf(Toks[a].l) = StartOf(l) /\ EndOf(Toks[b].l) = EndOf(l)
(* C14: once read, a document is processed in exactly one way, to an end *)
Ended == phase \in {"done", "rejected"}
Work == ParseToken \/ TransformTree \/ Rejected
FairSpec == Spec /\ WF_vars(Work)
Bounded == /\ i <= Len(Toks) /\ Len(Toks) <= 2 * Len(doc) + 1
           /\ phase = "parse" => Cardinality({a \in 1..3 : CASE a = 1 -> pr.res = "run" [] a = 2 -> pr.res = "ok"
                                                            [] a = 3 -> pr.res = "err"}) = 1
Terminates == (phase = "parse") ~> Ended
=============================================================================

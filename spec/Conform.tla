------------------------------ MODULE Conform ------------------------------
(* Judges recorded runs of the real tokenizer, parser and transformer.       *)
(* RECS names an ndjson file; record r has a number n, the stage the run     *)
(* ended at (at) and how (st), and the data the property needs.              *)
EXTENDS BrackTransformer, TLC, Json, IOUtils
CONSTANT Prop
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
Width == 64

When(c, what) == IF c THEN {what} ELSE {}

(* trees are recorded as lists of nodes in preorder with the positions of their children *)
RECURSIVE Build(_, _)
Build(f, j) == [k |-> f[j].k, v |-> f[j].v, id |-> f[j].id, l |-> f[j].l,
                ch |-> TLCEval([m \in 1..Len(f[j].ch) |-> Build(f, f[j].ch[m])])]
Tree(f) == Build(f, 1)

(* did the run get past stage x, or end normally before/at it? *)
Order == [process |-> 0, tok |-> 1, cst |-> 2, ast |-> 3, load |-> 4, exp |-> 5, gen |-> 6, end |-> 7]
Past(r, x) == Order[r.at] > Order[x]

C01(r) == IF ~Past(r, "tok") THEN {"not tokenized: " \o r.st}
          ELSE When(~Lossless(r.tok, r.gr), "tokens do not spell the document")
               \cup When(~OneEof(r.tok), "end-of-file token") \cup When(~NoEmpty(r.tok), "empty token")
C02(r) == IF ~Past(r, "tok") THEN {"not tokenized: " \o r.st} ELSE When(~Tiles(r.tok, r.w), "locations")
C03(r) == IF ~Past(r, "tok") THEN {"not tokenized: " \o r.st}
          ELSE When(TokenPairs(r.tok) # TokenPairs(Tokenize(r.gr)), "classification")
C04(r) == IF ~Past(r, "tok") THEN {}
          ELSE IF r.at = "cst" THEN IF r.st = "err" THEN When(GDocument(r.tok), "rejected") ELSE {"parser: " \o r.st}
          ELSE When(~GDocument(r.tok), "accepted") \cup When(~KeepsTokens(Tree(r.cst), r.tok), "leaves")
RECURSIVE Kinds(_)
Kinds(n) == <<n.k, TLCEval([j \in 1..Len(n.ch) |-> Kinds(n.ch[j])])>>
C05(r) == IF ~Past(r, "tok") THEN {"not tokenized: " \o r.st} ELSE
          LET p == ParRun(r.tok)
          IN IF p.res # "ok" THEN {}
             ELSE IF ~Past(r, "cst") THEN {"no tree: " \o r.st}
             ELSE When(Kinds(Tree(r.cst)) # Kinds(Parse(r.tok)), "grouping")
RECURSIVE Plain(_)
Plain(n) == Node(n.k, n.v, n.l, TLCEval([j \in 1..Len(n.ch) |-> Plain(n.ch[j])]))
C06(r) == IF ~Past(r, "cst") THEN IF r.at = "cst" THEN When(Accepts(r.tok), "no tree: " \o r.st) ELSE {"not tokenized: " \o r.st} ELSE
          LET cst == Tree(r.cst)
              spec == Parse(r.tok)
              good == Accepts(r.tok) /\ Shape(spec) = Shape(cst)
          IN When(good /\ Locs(cst) # Locs(spec), "parse tree locations")
             \cup When(~UniqueIds(cst), "parse tree ids")
             \cup (IF ~Past(r, "ast") THEN {} ELSE
                   LET ast == Tree(r.ast)
                       a == Transform(Plain(cst)).ast
                   IN When(~UniqueIds(ast), "syntax tree ids")
                      \cup When(good /\ Shape(a) = Shape(ast) /\ Locs(a) # Locs(ast), "syntax tree locations"))
C07(r) == IF ~Past(r, "cst") THEN IF r.at = "cst" THEN When(FrontEnd(r.gr).ok, "no tree: " \o r.st) ELSE {"not tokenized: " \o r.st} ELSE
          IF ~Past(r, "ast") THEN {"transform: " \o r.st} ELSE
          LET f == FrontEnd(r.gr)
          IN When(f.ok /\ AsBag(f.errs) # AsBag(r.errs), "problems")
C08(r) == IF ~Past(r, "cst") THEN IF r.at = "cst" THEN When(FrontEnd(r.gr).ok, "no tree: " \o r.st) ELSE {"not tokenized: " \o r.st} ELSE
          IF ~Past(r, "ast") THEN {"transform: " \o r.st} ELSE
          LET f == FrontEnd(r.gr)
          IN When(f.ok /\ f.errs = <<>> /\ Shape(f.ast) # Shape(Tree(r.ast)), "syntax tree")

Check(r) == CASE Prop = "C01" -> C01(r) [] Prop = "C02" -> C02(r) [] Prop = "C03" -> C03(r)
              [] Prop = "C04" -> C04(r) [] Prop = "C05" -> C05(r) [] Prop = "C06" -> C06(r)
              [] Prop = "C07" -> C07(r) [] Prop = "C08" -> C08(r)

Init == i = 0
Next == \/ i = 0 /\ i' \in 1..(IF N < Width THEN N ELSE Width)
        \/ i > 0 /\ i + Width <= N /\ i' = i + Width
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET bad == Check(Recs[i]) IN bad = {} \/ PrintT(<<"BAD", Recs[i].n, bad>>)
=============================================================================

--------------------------- MODULE BrackTokenizer ---------------------------
(* The tokenizer as a transition system over the graphemes of a document.    *)
(*                                                                           *)
(* A document is a sequence of graphemes (strings). The state S holds the    *)
(* tokens emitted so far, the text being collected, the position of the next *)
(* grapheme, the number of open brackets of each kind, whether a command     *)
(* name is still expected and whether the next grapheme is escaped.          *)
(* Tokenize(doc) runs it to the end; the Tok* operators are its actions,     *)
(* one per grapheme (guards given by TokAction).                             *)
EXTENDS Naturals, Sequences, SequencesExt

Brackets   == {"<", ">", "{", "}", "[", "]"}
Openers    == {"<", "{", "["}
Closers    == {">", "}", "]"}
InBrackets == {".", ",", " "}            \* punctuation inside brackets only
Escapable  == {"\\", ".", ","} \cup Brackets

KindOf == [g \in Escapable \cup {" ", "\n"} |->
   CASE g = "\\" -> "BS" [] g = "<" -> "AO" [] g = ">" -> "AC"
     [] g = "{" -> "CO"  [] g = "}" -> "CC" [] g = "[" -> "SO" [] g = "]" -> "SC"
     [] g = "." -> "Dot" [] g = "," -> "Comma" [] g = " " -> "WS" [] g = "\n" -> "NL"]

(* what a token stands for in the document *)
CharOf == [k \in {KindOf[g] : g \in DOMAIN KindOf} |->
              CHOOSE g \in DOMAIN KindOf : KindOf[g] = k]
WordKinds == {"Text", "Module", "Ident"}
Token(k, t, l1, c1, l2, c2) == [k |-> k, t |-> t, l |-> <<l1, c1, l2, c2>>]

(* TLC keeps every string it ever makes: long ones are put together from halves, and collected in pieces *)
RECURSIVE Join(_, _, _)
Join(ss, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                  ELSE LET m == (a + b) \div 2 IN Join(ss, a, m) \o Join(ss, m + 1, b)
Concat(ss) == Join(ss, 1, Len(ss))
Collected(pool, g) == IF pool # <<>> /\ Len(pool[Len(pool)]) < 200 THEN [pool EXCEPT ![Len(pool)] = @ \o g] ELSE Append(pool, g)

(* a carriage return directly before a line feed belongs to the newline *)
Norm(g) == IF g = "\r\n" THEN "\n" ELSE g

TokInit == [toks |-> <<>>, pool |-> <<>>, scol |-> 0, line |-> 0, col |-> 0,
            ang |-> 0, cur |-> 0, sq |-> 0, look |-> FALSE, esc |-> FALSE]

Nested(s) == s.ang + s.cur + s.sq > 0
Special(s, g) == \/ g \in Brackets \/ g = "\\" \/ g = "\n"
                 \/ Nested(s) /\ g \in InBrackets
Open(s, g)  == [s EXCEPT !.ang = @ + (IF g = "<" THEN 1 ELSE 0),
                         !.cur = @ + (IF g = "{" THEN 1 ELSE 0),
                         !.sq  = @ + (IF g = "[" THEN 1 ELSE 0), !.look = TRUE]
Less(n) == IF n = 0 THEN 0 ELSE n - 1
Shut(s, g)  == [s EXCEPT !.ang = IF g = ">" THEN Less(@) ELSE @,
                         !.cur = IF g = "}" THEN Less(@) ELSE @,
                         !.sq  = IF g = "]" THEN Less(@) ELSE @, !.look = FALSE]
EmitChar(s, g) ==
   [s EXCEPT !.toks = Append(@, Token(KindOf[g], "", s.line, s.col, s.line, s.col + 1)),
             !.col = s.col + 1, !.scol = s.col + 1]

(* --- actions: g is the next grapheme, nx the one after it ("" at the end) --- *)
TokEscaped(s, g, nx)   == [EmitChar(s, g) EXCEPT !.esc = FALSE]
TokBackslash(s, g, nx) == [EmitChar(s, g) EXCEPT !.esc = nx \in Escapable]
TokOpen(s, g, nx)      == Open(EmitChar(s, g), g)
TokClose(s, g, nx)     == Shut(EmitChar(s, g), g)
TokPunct(s, g, nx)     == EmitChar(s, g)
TokNewline(s, g, nx)   == [EmitChar(s, g) EXCEPT !.line = s.line + 1, !.col = 0, !.scol = 0]
TokCollect(s, g, nx)   == [s EXCEPT !.pool = Collected(@, g), !.col = @ + 1]
WordKind(s, nx) == IF s.look /\ nx \in Closers \cup {" "} THEN "Ident"
                   ELSE IF s.look /\ nx = "." THEN "Module" ELSE "Text"
TokWordEnd(s, g, nx) ==
   LET k == WordKind(s, nx)
   IN [s EXCEPT !.toks = Append(@, Token(k, Concat(Collected(s.pool, g)), s.line, s.scol, s.line, s.col + 1)),
                !.pool = <<>>, !.col = s.col + 1, !.scol = s.col + 1,
                !.look = IF k = "Ident" THEN FALSE ELSE @]

TokAction(s, g, nx) ==
   IF s.esc THEN "Escaped"
   ELSE IF g = "\\" THEN "Backslash"
   ELSE IF g \in Openers THEN "Open"
   ELSE IF g \in Closers THEN "Close"
   ELSE IF g = "\n" THEN "Newline"
   ELSE IF Special(s, g) THEN "Punct"
   ELSE IF nx = "" \/ Special(s, nx) THEN "WordEnd" ELSE "Collect"

TokStep(s, g, nx) ==
   LET a == TokAction(s, g, nx)
   IN CASE a = "Escaped"   -> TokEscaped(s, g, nx)
        [] a = "Backslash" -> TokBackslash(s, g, nx)
        [] a = "Open"      -> TokOpen(s, g, nx)
        [] a = "Close"     -> TokClose(s, g, nx)
        [] a = "Newline"   -> TokNewline(s, g, nx)
        [] a = "Punct"     -> TokPunct(s, g, nx)
        [] a = "WordEnd"   -> TokWordEnd(s, g, nx)
        [] a = "Collect"   -> TokCollect(s, g, nx)
TokEnd(s) == [s EXCEPT !.toks = Append(@, Token("EOF", "", s.line, s.col, s.line, s.col))]

Tokenize(doc) ==
   LET n == Len(doc)
       At(i) == IF i > n THEN "" ELSE Norm(doc[i])
   IN TokEnd(FoldLeft(LAMBDA s, i : TokStep(s, At(i), At(i + 1)), TokInit,
                      [i \in 1..n |-> i])).toks

-----------------------------------------------------------------------------
(* Properties of a token list, as relations that do not use the machine.     *)
Rendered(t) == IF t.k \in WordKinds THEN t.t
               ELSE IF t.k \in DOMAIN CharOf THEN CharOf[t.k] ELSE ""
Render(toks) == Concat([i \in 1..Len(toks) |-> Rendered(toks[i])])
Text(doc) == Concat([i \in 1..Len(doc) |-> Norm(doc[i])])

(* C01 *)
Lossless(toks, doc) == Render(toks) = Text(doc)
OneEof(toks) == /\ Len(toks) > 0 /\ toks[Len(toks)].k = "EOF"
                /\ \A i \in 1..Len(toks) - 1 : toks[i].k # "EOF"
NoEmpty(toks) == \A i \in 1..Len(toks) : /\ toks[i].k # "Empty"
                                         /\ toks[i].k \in WordKinds => toks[i].t # ""
(* C02: w[i] is the number of graphemes of token i *)
Tiles(toks, w) ==
   \A i \in 1..Len(toks) :
      LET l == toks[i].l
          sl == IF i = 1 THEN <<0, 0>>
                ELSE IF toks[i-1].k = "NL" THEN <<toks[i-1].l[1] + 1, 0>>
                ELSE <<toks[i-1].l[3], toks[i-1].l[4]>>
      IN <<l[1], l[2]>> = sl /\ <<l[3], l[4]>> = <<l[1], l[2] + w[i]>>
=============================================================================

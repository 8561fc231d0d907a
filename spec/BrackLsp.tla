------------------------------ MODULE BrackLsp ------------------------------
(* The language server: framing of its input, and what each message does to  *)
(* its state and makes it send.                                              *)
(*                                                                           *)
(* A byte is a number. A message body stands for a message                   *)
(*   [t, id, method, p]   t: "junk" (not JSON), "request", "note",           *)
(*                           "response", "other"                             *)
(*   p == [ok (usable), file (its URI is a file's), doc (path), uri (as   *)
(*         the client spells it), root (path of the project), diag (announces published diagnostics),          *)
(*         trigger (<<>> or <<character>>)]                                  *)
(* The world around it: files (path -> [st, gr]) and projects                *)
(*   (root -> [open: "ok", or "bad" configuration, or "unreachable" plugin;  *)
(*             plugins; spoiled: a plugin file is no longer what it was]).   *)
EXTENDS BrackTransformer, BrackPlugins

CR == 13
LF == 10
Colon == 58
Blanks == {32, 9}
(* ---------------------------------------------------------------- framing *)
MinOf(s) == CHOOSE x \in s : \A y \in s : x <= y
EndOfHeader(buf) == \* the index of the last byte of the first blank line, 0 if there is none
   LET s == {j \in 4..Len(buf) : buf[j] = LF /\ buf[j-1] = CR /\ buf[j-2] = LF /\ buf[j-3] = CR}
   IN IF s = {} THEN 0 ELSE MinOf(s)
(* "content-length" *)
LengthField == <<99,111,110,116,101,110,116,45,108,101,110,103,116,104>>
LowerCase(b) == IF b \in 65..90 THEN b + 32 ELSE b
RECURSIVE Lines(_)
Lines(bs) == LET s == {j \in 2..Len(bs) : bs[j] = LF /\ bs[j-1] = CR}
             IN IF s = {} THEN <<bs>> ELSE <<SubSeq(bs, 1, MinOf(s) - 2)>> \o Lines(SubSeq(bs, MinOf(s) + 1, Len(bs)))
RECURSIVE Trim(_)
Trim(bs) == IF bs = <<>> THEN bs ELSE IF bs[1] \in Blanks THEN Trim(Tail(bs))
            ELSE IF bs[Len(bs)] \in Blanks THEN Trim(SubSeq(bs, 1, Len(bs) - 1)) ELSE bs
Decimal(bs) == FoldLeft(LAMBDA n, b : 10 * n + (b - 48), 0, bs)
IsNumeral(bs) == bs # <<>> /\ \A j \in 1..Len(bs) : bs[j] \in 48..57
FieldName(l) == LET s == {j \in 1..Len(l) : l[j] = Colon}
                IN IF s = {} THEN <<>> ELSE LET x == Trim(SubSeq(l, 1, MinOf(s) - 1)) IN [j \in 1..Len(x) |-> LowerCase(x[j])]
FieldValue(l) == LET s == {j \in 1..Len(l) : l[j] = Colon} IN Trim(SubSeq(l, MinOf(s) + 1, Len(l)))
Lengths(header) == SelectSeq(Lines(header), LAMBDA l : FieldName(l) = LengthField /\ IsNumeral(FieldValue(l)))
(* the messages at the beginning of the buffer, and what is left *)
RECURSIVE TakeAll(_, _)
TakeAll(buf, got) ==
   LET e == EndOfHeader(buf)
   IN IF e = 0 THEN [got |-> got, buf |-> buf]
      ELSE LET ls == Lengths(SubSeq(buf, 1, e - 4))
           IN IF ls = <<>> THEN TakeAll(SubSeq(buf, e + 1, Len(buf)), got)
              ELSE LET n == Decimal(FieldValue(ls[1]))
                   IN IF Len(buf) < e + n THEN [got |-> got, buf |-> buf]
                      ELSE TakeAll(SubSeq(buf, e + n + 1, Len(buf)), Append(got, SubSeq(buf, e + 1, e + n)))
Receive(buf, bytes) == TakeAll(buf \o bytes, <<>>)

(* --------------------------------------------------------------- messages *)
(* What is sent: [t, id, code, uri, v]                                       *)
(*   t: "result", "error", "diagnostics" ; v: the value, as far as specified *)
Sent(t, id, code, uri, v) == [t |-> t, id |-> id, code |-> code, uri |-> uri, v |-> v]
ResultOf(id, v) == Sent("result", id, 0, "", v)
ErrorOf(id, code) == Sent("error", id, code, "", "any")
NullValue == [k |-> "null", seq |-> <<>>]
ParseError == -32700
InvalidRequest == -32600
NoMethod == -32601
BadParams == -32602
SomeError == -1          \* any code
NoId == "null"

LspInit == [diag |-> FALSE, project |-> <<>>]
Stay(s, outs) == [s |-> s, outs |-> outs]
FileAt(w, path) == LET f == {j \in 1..Len(w.files) : w.files[j].path = path}
                   IN IF f = {} THEN [path |-> path, st |-> "missing", gr |-> <<>>] ELSE w.files[CHOOSE j \in f : TRUE]
ProjectAt(w, root) == LET f == {j \in 1..Len(w.projects) : w.projects[j].root = root}
                      IN IF f = {} THEN [root |-> root, open |-> "bad", plugins |-> <<>>, spoiled |-> FALSE] ELSE w.projects[CHOOSE j \in f : TRUE]

(* semantic tokens (C25): [start line and character relative to the token before, length, type] *)
TypeName == [Module |-> "namespace", Ident |-> "variable", AO |-> "macro", AC |-> "macro", CO |-> "method", CC |-> "method",
             SO |-> "function", SC |-> "function"]
TypeNameOf(k) == IF k \in DOMAIN TypeName THEN TypeName[k] ELSE "none"
SemanticStep(s, t) ==
   [data |-> Append(s.data, [line |-> t.l[1] - s.line, char |-> IF t.l[1] = s.line THEN t.l[2] - s.char ELSE t.l[2],
                             length |-> t.l[4] - t.l[2], type |-> TypeNameOf(t.k)]),
    line |-> t.l[1], char |-> t.l[2]]
Semantic(toks) == FoldLeft(SemanticStep, [data |-> <<>>, line |-> 0, char |-> 0], toks).data
(* the same, declaratively: absolute positions are recovered by summing up *)
RECURSIVE Absolute(_, _, _)
Absolute(ds, l, c) == IF ds = <<>> THEN <<>>
                      ELSE LET d == Head(ds)
                               nl == l + d.line
                               nc == IF d.line = 0 THEN c + d.char ELSE d.char
                           IN <<<<nl, nc, d.length, d.type>>>> \o Absolute(Tail(ds), nl, nc)

(* completion (C26) *)
RetOfTrigger == [x \in {"[", "{", "<"} |-> CASE x = "[" -> "I" [] x = "{" -> "B" [] x = "<" -> "A"]
ClosingOf == [x \in {"[", "{", "<"} |-> CASE x = "[" -> "]" [] x = "{" -> "}" [] x = "<" -> ">"]
Offers(ps, trigger) ==
   IF trigger \notin DOMAIN RetOfTrigger THEN {}
   ELSE UNION {{[label |-> ps[j].name \o "." \o ps[j].cmds[k].name, close |-> ClosingOf[trigger]] :
                   k \in {k \in 1..Len(ps[j].cmds) : ps[j].cmds[k].ret = RetOfTrigger[trigger]}} : j \in 1..Len(ps)}
Complete(s, w, p) ==
   IF s.project = <<>> \/ p.trigger = <<>> THEN [k |-> "null", seq |-> <<>>]
   ELSE [k |-> "offers", seq |-> <<Offers(s.project[1].plugins, p.trigger[1])>>]
Unusable(s, w) == \* the plugins of the open project cannot be loaded (any more)
   IF s.project = <<>> THEN FALSE
   ELSE LET ps == s.project[1].plugins
        IN \/ ps # <<>> /\ ProjectAt(w, s.project[1].root).spoiled
           \/ \E j \in 1..Len(ps) : Load(ps[j]) # "ok"
           \/ FormSet(ps) # "ok"

Requested(s, w, m) ==
   CASE m.method = "initialize" ->
          IF ~m.p.ok THEN Stay(s, <<ErrorOf(m.id, BadParams)>>)
          ELSE Stay([s EXCEPT !.diag = m.p.diag], <<ResultOf(m.id, [k |-> "capabilities", seq |-> <<>>])>>)
     [] m.method = "textDocument/semanticTokens/full" ->
          IF ~m.p.ok THEN Stay(s, <<ErrorOf(m.id, BadParams)>>)
          ELSE IF ~m.p.file THEN Stay(s, <<Sent("either", m.id, SomeError, "", NullValue)>>)
          ELSE LET f == FileAt(w, m.p.doc)
               IN Stay(s, <<ResultOf(m.id, IF f.st # "ok" THEN NullValue ELSE [k |-> "tokens", seq |-> Semantic(Tokenize(f.gr))])>>)
     [] m.method = "textDocument/completion" ->
          IF ~m.p.ok THEN Stay(s, <<ErrorOf(m.id, BadParams)>>)
          ELSE IF Unusable(s, w)
          THEN Stay(s, <<IF m.p.trigger = <<>> THEN Sent("either", m.id, SomeError, "", NullValue) ELSE ErrorOf(m.id, SomeError)>>)
          ELSE Stay(s, <<ResultOf(m.id, Complete(s, w, m.p))>>)
     [] OTHER -> Stay(s, <<ErrorOf(m.id, NoMethod)>>)
Noted(s, w, m) ==
   CASE m.method = "textDocument/didOpen" /\ m.p.ok /\ m.p.file ->
          LET x == ProjectAt(w, m.p.root)
          IN IF x.open = "ok" THEN Stay([s EXCEPT !.project = <<[root |-> x.root, plugins |-> x.plugins]>>], <<>>) ELSE Stay(s, <<>>)
     [] m.method = "textDocument/didSave" /\ m.p.ok /\ m.p.file ->
          LET f == FileAt(w, m.p.doc)
              e == FrontEnd(f.gr)
          IN IF ~s.diag \/ f.st # "ok" THEN Stay(s, <<>>)
             ELSE IF ~e.ok THEN Stay(s, <<>>)
             ELSE Stay(s, <<Sent("diagnostics", NoId, 0, m.p.uri, [k |-> "problems", seq |-> e.errs])>>)
     [] OTHER -> Stay(s, <<>>)
Handle(s, w, m) ==
   CASE m.t = "junk" -> Stay(s, <<ErrorOf(NoId, ParseError)>>)
     [] m.t = "other" -> Stay(s, <<ErrorOf(NoId, InvalidRequest)>>)
     [] m.t = "response" -> Stay(s, <<>>)
     [] m.t = "note" -> Noted(s, w, m)
     [] m.t = "request" -> Requested(s, w, m)
HandleAll(s, w, ms) == FoldLeft(LAMBDA a, m : LET r == Handle(a.s, w, m) IN [s |-> r.s, outs |-> a.outs \o r.outs], Stay(s, <<>>), ms)
=============================================================================

---------------------------- MODULE BrackCompile ----------------------------
(* The compile command: which files of the directory are plugins, and what   *)
(* each output level prints.                                                 *)
(*   case == [dir, files, suffix, doc, gr, level, json]                      *)
(*     dir    : "ok", or what is wrong with the plugins directory            *)
(*     files  : its entries [name (characters), file, cmds, entries]         *)
(*     suffix : the document's name ends in .[]                              *)
(*     doc    : "ok", or what is wrong with the document; gr its graphemes   *)
EXTENDS BrackTransformer, BrackExpander, BrackCodegen

Lower == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
Upper == {"A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z"}
Digit == {"0","1","2","3","4","5","6","7","8","9"}
Extension == <<".", "w", "a", "s", "m">>
All(s, set) == \A i \in 1..Len(s) : s[i] \in set
(* <<>> if the name is not that of a plugin, otherwise its module name *)
Bars(name) == {i \in 1..Len(name) : name[i] = "_"}
ModuleOf(name) ==
   LET n == Len(name) - 5
   IN IF n < 3 \/ Cardinality(Bars(name)) # 1 THEN <<>>
      ELSE IF SubSeq(name, n + 1, n + 5) # Extension THEN <<>>
      ELSE LET b == CHOOSE i \in Bars(name) : TRUE
           IN IF b > 1 /\ b < n /\ All(SubSeq(name, 1, b - 1), Lower \cup Upper)
                 /\ All(SubSeq(name, b + 1, n), Lower \cup Upper \cup Digit)
              THEN <<Cat(SubSeq(name, 1, b - 1))>> ELSE <<>>
PluginFiles(files) == SelectSeq(files, LAMBDA f : ModuleOf(f.name) # <<>>)
NoHooks == <<FALSE, FALSE, FALSE, FALSE>>
Loaded(files) == LET s == PluginFiles(files)
                 IN [i \in 1..Len(s) |-> [name |-> ModuleOf(s[i].name)[1], flags |-> NoHooks, file |-> s[i].file,
                                          cmds |-> s[i].cmds, entries |-> s[i].entries]]

Refused == [st |-> "fail"]
Printed(kind, v) == [st |-> "ok", kind |-> kind, v |-> v]
RECURSIVE Number(_, _)
Number(n, k) == \* ids by position
   [k |-> n.k, v |-> n.v, l |-> n.l, id |-> k, ch |-> TLCEval([j \in 1..Len(n.ch) |-> Number(n.ch[j], k \o <<j>>)])]
(* The command as a machine: a step per stage; a stage may fail *)
CompileInit == [at |-> "plugins", ps |-> <<>>, toks |-> <<>>, res |-> <<>>]
Result(s, r) == [s EXCEPT !.res = <<r>>, !.at = "end"]
CompileStep(c, s) ==
   CASE s.at = "plugins" ->
          IF c.dir # "ok" THEN Result(s, Refused)
          ELSE LET ps == Loaded(c.files)
               IN IF \E i \in 1..Len(ps) : Load(ps[i]) # "ok" THEN Result(s, Refused)
                  ELSE [s EXCEPT !.ps = ps, !.at = "options"]
     [] s.at = "options" ->
          IF ~c.suffix \/ c.level \notin 1..5 \/ (c.level = 5 /\ c.json) THEN Result(s, Refused)
          ELSE [s EXCEPT !.at = "read"]
     [] s.at = "read" -> IF c.doc # "ok" THEN Result(s, Refused) ELSE [s EXCEPT !.toks = Tokenize(c.gr), !.at = "tokens"]
     [] s.at = "tokens" -> IF c.level = 1 THEN Result(s, Printed("tokens", s.toks)) ELSE [s EXCEPT !.at = "tree"]
     [] s.at = "tree" -> IF ~Accepts(s.toks) THEN Result(s, Refused)
                         ELSE IF c.level = 2 THEN Result(s, Printed("tree", Parse(s.toks))) ELSE [s EXCEPT !.at = "syntax"]
     [] s.at = "syntax" ->
          LET t == Transform(Parse(s.toks))
          IN IF c.level = 3 THEN Result(s, IF ~c.json /\ t.errs # <<>> THEN Printed("problems", t.errs) ELSE Printed("tree", t.ast))
             ELSE LET e == Expand(s.ps, Number(t.ast, <<>>))
                  IN IF ~e.ok THEN Result(s, Refused)
                     ELSE IF c.level = 4 THEN Result(s, Printed("tree", e.n))
                     ELSE LET g == Generate(s.ps, e.n, [m \in {s.ps[i].name : i \in 1..Len(s.ps)} |->
                                                           Len(SelectSeq(e.log, LAMBDA x : x.p = m))])
                          IN Result(s, IF g.st = "ok" THEN Printed("text", g.vals[1]) ELSE Refused)
RECURSIVE CompileRun(_, _)
CompileRun(c, s) == IF s.at = "end" THEN s.res[1] ELSE CompileRun(c, CompileStep(c, s))
Compiled(c) == CompileRun(c, CompileInit)
(* the output for a document with these plugins; <<>> if it cannot be generated *)
Final(ps, gr) ==
   LET toks == Tokenize(gr) IN
   IF ~Accepts(toks) THEN <<>>
   ELSE LET e == Expand(ps, Number(Transform(Parse(toks)).ast, <<>>))
            g == Generate(ps, e.n, [m \in {ps[i].name : i \in 1..Len(ps)} |-> Len(SelectSeq(e.log, LAMBDA x : x.p = m))])
        IN IF ~e.ok THEN <<>> ELSE IF g.st = "ok" THEN <<g.vals[1]>> ELSE <<>>
=============================================================================

------------------------------ MODULE MC_Compile ------------------------------
(* The compile command, a stage per step, for every combination of options,  *)
(* documents, directory contents and file names of a family.                 *)
EXTENDS BrackCompile
CONSTANTS MaxName
VARIABLES c, s, typed
vars == <<c, s, typed>>
MCOpen == "("
MCClose == ")"
Plug(file) == [name |-> <<"m", "_", "0", ".", "w", "a", "s", "m">>, file |-> file,
         cmds |-> <<[name |-> "c", x |-> "c0", ret |-> "I", args |-> <<"*">>],
                    [name |-> "s", x |-> "c1", ret |-> "A", args |-> <<>>],
                    [name |-> "text", x |-> "c0", ret |-> "B", args |-> <<>>]>>,
         entries |-> <<[x |-> "c0", mode |-> "ECHO", payload |-> "p", tree |-> <<>>],
                       [x |-> "c1", mode |-> "SQUARE", payload |-> "", tree |-> <<>>]>>]
Docs == {<<>>, <<"a">>, <<"[", "m", ".", "c", " ", "x", "]">>, <<"<", "m", ".", "c", ">">>, <<"[", "m", ".">>, <<"[", "]", "}">>,
         <<"<", "m", ".", "s", " ", "y", ">">>, <<"[", "q", ".", "c", "]">>, <<"\n", "a">>, <<"\\", "a">>}
Cases == [dir : {"ok", "missing"}, files : {<<>>, <<Plug("ok")>>, <<Plug("damaged")>>,
                                           <<[Plug("damaged") EXCEPT !.name = <<"m", "-", "0", ".", "w", "a", "s", "m">>]>>},
          suffix : BOOLEAN, doc : {"ok", "missing"}, gr : Docs, level : 0..6, json : BOOLEAN]
NoCase == [dir |-> "none"]
Chars == {"a", "Z", "0", "_", "-", "."}
Init == c = NoCase /\ s = CompileInit /\ typed = <<>>
Start(x) == c = NoCase /\ typed = <<>> /\ c' = x /\ UNCHANGED <<s, typed>>
Stage(a) == c # NoCase /\ s.at = a /\ s' = CompileStep(c, s) /\ UNCHANGED <<c, typed>>
Type(ch) == c = NoCase /\ Len(typed) < MaxName /\ typed' = Append(typed, ch) /\ UNCHANGED <<c, s>>
Next == (\E x \in Cases : Start(x)) \/ Stage("plugins") \/ Stage("options") \/ Stage("read") \/ Stage("tokens")
        \/ Stage("tree") \/ Stage("syntax") \/ (\E ch \in Chars : Type(ch))
Spec == Init /\ [][Next]_vars
Ends == s.at = "end" => s.res # <<>>
(* a result is printed exactly if nothing is wrong with what the level needs *)
CompileInv == s.at = "end" =>
   LET ok == s.res[1].st = "ok"
       f == FrontEnd(c.gr)
   IN /\ ok => c.dir = "ok" /\ c.suffix /\ c.doc = "ok" /\ c.level \in 1..5 /\ ~(c.json /\ c.level = 5)
      /\ ok => s.res[1].kind = (CASE c.level = 1 -> "tokens" [] c.level = 2 -> "tree" [] c.level = 4 -> "tree" [] c.level = 5 -> "text"
                                  [] c.level = 3 -> IF c.json \/ f.errs = <<>> THEN "tree" ELSE "problems")
      /\ ok /\ c.level > 1 => f.ok
      /\ ok /\ c.level \in {2, 3} /\ s.res[1].kind = "tree" => s.res[1].v.k = "Document"
      /\ ~ok => \/ c.dir # "ok" \/ (\E i \in 1..Len(c.files) : c.files[i].file # "ok") \/ ~c.suffix \/ c.doc # "ok"
                \/ c.level \notin 1..5 \/ (c.json /\ c.level = 5) \/ (c.level > 1 /\ ~f.ok) \/ c.level \in {4, 5}
Full == typed \o Extension
NameInv == LET m == ModuleOf(Full)
           IN m # <<>> <=> \E i \in 2..Len(typed) - 1 : /\ typed[i] = "_" /\ All(SubSeq(typed, 1, i - 1), {"a", "Z"})
                                                     /\ All(SubSeq(typed, i + 1, Len(typed)), {"a", "Z", "0"})
=============================================================================

----------------------------- MODULE MC_Generate -----------------------------
(* Every document made of at most MaxLen pieces, with every configuration of *)
(* a small family of plugins, goes through front end, expansion (one macro   *)
(* call per step) and code generation (one task per step).                   *)
EXTENDS Integers, BrackTransformer, BrackExpander, BrackCodegen
CONSTANTS MaxLen, Piece
MCOpen == "(" 
MCClose == ")"
VARIABLES pieces, cfg, phase, whole, ex, g
vars == <<pieces, cfg, phase, whole, ex, g>>

Pieces == CASE Piece = "nest" -> <<"x", "[m.i ", "{m.b ", "<m.s ", "]", "}", ">", ",">>
            [] Piece = "args" -> <<"[m.i ", "x", ",", "]", "\n", "[m.o ", "[m.a ">>
Seqs == [j \in 1..Len(Pieces) |->
           CASE Pieces[j] = "[m.i " -> <<"[", "m", ".", "i", " ">> [] Pieces[j] = "{m.b " -> <<"{", "m", ".", "b", " ">>
             [] Pieces[j] = "<m.s " -> <<"<", "m", ".", "s", " ">> [] Pieces[j] = "[m.o " -> <<"[", "m", ".", "o", " ">>
             [] Pieces[j] = "[m.a " -> <<"[", "m", ".", "a", " ">> [] OTHER -> <<Pieces[j]>>]
Cmd(n, x, r, a) == [name |-> n, x |-> x, ret |-> r, args |-> a]
Ent(x, m) == [x |-> x, mode |-> m, payload |-> x, tree |-> <<>>]
Plug(flags, sig, macro, inline) ==
   [name |-> "m", file |-> "ok", flags |-> flags,
    cmds |-> <<Cmd("i", "c0", "I", sig), Cmd("b", "c1", "B", <<"*">>), Cmd("s", "c2", "A", <<>>),
               Cmd("s", "c0", "I", <<"*">>), Cmd("o", "c3", "I", <<"I", "O", "O">>), Cmd("a", "c0", "I", <<"I", "O", "*">>),
               Cmd("document", "c4", "B", <<"I">>), Cmd("stmt", "c5", "B", <<"I">>),
               Cmd("expr", "c6", "I", <<"I">>), Cmd("text", "c7", "I", <<"I">>)>>,
    entries |-> <<Ent("c0", inline), Ent("c1", "ECHO"), Ent("c2", macro), Ent("c3", "ECHO"), Ent("c4", "ECHO"),
                  Ent("c5", "ECHO"), Ent("c6", "ECHO"), Ent("c7", "ECHO")>>]
Off == <<FALSE, FALSE, FALSE, FALSE>>
Configs == {Plug(f, sig, macro, inline) :
              f \in {Off, <<TRUE, TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE, TRUE>>},
              sig \in {<<"I">>, <<"O", "O">>},
              macro \in IF Piece = "nest" THEN {"SQUARE", "INNER", "WHOLE", "ERR"} ELSE {"ERR"},
              inline \in {"ECHO", "TRAP"}}
NoCfg == Plug(Off, <<>>, "ERR", "ERR")     \* the plugins are chosen when the document is finished
RECURSIVE Number(_, _)
Number(n, k) == \* ids by position (preorder paths would do as well)
   [k |-> n.k, v |-> n.v, l |-> n.l, id |-> k, ch |-> TLCEval([j \in 1..Len(n.ch) |-> Number(n.ch[j], k \o <<j>>)])]
Doc == FlattenSeq([j \in 1..Len(pieces) |-> Seqs[pieces[j]]])
NoTree == [k |-> "-", v |-> "", l |-> <<0,0,0,0>>, id |-> <<>>, ch |-> <<>>]
Init == /\ pieces = <<>> /\ cfg = NoCfg /\ phase = "write" /\ whole = NoTree
        /\ ex = [todo |-> <<>>, log |-> <<>>] /\ g = [st |-> "no"]
Write(j) == phase = "write" /\ Len(pieces) < MaxLen /\ pieces' = Append(pieces, j)
            /\ UNCHANGED <<cfg, phase, whole, ex, g>>
Compile == /\ phase = "write" /\ cfg' \in Configs
           /\ LET f == FrontEnd(Doc)
              IN IF ~f.ok THEN phase' = "rejected" /\ UNCHANGED <<whole, ex>>
                 ELSE /\ phase' = "expand" /\ whole' = Number(f.ast, <<>>)
                      /\ ex' = [todo |-> Outermost(Number(f.ast, <<>>)), log |-> <<>>]
           /\ UNCHANGED <<pieces, g>>
\* one macro call; the tree is replaced when all calls have succeeded
MacroCall == /\ phase = "expand" /\ ex.todo # <<>>
             /\ LET r == ExpandMacro(<<cfg>>, whole, ex.todo[1], ex.log)
                IN IF r.ok THEN ex' = [todo |-> Tail(ex.todo), log |-> r.log] /\ UNCHANGED phase
                   ELSE ex' = [ex EXCEPT !.log = r.log] /\ phase' = "failed"
             /\ UNCHANGED <<pieces, cfg, whole, g>>
StartGenerating == /\ phase = "expand" /\ ex.todo = <<>> /\ phase' = "generate"
                   /\ g' = GenInit(Expand(<<cfg>>, whole).n, NoCalls(<<cfg>>))
                   /\ UNCHANGED <<pieces, cfg, whole, ex>>
Task(t) == /\ phase = "generate" /\ g.st = "run" /\ g.todo # <<>> /\ g.todo[Len(g.todo)].t = t
           /\ g' = GenStep(<<cfg>>, g) /\ UNCHANGED <<pieces, cfg, phase, whole, ex>>
Finish == /\ phase = "generate" /\ g.st = "run" /\ g.todo = <<>>
          /\ g' = GenStep(<<cfg>>, g) /\ UNCHANGED <<pieces, cfg, phase, whole, ex>>
Next == (\E j \in 1..Len(Pieces) : Write(j)) \/ Compile \/ MacroCall \/ StartGenerating
        \/ Task("visit") \/ Task("join") \/ Task("call") \/ Finish
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Ps == <<cfg>>
RECURSIVE Count(_, _), SameOutside(_, _)
Count(n, ks) == (IF n.k \in ks THEN 1 ELSE 0) + FoldLeft(LAMBDA a, c : a + Count(c, ks), 0, n.ch)
SameOutside(a, b) == \* equal but for macros of a
   IF a.k = "Angle" THEN TRUE
   ELSE a.k = b.k /\ a.v = b.v /\ a.id = b.id /\ a.l = b.l /\ Len(a.ch) = Len(b.ch)
        /\ \A j \in 1..Len(a.ch) : SameOutside(a.ch[j], b.ch[j])
(* C09 *)
ExpandInv ==
   /\ phase \in {"expand", "generate", "failed"} =>
        /\ Len(ex.log) <= Len(Outermost(whole))
        /\ \A j \in 1..Len(ex.log) : ex.log[j].id = Outermost(whole)[j].id
   /\ phase = "generate" => /\ Len(ex.log) = Len(Outermost(whole))
                            /\ Expand(Ps, whole).ok /\ Expand(Ps, whole).log = ex.log
                            /\ SameOutside(whole, Expand(Ps, whole).n)
   /\ phase = "failed" => ~Expand(Ps, whole).ok
(* C10, C12: the machine and the denotation agree; each command is called once, each element hooked once *)
Gens == phase = "generate"
HookCalls(x) == Cardinality({j \in 1..Len(g.log) : g.log[j].x = x})
GenerateInv ==
   Gens =>
     LET t == Expand(Ps, whole).n
         d == Denote(Ps, t)
     IN /\ g.st = "ok" => /\ d.ok /\ g.vals = <<d.s>>
                          /\ Len(SelectSeq(g.log, LAMBDA c : c.x \in {"c0", "c1", "c3"})) = Count(t, {"Square", "Curly"})
                          /\ HookCalls("c4") = (IF cfg.flags[1] THEN 1 ELSE 0)
                          /\ HookCalls("c5") = (IF cfg.flags[2] THEN Count(t, {"Stmt"}) ELSE 0)
                          /\ HookCalls("c6") = (IF cfg.flags[3] THEN Count(t, {"Expr"}) ELSE 0)
                          /\ HookCalls("c7") = (IF cfg.flags[4] THEN Count(t, {"Text"}) ELSE 0)
                          /\ cfg.flags[1] => g.log[Len(g.log)].x = "c4"
        /\ g.st = "err" => ~d.ok
(* C10: a call comes after the calls of its arguments: their results occur in its arguments *)
StacksInv == Gens /\ g.st = "run" =>
               LET effect(t) == CASE t.t = "visit" -> 1 [] t.t = "join" -> 1 - Len(t.n.ch) [] t.t = "call" -> 3 - Len(t.n.ch)
               IN Len(g.vals) + FoldLeft(LAMBDA a, t : a + effect(t), 0, g.todo) = 1
(* C14: once written, a document is compiled in exactly one way, to an end *)
Ended == phase \in {"rejected", "failed"} \/ (phase = "generate" /\ g.st # "run")
Work == MacroCall \/ StartGenerating \/ Task("visit") \/ Task("join") \/ Task("call") \/ Finish
FairSpec == Spec /\ WF_vars(Work)
OneWay == phase # "write" /\ ~Ended =>
             Cardinality({a \in 1..6 : CASE a = 1 -> ENABLED MacroCall [] a = 2 -> ENABLED StartGenerating
                                         [] a = 3 -> ENABLED Task("visit") [] a = 4 -> ENABLED Task("join")
                                         [] a = 5 -> ENABLED Task("call") [] a = 6 -> ENABLED Finish}) = 1
Terminates == (phase # "write") ~> Ended
=============================================================================

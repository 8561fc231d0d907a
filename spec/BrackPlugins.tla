---------------------------- MODULE BrackPlugins ----------------------------
(* Plugins: what they declare, how they are loaded, how a call is resolved,  *)
(* and how the test plugins used in the conformance checks answer.           *)
(*                                                                           *)
(* plugin  == [name, flags, cmds, entries, file]                             *)
(*   flags : <<document, statement, expression, text hook on>>               *)
(*   cmds  : declared commands [name, x (entry point), ret, args]            *)
(*           ret in {"I" inline, "B" block, "A" macro}                       *)
(*           args: sequence of "O" optional / "*" array / other (mandatory)  *)
(*   entries: behaviour of the entry points [x, mode, payload, tree]         *)
(*   file  : "ok" or what is wrong with it                                   *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC

HookName == <<"document", "stmt", "expr", "text">>
HookRet  == <<"B", "B", "I", "I">>
IsOptional(a) == a \in {"O", "OB"}
IsArray(a) == a \in {"*", "*B"}
IsMandatory(a) == ~IsOptional(a) /\ ~IsArray(a)

(* --- loading, as a machine: the declared commands are inspected one by one,*)
(*     then the hooks; then the set of plugins is formed one by one ---       *)
LoadInit(p) == [k |-> 0, seen |-> <<FALSE, FALSE, FALSE, FALSE>>, res |-> "run"]
LoadStep(p, s) ==
   IF s.res # "run" THEN s
   ELSE IF p.file # "ok" THEN [s EXCEPT !.res = "err"]
   ELSE IF s.k < Len(p.cmds)
   THEN LET c == p.cmds[s.k + 1]
            hook(h) == p.flags[h] /\ c.name = HookName[h]
        IN IF \E h \in 1..4 : hook(h) /\ c.ret # HookRet[h] THEN [s EXCEPT !.res = "err"]
           ELSE [s EXCEPT !.k = @ + 1, !.seen = [h \in 1..4 |-> @[h] \/ hook(h)]]
   ELSE [s EXCEPT !.res = IF \E h \in 1..4 : p.flags[h] /\ ~s.seen[h] THEN "err" ELSE "ok"]
RECURSIVE LoadRun(_, _)
LoadRun(p, s) == IF s.res # "run" THEN s.res ELSE LoadRun(p, LoadStep(p, s))
Load(p) == LoadRun(p, LoadInit(p))
FormSet(ps) ==
   LET step(s, p) == IF s.res = "err" THEN s
                     ELSE IF \E h \in 1..4 : p.flags[h] /\ s.taken[h] THEN [s EXCEPT !.res = "err"]
                     ELSE [s EXCEPT !.taken = [h \in 1..4 |-> @[h] \/ p.flags[h]]]
   IN FoldLeft(step, [res |-> "ok", taken |-> <<FALSE, FALSE, FALSE, FALSE>>], ps).res
(* the same, declaratively (C13) *)
Loadable(p) ==
   /\ p.file = "ok"
   /\ \A h \in 1..4 : p.flags[h] =>
        LET named == {i \in 1..Len(p.cmds) : p.cmds[i].name = HookName[h]}
        IN named # {} /\ \A i \in named : p.cmds[i].ret = HookRet[h]
Compatible(ps) == \A h \in 1..4 : Cardinality({i \in 1..Len(ps) : ps[i].flags[h]}) <= 1

(* --- resolution (C11) --- *)
Found(ps, m) == {i \in 1..Len(ps) : ps[i].name = m}
Declared(p, name, ret) == {i \in 1..Len(p.cmds) : p.cmds[i].name = name /\ p.cmds[i].ret = ret}
Exists(ps, m, name, ret) == \E i \in Found(ps, m) : Declared(ps[i], name, ret) # {}
(* <<plugin, command>> for a name that exists *)
Resolve(ps, m, name, ret) ==
   LET p == ps[CHOOSE i \in Found(ps, m) : TRUE]
   IN [p |-> p, c |-> p.cmds[CHOOSE i \in Declared(p, name, ret) : TRUE]]
HookPlugin(ps, h) == {i \in 1..Len(ps) : ps[i].flags[h]}

(* --- the test plugins --- *)
Entry(p, x) == LET e == {i \in 1..Len(p.entries) : p.entries[i].x = x}
               IN IF e = {} THEN [x |-> x, mode |-> "MISSING", payload |-> "", tree |-> <<>>]
                  ELSE p.entries[CHOOSE i \in e : TRUE]
RECURSIVE CatFrom(_, _, _)     \* by halves, as TLC keeps every string it makes
CatFrom(ss, a, b) == IF a > b THEN "" ELSE IF a = b THEN ss[a]
                     ELSE LET m == (a + b) \div 2 IN CatFrom(ss, a, m) \o CatFrom(ss, m + 1, b)
Cat(ss) == CatFrom(ss, 1, Len(ss))
RenderArg(a) == CASE a.k = "T" -> "|T" \o a.v[1]
                  [] a.k = "O" -> "|O" \o a.v[1]
                  [] a.k = "N" -> "|N"
                  [] a.k = "A" -> "|A" \o Cat([i \in 1..Len(a.v) |-> ";" \o a.v[i]])
RenderArgs(args) == Cat([i \in 1..Len(args) |-> RenderArg(args[i])])
EchoOpen == "⟦"    \* the model checking modules replace these by ASCII characters, because
EchoClose == "⟧"   \* TLC's queue on disk keeps only eight bits of a character
(* answer of an inline or block command; n: which call of this plugin it is *)
Answer(e, args, n) ==
   CASE e.mode = "ECHO"    -> [ok |-> TRUE, s |-> EchoOpen \o e.payload \o RenderArgs(args) \o EchoClose]
     [] e.mode = "ECHOSEQ" -> [ok |-> TRUE, s |-> EchoOpen \o e.payload \o "#" \o ToString(n) \o RenderArgs(args) \o EchoClose]
     [] e.mode = "CONST"   -> [ok |-> TRUE, s |-> e.payload]
     [] e.mode = "NOOUT"   -> [ok |-> TRUE, s |-> ""]
     [] OTHER              -> [ok |-> FALSE, s |-> ""]     \* TRAP, ERR, MISSING
=============================================================================

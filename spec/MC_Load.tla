------------------------------- MODULE MC_Load -------------------------------
(* Every plugin with at most MaxCmds declared commands (of a family of names *)
(* and kinds) and every choice of hooks is loaded, one command per step, and *)
(* sets of up to three plugins with every choice of hooks are formed.        *)
EXTENDS BrackPlugins
CONSTANTS MaxCmds
VARIABLES p, s, set
vars == <<p, s, set>>
Names == {"document", "stmt", "expr", "text", "other"}
Flags == [1..4 -> BOOLEAN]
TypeOf(f) == <<f[1], f[2], f[3], f[4]>>
Decl == {[name |-> n, x |-> "c0", ret |-> r, args |-> <<"I">>] : n \in Names, r \in {"I", "B", "A"}}
None == [name |-> "m", flags |-> <<FALSE, FALSE, FALSE, FALSE>>, cmds |-> <<>>, entries |-> <<>>, file |-> "ok"]
Init == p = None /\ s = [k |-> 0, seen |-> <<>>, res |-> "no"] /\ set = <<>>
Declare(d) == s.res = "no" /\ set = <<>> /\ Len(p.cmds) < MaxCmds /\ p' = [p EXCEPT !.cmds = Append(@, d)] /\ UNCHANGED <<s, set>>
Configure(f, file) == s.res = "no" /\ set = <<>> /\ p' = [p EXCEPT !.flags = TypeOf(f), !.file = file]
                      /\ s' = LoadInit(p') /\ UNCHANGED set
Step == s.res = "run" /\ s' = LoadStep(p, s) /\ UNCHANGED <<p, set>>
AddToSet(f) == s.res = "no" /\ p.cmds = <<>> /\ Len(set) < 3
               /\ set' = Append(set, [None EXCEPT !.flags = TypeOf(f)]) /\ UNCHANGED <<p, s>>
Next == (\E d \in Decl : Declare(d)) \/ (\E f \in Flags, file \in {"ok", "damaged"} : Configure(f, file)) \/ Step
        \/ (\E f \in Flags : AddToSet(f))
Spec == Init /\ [][Next]_vars
LoadInv == /\ s.res = "ok" => Loadable(p)
           /\ s.res = "err" => ~Loadable(p)
           /\ s.res \in {"ok", "err"} => Load(p) = s.res
SetInv == (FormSet(set) = "ok") = Compatible(set)
=============================================================================

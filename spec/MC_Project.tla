----------------------------- MODULE MC_Project -----------------------------
(* Explores projects over many runs: edits of configuration and documents,   *)
(* builds, downloads that fail, and a disk failure or the death of the run   *)
(* at every single step. With Record, the history is kept and printed (used  *)
(* with TLC's simulation mode to generate histories for the real program).   *)
EXTENDS BrackProject, Json
CONSTANTS MaxBuilds, MaxFaults, MaxEdits, Record
VARIABLES cfg, docs, disk, run, memory, down, out0, fault, left, hist
vars == <<cfg, docs, disk, run, memory, down, out0, fault, left, hist>>

TextHook == <<FALSE, FALSE, FALSE, TRUE>>
Plugin(n, v, f) == [name |-> n, owner |-> "o", repo |-> "r", version |-> v, flags |-> f]
Config(b, ps) == [st |-> "ok", backend |-> b, plugins |-> ps]
Configs == {Config("html", {Plugin("m", "v1", NoHook)}), Config("tex", {Plugin("m", "v1", NoHook)}),
            Config("html", {Plugin("m", "v2", NoHook)}), Config("html", {Plugin("m", "v1", TextHook)}),
            Config("html", {Plugin("m", "v1", NoHook), Plugin("n", "v1", NoHook)}),
            Config("html", {Plugin("m", "v1", TextHook), Plugin("n", "v1", TextHook)}),
            Config("html", {Plugin("m", "bad", NoHook)}), Config("html", {}),
            [st |-> "bad", backend |-> "", plugins |-> {}], [st |-> "missing", backend |-> "", plugins |-> {}]}
Doc(n, c) == [name |-> n \o Suffix, content |-> c]
DocSets == {{Doc(<<"a">>, "plain")}, {Doc(<<"a">>, "usesm")}, {Doc(<<"a">>, "plain"), Doc(<<"b">>, "usesn")},
            {[name |-> <<"a">>, content |-> "plain"]}, {Doc(<<"a">>, "wrong")}}
MCLoads(p, b) == p.version # "bad"
MCCompatible(ps) == \A p, q \in ps : p # q => \A h \in 1..4 : ~(p.flags[h] /\ q.flags[h])
MCOutput(ps, b, d) ==
   LET of(n) == {p \in ps : p.name = n}
       hook == IF \E p \in ps : p.flags[4] THEN "h" ELSE ""
       uses(n) == IF of(n) = {} THEN <<>> ELSE <<hook \o n \o (CHOOSE p \in of(n) : TRUE).version \o b>>
   IN CASE d.content = "plain" -> <<hook \o "plain">> [] d.content = "usesm" -> uses("m")
        [] d.content = "usesn" -> uses("n") [] OTHER -> <<>>
Urls == UNION {{Url(k) : k \in Designated(c)} : c \in Configs}
Downs == {{}, Urls} \cup {{u} : u \in {Url(k) : k \in Designated(cfg)}}

Note(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Idle == [BuildInit EXCEPT !.pc = "idle"]
Init == /\ cfg \in (IF Record THEN Configs ELSE {Config("html", {Plugin("m", "v1", NoHook)})}) /\ docs = {Doc(<<"a">>, "plain")}
        /\ disk = [plugins |-> {}, torn |-> {}, parts |-> {}, out |-> {}] /\ run = Idle /\ memory = Fresh
        /\ down = {} /\ out0 = {} /\ fault = "none"
        /\ left = [builds |-> MaxBuilds, faults |-> MaxFaults, edits |-> MaxEdits]
        /\ hist = IF Record THEN <<[op |-> "cfg", cfg |-> cfg], [op |-> "docs", docs |-> docs]>> ELSE <<>>
AtRest == run.pc = "idle"
EditConfig == /\ AtRest /\ left.edits > 0 /\ left.builds > 0 /\ \E c \in Configs \ {cfg} : cfg' = c /\ Note([op |-> "cfg", cfg |-> c])
              /\ left' = [left EXCEPT !.edits = @ - 1] /\ UNCHANGED <<docs, disk, run, memory, down, out0, fault>>
EditDocs == /\ AtRest /\ left.edits > 0 /\ left.builds > 0 /\ \E d \in DocSets \ {docs} : docs' = d /\ Note([op |-> "docs", docs |-> d])
            /\ left' = [left EXCEPT !.edits = @ - 1] /\ UNCHANGED <<cfg, disk, run, memory, down, out0, fault>>
Start == /\ AtRest /\ left.builds > 0 /\ run' = BuildInit /\ out0' = disk.out /\ fault' = "none"
         /\ \E x \in Downs : /\ down' = x /\ (x # {} => left.faults > 0)
                              /\ left' = [left EXCEPT !.builds = @ - 1, !.faults = IF x = {} THEN @ ELSE @ - 1]
         /\ UNCHANGED <<cfg, docs, disk, memory, hist>>
Keep == UNCHANGED <<cfg, docs, memory, down, out0, fault, left, hist>>
Step == \/ run.pc = "config" /\ run' = ToConfig(cfg, run, disk) /\ UNCHANGED disk
        \/ run.pc = "fetch" /\ run' = Fetch(run, down) /\ UNCHANGED disk
        \/ run.pc = "part" /\ \E k \in run.have : LET x == WritePart(run, disk, k) IN run' = x.run /\ disk' = x.disk
        \/ run.pc = "rename" /\ LET x == Rename(run, disk) IN run' = x.run /\ disk' = x.disk
        \/ run.pc = "load" /\ run' = ToLoad(cfg, docs, run, disk) /\ UNCHANGED disk
        \/ run.pc = "docs" /\ IF run.docs = {} THEN run' = End(run, "ok") /\ UNCHANGED disk
                              ELSE \E d \in run.docs : LET x == WriteOut(cfg, run, disk, d) IN run' = x.run /\ disk' = x.disk
Go == Step /\ Keep
Hit == \/ run' = End(run, "killed") /\ fault' = "kill"
       \/ run' = End(run, "fail") /\ fault' = "fail"
(* the disk refuses the next change, or takes half of it; the run fails or dies *)
Trouble == /\ run.pc \notin {"idle", "end"} /\ left.faults > 0 /\ left' = [left EXCEPT !.faults = @ - 1]
           /\ \/ run' = End(run, "killed") /\ fault' = "kill" /\ UNCHANGED disk
              \/ run.pc \in {"part", "rename"} /\ run' = End(run, "fail") /\ fault' = "fail"
                 /\ disk' = [disk EXCEPT !.parts = {}]
              \/ run.pc = "part" /\ \E k \in run.have : disk' = HalfPart(disk, k) /\ Hit
              \/ run.pc = "docs" /\ \E d \in {d \in run.docs : Generable(cfg, d)} :
                    disk' = HalfOut(cfg, disk, d) /\ Hit
           /\ UNCHANGED <<cfg, docs, memory, down, out0, hist>>
Outcome == [cfg |-> cfg, docs |-> docs, down |-> down, fault |-> fault, st |-> run.st, reqs |-> run.reqs, twice |-> FALSE,
            out0 |-> out0, out1 |-> disk.out, listed |-> NamesOf(disk.out), same |-> TRUE]
Finish == /\ run.pc = "end" /\ memory' = Remember(Outcome, memory) /\ run' = Idle
          /\ Note([op |-> "build", down |-> down, fault |-> fault, at |-> run.nth, st |-> run.st])
          /\ UNCHANGED <<cfg, docs, disk, down, out0, fault, left>>
Next == EditConfig \/ EditDocs \/ Start \/ Go \/ Trouble \/ Finish
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Go \/ Finish)

(* what is judged of real builds holds of the machine's *)
Judged == run.pc = "end" => JudgeBuild(Outcome, memory) = {}
(* what is remembered is true *)
Knows == AtRest => /\ memory.must \subseteq disk.plugins /\ disk.plugins \subseteq Perhaps(memory)
(* whatever happened before, a build in which nothing goes wrong does what it should (C16-C18) *)
Recovers == AtRest =>
   LET x == BuildRun(cfg, docs, {}, BuildInit, disk)
       o == [Outcome EXCEPT !.down = {}, !.fault = "none", !.st = x.run.st, !.reqs = x.run.reqs, !.out0 = disk.out, !.out1 = x.disk.out,
                            !.listed = NamesOf(x.disk.out)]
   IN /\ JudgeBuild(o, memory) = {}
      /\ x.run.st = "ok" <=> /\ Usable(cfg) /\ \A d \in Documents(docs) : Generable(cfg, d)
      /\ x.run.st = "ok" => BuildRun(cfg, docs, Urls, BuildInit, x.disk).run.st = "ok"   \* now without network
(* a file that builds would use is complete at every moment *)
Complete == disk.torn = {} /\ (run.pc = "rename" => run.now \cap disk.plugins = {})
Terminates == (run.pc # "idle") ~> (run.pc = "idle")
Over == AtRest /\ left.builds = 0
Printed == Record /\ Over => PrintT("HIST " \o ToJson(hist))
=============================================================================

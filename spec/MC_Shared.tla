------------------------------ MODULE MC_Shared ------------------------------
(* All interleavings of two or three commands in one project, with deaths.   *)
EXTENDS BrackShared, Json
CONSTANTS Mixes, MaxKills, Record
VARIABLES acts, start, docs, runs, disk, fault, seen, kills, hist
vars == <<acts, start, docs, runs, disk, fault, seen, kills, hist>>
TextHook == <<FALSE, FALSE, FALSE, TRUE>>
Plugin(n, v, f) == [name |-> n, owner |-> "o", repo |-> "r", version |-> v, flags |-> f]
Config(ps) == [st |-> "ok", backend |-> "html", document |-> "d", plugins |-> ps]
M == Plugin("m", "v1", NoHook)
N == Plugin("n", "v1", TextHook)
Doc(n, c) == [name |-> n \o Suffix, content |-> c]
MCLoads(p, b) == p.version # "bad"
MCCompatible(ps) == \A p, q \in ps : p # q => \A h \in 1..4 : ~(p.flags[h] /\ q.flags[h])
MCOffered(ps, b) == {p.name : p \in ps}
MCOutput(ps, b, d) == IF d.content = "usesm" /\ M \notin ps THEN <<>>
                      ELSE <<d.content \o (IF \E p \in ps : p.flags[4] THEN "h" ELSE "")>>
Act(k, a, dn) == [kind |-> k, arg |-> a, down |-> dn]
Build == Act("build", <<>>, {})
Cut == Act("build", <<>>, {Url(Key(M, "html"))})
Open == Act("open", <<>>, {})
GitHub == <<"g","i","t","h","u","b">>
Add(n) == Act("add", GitHub \o <<":", "o", "/">> \o n \o <<"@", "1">>, {})
New == Act("new", <<"p">>, {})
MixSet == CASE Mixes = "two" -> {<<Build, Build>>, <<Build, Open>>, <<Build, Cut>>, <<Open, Open>>, <<Build, Add(<<"x">>)>>, <<Open, Add(<<"x">>)>>,
                                 <<Add(<<"x">>), Add(<<"y">>)>>, <<Add(<<"x">>), Add(<<"x">>)>>, <<New, New>>, <<Cut, Open>>, <<Add(<<"m">>), Build>>}
            [] Mixes = "three" -> {<<Build, Build, Open>>, <<Build, Add(<<"x">>), Add(<<"y">>)>>, <<New, New, New>>, <<Build, Cut, Build>>}
Starts == {Config({M}), Config({M, N}), Config({})}
DocSets == {{Doc(<<"a">>, "plain")}, {Doc(<<"a">>, "usesm"), Doc(<<"b">>, "plain")}}
Init == /\ acts \in MixSet /\ start \in Starts /\ docs \in DocSets
        /\ disk \in {SharedDisk(start), [SharedDisk(start) EXCEPT !.plugins = {Key(M, "html")} \cap Designated(start)]}
        /\ runs = [w \in 1..Len(acts) |-> RunInit] /\ fault = [w \in 1..Len(acts) |-> "none"] /\ seen = {start}
        /\ kills = MaxKills /\ hist = <<>>
Stored == {Key(M, "html")} \cap Designated(start)
Go(w) == /\ runs[w].st = "run"
         /\ \E x \in SharedStep(w, acts[w], runs[w], disk, docs) :
               /\ runs' = [runs EXCEPT ![w] = x.r] /\ disk' = x.d /\ seen' = seen \cup {x.d.cfg}
         /\ hist' = IF Record THEN Append(hist, [who |-> w, at |-> runs[w].pc]) ELSE hist
         /\ UNCHANGED <<acts, start, docs, fault, kills>>
Die(w) == /\ runs[w].st = "run" /\ kills > 0 /\ kills' = kills - 1
          /\ runs' = [runs EXCEPT ![w] = SharedEnd(@, "killed")] /\ fault' = [fault EXCEPT ![w] = "kill"]
          /\ hist' = IF Record THEN Append(hist, [who |-> w, at |-> "kill"]) ELSE hist
          /\ UNCHANGED <<acts, start, docs, disk, seen>>
Next == \E w \in 1..Len(acts) : Go(w) \/ Die(w)
Spec == Init /\ [][Next]_vars /\ \A w \in 1..3 : WF_vars(w \in 1..Len(acts) /\ Go(w))
Over == \A w \in 1..Len(acts) : runs[w].st # "run"
(* the disk at the beginning is not kept: whether M was there is seen from the requests *)
Had == {k \in Stored : \A w \in 1..Len(acts) : Url(k) \notin runs[w].reqs}
Outcome == [cfg |-> start, docs |-> docs, memory |-> [must |-> {}, may |-> Stored],
            runs |-> [w \in 1..Len(acts) |-> acts[w] @@ [st |-> runs[w].st, fault |-> fault[w], reqs |-> runs[w].reqs, labels |-> runs[w].labels,
                                                       whole |-> \E p \in disk.places : p.by = w /\ p.whole]],
            seen |-> seen, last |-> disk.cfg, out0 |-> {}, out1 |-> disk.out]
Judged == Over => JudgeShared(Outcome) = {}
Sound == disk.torn = {} /\ disk.cfg.st = "ok"
(* whatever happened, a build on its own afterwards does what it should *)
Afterwards == Over =>
   LET x == BuildRun(disk.cfg, docs, {}, BuildInit, [plugins |-> disk.plugins, torn |-> disk.torn, parts |-> {}, out |-> disk.out])
       o == [cfg |-> disk.cfg, docs |-> docs, down |-> {}, fault |-> "none", st |-> x.run.st, reqs |-> x.run.reqs, twice |-> FALSE, out0 |-> disk.out,
             out1 |-> x.disk.out, listed |-> NamesOf(x.disk.out), same |-> TRUE]
   IN JudgeBuild(o, Settled(Outcome)) = {}
Ends == <>Over
Names == [j \in 1..Len(acts) |-> [kind |-> acts[j].kind, arg |-> acts[j].arg, down |-> acts[j].down]]
Printed == Record /\ Over => PrintT("HIST " \o ToJson([acts |-> Names, cfg |-> start, docs |-> docs, steps |-> hist]))
=============================================================================

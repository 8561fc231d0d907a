----------------------------- MODULE MC_Manage -----------------------------
(* Explores brack add for every argument over a small alphabet and every     *)
(* configuration of a family, and brack new, with downloads that fail and a  *)
(* disk that refuses or a process that dies at every step.                   *)
EXTENDS BrackProject
CONSTANTS MaxArg, What
VARIABLES what, arg, cfg0, down, s, fault
vars == <<what, arg, cfg0, down, s, fault>>
MCLoads(p, b) == TRUE
MCCompatible(ps) == TRUE
MCOutput(ps, b, d) == <<"">>

Alphabet == {"x", ".", ":", "/", "@"}
RECURSIVE Strings(_)
Strings(n) == IF n = 0 THEN {<<>>} ELSE LET t == Strings(n - 1) IN t \cup {Append(w, c) : w \in {w \in t : Len(w) = n - 1}, c \in Alphabet}
GitHub == <<"g","i","t","h","u","b">>
Args == Strings(MaxArg) \cup {GitHub \o w : w \in Strings(MaxArg)} \cup {GitHub \o <<":", "x", "/">> \o w : w \in Strings(MaxArg)}
Old(n, f) == [name |-> n, owner |-> "o", repo |-> "r", version |-> "v", flags |-> f]
Conf(ps) == [st |-> "ok", document |-> "d", plugins |-> ps]
Confs == {Conf({}), Conf({Old("x", <<TRUE, FALSE, FALSE, TRUE>>)}), Conf({Old("y", NoHook), Old("", NoHook)}),
          [Conf({}) EXCEPT !.st = "bad"], [Conf({}) EXCEPT !.st = "missing"]}
Names == {<<"p">>, <<>>, <<"p", ".", "q">>}
Init == \/ What = "add" /\ what = What /\ arg \in Args /\ cfg0 \in Confs
           /\ down \in {{}} \cup (IF ParseArg(arg).ok THEN {{AddUrl(ParseArg(arg))}} ELSE {})
           /\ s = AddInit(cfg0) /\ fault = "none"
        \/ What = "new" /\ what = What /\ arg \in Names /\ cfg0 \in {TRUE, FALSE} /\ down = {} /\ s = NewInit /\ fault = "none"
Running == s.st = "run"
Go == /\ Running /\ s' = (IF what = "add" THEN AddStep(s, arg, down) ELSE NewStep(s, arg, cfg0))
      /\ UNCHANGED <<what, arg, cfg0, down, fault>>
Trouble == /\ Running /\ fault = "none"
           /\ IF what = "add"
              THEN \E t \in {s, AddTorn(s)} : \/ s' = AddEnd(t, "killed") /\ fault' = "kill"
                                              \/ s.at \in {"store", "write", "rename"} /\ fault' = "fail"
                                                 /\ s' = AddEnd([t EXCEPT !.part = "none"], "fail")
              ELSE \/ s' = [s EXCEPT !.st = "killed"] /\ fault' = "kill"
                   \/ s' = NewFail(s) /\ fault' = "fail" /\ s.next <= Len(Wanted(arg))
           /\ UNCHANGED <<what, arg, cfg0, down>>
Next == Go \/ Trouble
Spec == Init /\ [][Next]_vars /\ WF_vars(Go)
Judged == s.st # "run" =>
   IF what = "add"
   THEN JudgeAdd([cfg0 |-> cfg0, cfg1 |-> s.cfg, same |-> s.cfg = cfg0, arg |-> arg, down |-> down, fault |-> fault, st |-> s.st, reqs |-> s.reqs,
                  twice |-> FALSE]) = {}
   ELSE JudgeNew(NewSeen(s, arg, cfg0, fault)) = {}
(* the configuration is never anything but the old or the new one *)
Atomic == what = "add" => s.cfg = cfg0 \/ Added(cfg0, s.cfg, ParseArg(arg))
(* an argument has at most one reading, and it is the one that is taken *)
ReadOnce == what = "add" => LET t == Readings(arg) p == ParseArg(arg) IN
   /\ Cardinality(t) <= 1 /\ p.ok = (t # {})
   /\ \A x \in t : /\ p.kind = SubSeq(arg, 1, x[1] - 1) /\ p.owner = SubSeq(arg, x[1] + 1, x[2] - 1)
                    /\ p.repo = SubSeq(arg, x[2] + 1, x[3] - 1) /\ p.version = SubSeq(arg, x[3] + 1, Len(arg))
Ends == <>(s.st # "run")
=============================================================================

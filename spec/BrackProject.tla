---------------------------- MODULE BrackProject ----------------------------
(* Projects: brack build, brack add and brack new on a directory that        *)
(* survives from run to run, with a network that may refuse any download, a  *)
(* disk that may refuse any change and runs that may die at any moment.      *)
(*                                                                           *)
(* config  == [st, backend, plugins]   st: "ok", or "missing", "bad"         *)
(*   plugin == [name, owner, repo, version, flags]                           *)
(* document== [name, content]          name: characters                      *)
(* An output file is [name, text].                                           *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC
CONSTANTS
   Loads(_, _),     \* the release of this plugin can be loaded as configured; (plugin, backend)
   Compatible2(_),  \* these plugins form a set (no hook twice)
   Output(_, _, _)  \* <<text>> generated for a document, <<>> if it cannot be; (plugins, backend, document)

(* --- names --- *)
Suffix == <<".", "[", "]">>
IsDocument(d) == Len(d.name) > 3 /\ SubSeq(d.name, Len(d.name) - 2, Len(d.name)) = Suffix
Stem(d) == SubSeq(d.name, 1, Len(d.name) - 3)
RECURSIVE Spell(_)
Spell(cs) == IF cs = <<>> THEN "" ELSE Head(cs) \o Spell(Tail(cs))
OutName(d, backend) == Spell(Stem(d)) \o "." \o backend
Documents(docs) == {d \in docs : IsDocument(d)}

(* --- what a configuration designates --- *)
Key(p, backend) == [name |-> p.name, owner |-> p.owner, repo |-> p.repo, version |-> p.version,
                    backend |-> backend, flags |-> p.flags]
Site == "https://github.com/"
Release(o, r, v, f) == Site \o o \o "/" \o r \o "/releases/download/" \o v \o "/" \o f \o ".wasm"
Url(k) == Release(k.owner, k.repo, k.version, k.name \o "." \o k.backend)
Designated(cfg) == IF cfg.st = "ok" THEN {Key(p, cfg.backend) : p \in cfg.plugins} ELSE {}
Usable(cfg) == cfg.st = "ok" /\ (\A p \in cfg.plugins : Loads(p, cfg.backend)) /\ Compatible2(cfg.plugins)
TextOf(cfg, d) == Output(cfg.plugins, cfg.backend, d)
Generable(cfg, d) == TextOf(cfg, d) # <<>>

-----------------------------------------------------------------------------
(* A build as a machine: one step per request and per change of the disk.    *)
(*   run == [pc, want (keys still to fetch), have, now (key being stored),   *)
(*           docs (documents still to write), reqs, st, nth]                 *)
(*   disk== [plugins (keys whose file is there and complete), torn (keys     *)
(*           whose file is there but incomplete: never to happen), parts     *)
(*           (files with temporary names), out]                              *)
BuildInit == [pc |-> "config", want |-> {}, have |-> {}, now |-> {}, docs |-> {}, reqs |-> {}, st |-> "run", nth |-> 0]
End(run, st) == [run EXCEPT !.pc = "end", !.st = st]
ToConfig(cfg, run, disk) ==
   IF cfg.st # "ok" THEN End(run, "fail")
   ELSE [run EXCEPT !.pc = "fetch", !.want = Designated(cfg) \ (disk.plugins \cup disk.torn)]
(* all downloads are awaited before the first one is stored *)
Fetch(run, down) ==
   LET urls == {Url(k) : k \in run.want}
   IN IF \E k \in run.want : Url(k) \in down THEN End([run EXCEPT !.reqs = urls], "fail")
      ELSE [run EXCEPT !.reqs = urls, !.have = run.want, !.pc = IF run.want = {} THEN "load" ELSE "part"]
(* then each is written under a temporary name and moved to its own *)
WritePart(run, disk, k) == [run |-> [run EXCEPT !.now = {k}, !.pc = "rename", !.nth = @ + 1],
                            disk |-> [disk EXCEPT !.parts = @ \cup {k}]]
Rename(run, disk) ==
   LET k == CHOOSE k \in run.now : TRUE
       rest == run.have \ {k}
   IN [run |-> [run EXCEPT !.have = rest, !.now = {}, !.pc = IF rest = {} THEN "load" ELSE "part", !.nth = @ + 1],
       disk |-> [disk EXCEPT !.parts = @ \ {k}, !.plugins = @ \cup {k}]]
ToLoad(cfg, docs, run, disk) ==
   IF ~Usable(cfg) \/ Designated(cfg) \cap disk.torn # {} THEN End(run, "fail")
   ELSE [run EXCEPT !.pc = "docs", !.docs = Documents(docs)]
WriteOut(cfg, run, disk, d) ==
   IF ~Generable(cfg, d) THEN [run |-> End(run, "fail"), disk |-> disk]
   ELSE [run |-> [run EXCEPT !.docs = @ \ {d}, !.nth = @ + 1],
         disk |-> [disk EXCEPT !.out = {o \in @ : o.name # OutName(d, cfg.backend)}
                                       \cup {[name |-> OutName(d, cfg.backend), text |-> TextOf(cfg, d)[1]]}]]
(* writing that is cut short *)
HalfPart(disk, k) == [disk EXCEPT !.parts = @ \cup {k}]
HalfOut(cfg, disk, d) == [disk EXCEPT !.out = {o \in @ : o.name # OutName(d, cfg.backend)}
                                              \cup {[name |-> OutName(d, cfg.backend), text |-> "half"]}]

(* a whole build in which nothing goes wrong but the downloads in down *)
RECURSIVE BuildRun(_, _, _, _, _)
BuildRun(cfg, docs, down, run, disk) ==
   CASE run.pc = "config" -> BuildRun(cfg, docs, down, ToConfig(cfg, run, disk), disk)
     [] run.pc = "fetch" -> BuildRun(cfg, docs, down, Fetch(run, down), disk)
     [] run.pc = "part" -> LET x == WritePart(run, disk, CHOOSE k \in run.have : TRUE) IN BuildRun(cfg, docs, down, x.run, x.disk)
     [] run.pc = "rename" -> LET x == Rename(run, disk) IN BuildRun(cfg, docs, down, x.run, x.disk)
     [] run.pc = "load" -> BuildRun(cfg, docs, down, ToLoad(cfg, docs, run, disk), disk)
     [] run.pc = "docs" -> IF run.docs = {} THEN [run |-> End(run, "ok"), disk |-> disk]
                           ELSE LET x == WriteOut(cfg, run, disk, CHOOSE d \in run.docs : TRUE)
                                IN BuildRun(cfg, docs, down, x.run, x.disk)
     [] OTHER -> [run |-> run, disk |-> disk]

-----------------------------------------------------------------------------
(* What a finished run may look like from outside. memory == [must, may]:    *)
(* the keys whose release certainly / possibly is in the plugins directory.  *)
(*   b == [cfg, docs, down (URLs that cannot be had), fault ("none", "fail"  *)
(*         or "kill": what really happened), st, reqs (set), twice (some URL *)
(*         was asked for repeatedly), out0, out1, listed,            *)
(*         same (configuration and documents are as before)]                    *)
Fresh == [must |-> {}, may |-> {}]
Perhaps(m) == m.must \cup m.may
Like(m, k) == \E j \in Perhaps(m) : Url(j) = Url(k)       \* hooks alone do not change the file
Broken(b, m) ==  \* the build cannot have succeeded
   \/ b.cfg.st # "ok"
   \/ \E k \in Designated(b.cfg) : Url(k) \in b.down /\ (Url(k) \in b.reqs \/ ~Like(m, k))
   \/ ~Usable(b.cfg)
   \/ \E d \in Documents(b.docs) : ~Generable(b.cfg, d)
MayLack(b, m) == \E k \in Designated(b.cfg) \ m.must : Url(k) \in b.down
NamesOf(os) == {o.name : o \in os}
Expected(b) == {[name |-> OutName(d, b.cfg.backend), text |-> TextOf(b.cfg, d)[1]] : d \in Documents(b.docs)}
Untouched(b, names) == {o \in b.out1 : o.name \notin names} = {o \in b.out0 : o.name \notin names}
Attempted(b) == \* outputs a failing or dying build may have written
   IF ~Usable(b.cfg) \/ \E k \in Designated(b.cfg) : Url(k) \in b.down /\ Url(k) \in b.reqs THEN {}
   ELSE {d \in Documents(b.docs) : Generable(b.cfg, d)}
When(c, what) == IF c THEN {what} ELSE {}
JudgeRequests(b, m) ==
   LET d == Designated(b.cfg)
   IN When(~(b.reqs \subseteq {Url(k) : k \in d}), "requested something else")
      \cup When(\E k \in d \cap m.must : Url(k) \in b.reqs, "downloaded again")
      \cup When(b.twice, "downloaded twice")
      \cup When(b.st = "ok" /\ \E k \in d : ~Like(m, k) /\ Url(k) \notin b.reqs, "used without download")
JudgeOutcome(b, m) ==
   When(b.st \notin {"ok", "fail"} /\ ~(b.st = "killed" /\ b.fault = "kill"), "ended with " \o b.st)
   \cup When(b.st = "ok" /\ Broken(b, m), "succeeded")
   \cup When(b.st = "fail" /\ ~Broken(b, m) /\ ~MayLack(b, m) /\ b.fault = "none", "failed")
JudgeFiles(b, m) ==
   When(~b.same, "configuration or documents changed") \cup
   IF b.st = "ok"
   THEN IF Broken(b, m) THEN {}
        ELSE LET e == Expected(b) IN
             When(~(e \subseteq b.out1), "output")
             \cup When(~Untouched(b, NamesOf(e)), "other files in out")
             \cup When(~(NamesOf(e) \subseteq b.listed /\ b.listed \subseteq NamesOf(b.out1)), "list")
   ELSE LET a == Attempted(b)
            names == {OutName(d, b.cfg.backend) : d \in a}
        IN When(~Untouched(b, names), "output of a document that was not generated")
           \cup When(b.fault = "none" /\ \E o \in b.out1 : o.name \in names /\ o \notin b.out0
                       /\ o \notin {[name |-> OutName(d, b.cfg.backend), text |-> TextOf(b.cfg, d)[1]] : d \in a}, "output")
JudgeBuild(b, m) == JudgeRequests(b, m) \cup JudgeOutcome(b, m) \cup JudgeFiles(b, m)
(* what is known about the plugins directory after it *)
Remember(b, m) ==
   LET d == Designated(b.cfg)
       complete == b.cfg.st = "ok" /\ b.fault = "none" /\ \A k \in d : k \in m.must \/ Url(k) \notin b.down
       certain == IF complete THEN {k \in d : \E p \in b.cfg.plugins : p.name = k.name /\ Loads(p, b.cfg.backend)} ELSE m.must \cap d
   IN IF b.cfg.st # "ok" THEN m
      ELSE [must |-> certain, may |-> Perhaps(m) \cup {k \in d : Url(k) \in b.reqs \ b.down}]

-----------------------------------------------------------------------------
(* brack add (C19) *)
Absent == [ok |-> FALSE, owner |-> <<>>, repo |-> <<>>, version |-> <<>>, kind |-> <<>>]
First(cs, c) == LET s == {i \in 1..Len(cs) : cs[i] = c} IN IF s = {} THEN 0 ELSE CHOOSE i \in s : \A j \in s : i <= j
Before(cs, i) == SubSeq(cs, 1, i - 1)
After(cs, i) == SubSeq(cs, i + 1, Len(cs))
Has(cs, c) == First(cs, c) # 0
ParseArg(cs) == \* KIND:OWNER/REPO@VERSION
   LET c == First(cs, ":")  r1 == After(cs, c)
       s == First(r1, "/")  r2 == After(r1, s)
       a == First(r2, "@")
   IN IF c = 0 THEN Absent ELSE IF s = 0 THEN Absent ELSE IF a = 0 THEN Absent
      ELSE LET kind == Before(cs, c) owner == Before(r1, s) repo == Before(r2, a) version == After(r2, a)
           IN IF \/ owner = <<>> \/ Has(owner, ":") \/ Has(owner, "@")
                 \/ repo = <<>> \/ Has(repo, "/") \/ Has(repo, ":") \/ version = <<>>
              THEN Absent ELSE [ok |-> TRUE, owner |-> owner, repo |-> repo, version |-> version, kind |-> kind]
UpToDot(cs) == IF Has(cs, ".") THEN Before(cs, First(cs, ".")) ELSE cs
NoHook == <<FALSE, FALSE, FALSE, FALSE>>
(* a == [cfg0, cfg1, same (the file is as before), arg, down, fault, st, reqs, twice] *)
(* the same, declaratively: the decompositions of an argument *)
Free(cs, set) == \A j \in 1..Len(cs) : cs[j] \notin set
Readings(cs) ==
   {t \in (1..Len(cs)) \X (1..Len(cs)) \X (1..Len(cs)) :
      /\ t[1] < t[2] /\ t[2] < t[3] /\ cs[t[1]] = ":" /\ cs[t[2]] = "/" /\ cs[t[3]] = "@"
      /\ Free(SubSeq(cs, 1, t[1] - 1), {":"})
      /\ t[2] > t[1] + 1 /\ Free(SubSeq(cs, t[1] + 1, t[2] - 1), {":", "/", "@"})
      /\ t[3] > t[2] + 1 /\ Free(SubSeq(cs, t[2] + 1, t[3] - 1), {":", "/", "@"})
      /\ t[3] < Len(cs)}
AddPlugin(p) == [name |-> Spell(UpToDot(p.repo)), owner |-> Spell(p.owner), repo |-> Spell(p.repo),
                 version |-> Spell(p.version), flags |-> NoHook]
AddUrl(p) == Release(Spell(p.owner), Spell(p.repo), Spell(p.version), Spell(p.repo))
CanAdd(cfg, p) == p.ok /\ p.kind = <<"g","i","t","h","u","b">> /\ cfg.st = "ok" /\ AddPlugin(p).name \notin {q.name : q \in cfg.plugins}
Added(cfg0, cfg1, p) == cfg1.st = "ok" /\ cfg1.document = cfg0.document /\ cfg1.plugins = cfg0.plugins \cup {AddPlugin(p)}
JudgeAdd(a) ==
   LET p == ParseArg(a.arg)
       can == CanAdd(a.cfg0, p)
       good == IF can THEN AddUrl(p) \notin a.down ELSE FALSE
   IN When(a.st \notin {"ok", "fail"} /\ ~(a.st = "killed" /\ a.fault = "kill"), "ended with " \o a.st)
      \cup When(a.st = "ok" /\ ~good, "added")
      \cup When(a.st = "fail" /\ good /\ a.fault = "none", "not added")
      \cup When(a.st = "fail" /\ ~a.same, "configuration changed by a failure")
      \cup When(a.st = "killed" /\ ~a.same /\ ~(IF good THEN Added(a.cfg0, a.cfg1, p) ELSE FALSE), "configuration torn")
      \cup (IF ~(a.st = "ok" /\ good) THEN {}
            ELSE When(~Added(a.cfg0, a.cfg1, p), "configuration")
                 \cup When(AddUrl(p) \notin a.reqs, "not downloaded"))
      \cup When(~(a.reqs \subseteq (IF p.ok THEN {AddUrl(p)} ELSE {})), "requested something else")

(* The same as a machine: at, what the disk holds (the plugin's file, the new configuration under its temporary   *)
(* name, the configuration itself).                                          *)
AddInit(cfg) == [at |-> "read", reqs |-> {}, file |-> "none", part |-> "none", cfg |-> cfg, st |-> "run"]
AddEnd(s, st) == [s EXCEPT !.at = "end", !.st = st]
AddStep(s, arg, down) ==
   LET p == ParseArg(arg) IN
   CASE s.at = "read" -> IF CanAdd(s.cfg, p) THEN [s EXCEPT !.at = "fetch"] ELSE AddEnd(s, "fail")
     [] s.at = "fetch" -> LET r == [s EXCEPT !.reqs = {AddUrl(p)}]
                          IN IF AddUrl(p) \in down THEN AddEnd(r, "fail") ELSE [r EXCEPT !.at = "store"]
     [] s.at = "store" -> [s EXCEPT !.file = "whole", !.at = "write"]
     [] s.at = "write" -> [s EXCEPT !.part = "whole", !.at = "rename"]
     [] s.at = "rename" -> AddEnd([s EXCEPT !.part = "none", !.cfg.plugins = @ \cup {AddPlugin(p)}], "ok")
(* the disk refuses, or takes half of it *)
AddTorn(s) == CASE s.at = "store" -> [s EXCEPT !.file = "half"] [] s.at = "write" -> [s EXCEPT !.part = "half"] [] OTHER -> s

(* brack new (C20)                                                           *)
(* n == [name (characters), taken (something of that name exists, or its     *)
(*       directory cannot be made), fault, st, made (paths relative to the   *)
(*       project with type and text), others (the rest is as before),        *)
(*       left (what is at the name afterwards is what was there), cfg1]      *)
JudgeNew(n) ==
   LET files == {f \in n.made : f.type = "file"}
       fresh(names) == {f.path : f \in n.made} = names
   IN When(n.st \notin {"ok", "fail"} /\ ~(n.st = "killed" /\ n.fault = "kill"), "ended with " \o n.st)
      \cup When(n.st = "ok" /\ n.taken, "created over something")
      \cup When(n.st = "fail" /\ ~n.taken /\ n.fault = "none", "not created")
      \cup When(~n.others, "changed something else")
      \cup When((n.st = "fail" \/ n.taken) /\ ~n.left, "left something")
      \cup (IF n.st # "ok" \/ n.taken THEN {}
            ELSE When(~fresh({"docs", "docs/main.[]", "Brack.toml", ".gitignore"}), "files")
                 \cup When(\E f \in n.made : f.type # (IF f.path = "docs" THEN "dir" ELSE "file"), "types")
                 \cup When(\E f \in files : f.path = "docs/main.[]" /\ f.text # "", "main document")
                 \cup When(n.cfg1.st # "ok" \/ n.cfg1.plugins # {} \/ n.cfg1.backend # "", "configuration")
                 \cup When(n.cfg1.name # Spell(n.name) \/ n.cfg1.version # "0.1.0", "name or version")
                 \cup When(\E f \in files : f.path = ".gitignore" /\ ~({"plugins", "out"} \subseteq {f.lines[i] : i \in 1..Len(f.lines)}), "ignored files"))
(* The same as a machine: the project directory must be made first and fails if there is something of that name; *)
(* whatever fails after that, everything made so far is removed again.       *)
Config1(name) == [st |-> "ok", plugins |-> {}, backend |-> "", name |-> Spell(name), version |-> "0.1.0"]
NoConfig == [st |-> "missing", plugins |-> {}, backend |-> "", name |-> "", version |-> ""]
Dir(p) == [path |-> p, type |-> "dir", text |-> "", lines |-> <<>>]
File(p, text, lines) == [path |-> p, type |-> "file", text |-> text, lines |-> lines]
Wanted(name) == <<Dir("docs"), File("docs/main.[]", "", <<"">>), File("Brack.toml", "config", <<"config">>),
                  File(".gitignore", "plugins out", <<"plugins", "out">>)>>
NewInit == [made |-> {}, root |-> FALSE, next |-> 0, st |-> "run"]
NewStep(s, name, taken) ==
   IF s.next = 0 THEN IF taken THEN [s EXCEPT !.st = "fail"] ELSE [s EXCEPT !.root = TRUE, !.next = 1]
   ELSE IF s.next > Len(Wanted(name)) THEN [s EXCEPT !.st = "ok"]
   ELSE [s EXCEPT !.made = @ \cup {Wanted(name)[s.next]}, !.next = @ + 1]
NewFail(s) == [s EXCEPT !.made = {}, !.root = FALSE, !.st = "fail"]
NewSeen(s, name, taken, fault) ==
   [name |-> name, taken |-> taken, fault |-> fault, st |-> s.st, made |-> s.made, others |-> TRUE, left |-> ~s.root,
    cfg1 |-> IF \E f \in s.made : f.path = "Brack.toml" THEN Config1(name) ELSE NoConfig]
=============================================================================

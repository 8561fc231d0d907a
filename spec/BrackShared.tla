----------------------------- MODULE BrackShared -----------------------------
(* Several commands at the same time in one project (C27): brack build, a    *)
(* language server that is told to open the project, brack add and brack new,*)
(* interleaved at every access to the disk, each of which may be killed.     *)
(*   action == [kind ("build", "open", "add", "new"), arg (characters; what  *)
(*              to add, or the name), down (URLs it cannot have)]            *)
EXTENDS BrackProject
CONSTANT Offered(_, _)     \* the completions offered for a set of plugins; (plugins, backend)

(* What is on the disk. parts: the files under temporary names, each of one  *)
(* run; cparts: the same for the configuration; places: what brack new made  *)
(*   disk == [plugins, torn, parts, out, cfg, cparts, places]                *)
(* A run: like a build by itself, with the names it uses its own             *)
SharedDisk(cfg) == [plugins |-> {}, torn |-> {}, parts |-> {}, out |-> {}, cfg |-> cfg, cparts |-> {}, places |-> {}]
RunInit == [pc |-> "config", cfg |-> [st |-> "missing", backend |-> "", document |-> "", plugins |-> {}], want |-> {}, have |-> {}, docs |-> {},
            reqs |-> {}, labels |-> {}, st |-> "run"]
(* one access of run w, doing a, to the disk: the possible next [r, d] *)
Both(r, d) == [r |-> r, d |-> d]
SharedEnd(r, st) == [r EXCEPT !.pc = "end", !.st = st]
Part(w, x) == [who |-> w, key |-> x, whole |-> FALSE]
LookUp(r, d) == \* which plugins are there already (it is looked for one after the other; more may appear meanwhile)
   IF r.cfg.st # "ok" THEN {Both(SharedEnd(r, "fail"), d)}
   ELSE {Both([r EXCEPT !.want = Designated(r.cfg) \ (d.plugins \cup d.torn), !.pc = "fetch"], d)}
Download(a, r, d) ==
   LET urls == {Url(k) : k \in r.want} IN
   IF urls \cap a.down # {} THEN {Both(SharedEnd([r EXCEPT !.reqs = urls], "fail"), d)}
   ELSE {Both([r EXCEPT !.reqs = urls, !.have = r.want, !.pc = IF r.want = {} THEN "load" ELSE "create"], d)}
Create(w, r, d) == {Both([r EXCEPT !.pc = "write"], [d EXCEPT !.parts = {p \in @ : p.who # w} \cup {Part(w, k)}]) : k \in r.have}
Fill(w, r, d) == {Both([r EXCEPT !.pc = "move"], [d EXCEPT !.parts = {IF p.who = w THEN [p EXCEPT !.whole = TRUE] ELSE p : p \in @}])}
Move(w, r, d) ==
   {LET rest == r.have \ {p.key}
        d1 == [d EXCEPT !.parts = @ \ {p}]
    IN Both([r EXCEPT !.have = rest, !.pc = IF rest = {} THEN "load" ELSE "create"],
            IF p.whole THEN [d1 EXCEPT !.plugins = @ \cup {p.key}, !.torn = @ \ {p.key}]
            ELSE [d1 EXCEPT !.torn = @ \cup {p.key}, !.plugins = @ \ {p.key}]) : p \in {p \in d.parts : p.who = w}}
LoadAll(a, r, d, docs) ==
   IF ~Usable(r.cfg) \/ ~(Designated(r.cfg) \subseteq d.plugins) THEN {Both(SharedEnd(r, IF a.kind = "open" THEN "ok" ELSE "fail"), d)}
   ELSE IF a.kind = "open" THEN {Both(SharedEnd([r EXCEPT !.labels = Offered(r.cfg.plugins, r.cfg.backend)], "ok"), d)}
   ELSE {Both([r EXCEPT !.docs = Documents(docs), !.pc = "docs"], d)}
Empty(r, d) ==
   IF r.docs = {} THEN {Both(SharedEnd(r, "ok"), d)}
   ELSE UNION {IF ~Generable(r.cfg, x) THEN {Both(SharedEnd(r, "fail"), d)}
               ELSE {Both([r EXCEPT !.pc = "output", !.docs = {x} \cup @],
                          [d EXCEPT !.out = {o \in @ : o.name # OutName(x, r.cfg.backend)} \cup {[name |-> OutName(x, r.cfg.backend), text |-> ""]}])} :
               x \in {CHOOSE x \in r.docs : TRUE}}
Output1(r, d) ==
   LET x == CHOOSE x \in r.docs : TRUE
   IN {Both([r EXCEPT !.pc = "docs", !.docs = @ \ {x}],
            [d EXCEPT !.out = {o \in @ : o.name # OutName(x, r.cfg.backend)} \cup {[name |-> OutName(x, r.cfg.backend), text |-> TextOf(r.cfg, x)[1]]}])}
(* adding *)
Fetching(a, r, d) ==
   LET p == ParseArg(a.arg) IN
   IF ~CanAdd(r.cfg, p) THEN {Both(SharedEnd(r, "fail"), d)}
   ELSE IF AddUrl(p) \in a.down THEN {Both(SharedEnd([r EXCEPT !.reqs = {AddUrl(p)}], "fail"), d)}
   ELSE {Both([r EXCEPT !.reqs = {AddUrl(p)}, !.pc = "ccreate"], d)}
Config2(a, r) == [r.cfg EXCEPT !.plugins = @ \cup {AddPlugin(ParseArg(a.arg))}]
CPart(w, c) == [who |-> w, cfg |-> c, whole |-> FALSE]
CCreate(w, a, r, d) == {Both([r EXCEPT !.pc = "cwrite"], [d EXCEPT !.cparts = @ \cup {CPart(w, Config2(a, r))}])}
CFill(w, r, d) == {Both([r EXCEPT !.pc = "cmove"], [d EXCEPT !.cparts = {IF p.who = w THEN [p EXCEPT !.whole = TRUE] ELSE p : p \in @}])}
CMove(w, r, d) == {Both(SharedEnd(r, "ok"), [d EXCEPT !.cparts = @ \ {p}, !.cfg = IF p.whole THEN p.cfg ELSE [@ EXCEPT !.st = "bad"]]) :
                   p \in {p \in d.cparts : p.who = w}}
(* making: the directory is what decides *)
Claim(w, a, r, d) ==
   IF \E p \in d.places : p.name = a.arg THEN {Both(SharedEnd(r, "fail"), d)}
   ELSE {Both([r EXCEPT !.pc = "furnish"], [d EXCEPT !.places = @ \cup {[name |-> a.arg, by |-> w, whole |-> FALSE]}])}
Furnish(w, r, d) == {Both(SharedEnd(r, "ok"), [d EXCEPT !.places = {IF p.by = w THEN [p EXCEPT !.whole = TRUE] ELSE p : p \in @}])}
SharedStep(w, a, r, d, docs) ==
   CASE r.pc = "config" /\ a.kind = "new" -> Claim(w, a, r, d)
     [] r.pc = "config" /\ a.kind # "new" -> {Both([r EXCEPT !.cfg = d.cfg, !.pc = IF a.kind = "add" THEN "afetch" ELSE "look"], d)}
     [] r.pc = "look" -> LookUp(r, d)
     [] r.pc = "fetch" -> Download(a, r, d)
     [] r.pc = "create" -> Create(w, r, d)
     [] r.pc = "write" -> Fill(w, r, d)
     [] r.pc = "move" -> Move(w, r, d)
     [] r.pc = "load" -> LoadAll(a, r, d, docs)
     [] r.pc = "docs" -> Empty(r, d)
     [] r.pc = "output" -> Output1(r, d)
     [] r.pc = "afetch" -> Fetching(a, r, d)
     [] r.pc = "ccreate" -> CCreate(w, a, r, d)
     [] r.pc = "cwrite" -> CFill(w, r, d)
     [] r.pc = "cmove" -> CMove(w, r, d)
     [] r.pc = "furnish" -> Furnish(w, r, d)
     [] OTHER -> {}

-----------------------------------------------------------------------------
(* What it may look like from outside when all have ended.                   *)
(*   h == [cfg (at the beginning), docs, memory (as in BrackProject),        *)
(*         runs (sequence of action @@ [st, fault ("none", "kill"), reqs,    *)
(*               labels, whole (brack new: the project is complete)]),       *)
(*         seen (all configurations there were at any moment), last (the     *)
(*         configuration at the end), out0, out1]                            *)
Runs(h) == {h.runs[j] : j \in 1..Len(h.runs)}
RECURSIVE ConfigsFrom(_, _)
ConfigsFrom(cfg, args) == \* after some of the additions, one after the other
   {cfg} \cup UNION {LET p == ParseArg(a) IN
                     IF CanAdd(cfg, p) THEN ConfigsFrom([cfg EXCEPT !.plugins = @ \cup {AddPlugin(p)}], args \ {a}) ELSE {} : a \in args}
Additions(h) == {a.arg : a \in {a \in Runs(h) : a.kind = "add" /\ AddUrl(ParseArg(a.arg)) \notin a.down}}
Possible(h) == ConfigsFrom(h.cfg, Additions(h))
Undone(h, a, c) == \* with this configuration, a is not to succeed, even if others help
   c.st # "ok" \/ ~Usable(c) \/ (a.kind = "build" /\ \E d \in Documents(h.docs) : ~Generable(c, d))
   \/ \E k \in Designated(c) : ~Like(h.memory, k) /\ \A b \in Runs(h) : b.kind \in {"build", "open"} => Url(k) \in b.down
Hindered(h, a, c) == c.st # "ok" \/ ~Usable(c) \/ (a.kind = "build" /\ \E d \in Documents(h.docs) : ~Generable(c, d))
                     \/ \E k \in Designated(c) \ h.memory.must : Url(k) \in a.down
JudgeRun(h, a) ==
   When(a.st \notin {"ok", "fail"} /\ ~(a.st = "killed" /\ a.fault = "kill"), "ended with " \o a.st)
   \cup (CASE a.kind = "build" ->
           When(a.st = "ok" /\ \A c \in Possible(h) : Undone(h, a, c), "succeeded")
           \cup When(a.st = "fail" /\ \A c \in Possible(h) : ~Hindered(h, a, c), "disturbed")
           \cup When(~(a.reqs \subseteq {Url(k) : k \in UNION {Designated(c) : c \in Possible(h)}}), "requested something else")
           \cup When(a.reqs \cap {Url(k) : k \in h.memory.must} # {}, "downloaded again")
         [] a.kind = "open" ->
           When(a.st = "fail", "ended")
           \cup When(a.st = "ok" /\ a.labels = {} /\ \A c \in Possible(h) : ~Hindered(h, a, c) /\ Offered(c.plugins, c.backend) # {}, "not opened")
           \cup When(a.st = "ok" /\ a.labels # {} /\ \A c \in Possible(h) : Undone(h, a, c) \/ a.labels # Offered(c.plugins, c.backend), "offered something else")
           \cup When(~(a.reqs \subseteq {Url(k) : k \in UNION {Designated(c) : c \in Possible(h)}}), "requested something else")
         [] a.kind = "add" ->
           LET p == ParseArg(a.arg)
               rivals == {b \in Runs(h) : b.kind = "add" /\ AddPlugin(ParseArg(b.arg)).name = AddPlugin(p).name}
           IN When(a.st = "ok" /\ ~(CanAdd(h.cfg, p) /\ AddUrl(p) \notin a.down), "added")
              \cup When(a.st = "fail" /\ CanAdd(h.cfg, p) /\ AddUrl(p) \notin a.down /\ Cardinality(rivals) = 1, "not added")
         [] a.kind = "new" -> When(a.st = "ok" /\ ~a.whole, "incomplete"))
JudgeShared(h) ==
   LET of(kind) == {j \in 1..Len(h.runs) : h.runs[j].kind = kind}
       st(j) == h.runs[j].st
       added == {AddPlugin(ParseArg(h.runs[j].arg)) : j \in {j \in of("add") : st(j) = "ok"}}
       names == {h.runs[j].arg : j \in of("new")}
       makers(n) == {j \in of("new") : h.runs[j].arg = n}
   IN UNION {JudgeRun(h, h.runs[j]) : j \in 1..Len(h.runs)}
      \cup When(~(h.seen \subseteq Possible(h)), "configuration torn")
      \cup When(added # {} /\ h.last.plugins \cap added = {}, "no addition recorded")
      \cup When(\E n \in names : Cardinality({j \in makers(n) : st(j) = "ok"}) > 1, "made twice")
      \cup When(\E n \in names : \A j \in makers(n) : st(j) = "fail", "not made")
      \cup (IF of("build") = {} \/ (\E j \in of("build") : st(j) # "ok") THEN {}
            ELSE LET es == {Expected([docs |-> h.docs, cfg |-> c]) : c \in {c \in Possible(h) : ~Undone(h, h.runs[CHOOSE j \in of("build") : TRUE], c)}}
                 IN When(\A e \in es : ~(e \subseteq h.out1), "output")
                    \cup When(\E e \in es : {o \in h.out1 : o.name \notin NamesOf(e)} # {o \in h.out0 : o.name \notin NamesOf(e)}, "other files in out"))
(* what is certainly there afterwards, for the builds that follow *)
Settled(h) ==
   LET done == {a \in Runs(h) : a.st = "ok" /\ (a.kind = "build" \/ (a.kind = "open" /\ a.labels # {}))}
   IN [must |-> h.memory.must \cup (IF done # {} /\ Additions(h) = {} THEN Designated(h.cfg) ELSE {}),
       may |-> Perhaps(h.memory) \cup UNION {Designated(c) : c \in Possible(h)}]
=============================================================================

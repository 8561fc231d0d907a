--------------------------- MODULE ConformProject ---------------------------
(* Judges recorded histories of real projects (C16-C20, C27): every run of build, *)
(* add and new, with what is remembered of the runs before it.               *)
(*   record == [n, releases, steps]; releases: [url, file, cmds, entries]    *)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANT Prop
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
Width == 64
C == INSTANCE BrackCompile

(* the plugin that a configured one designates *)
Rel(p, b) == "https://github.com/" \o p.owner \o "/" \o p.repo \o "/releases/download/" \o p.version \o "/" \o p.name \o "." \o b \o ".wasm"
Find(p, b) == LET s == {j \in 1..Len(Recs[i].releases) : Recs[i].releases[j].url = Rel(p, b)}
              IN IF s = {} THEN [url |-> "", file |-> "none", cmds |-> <<>>, entries |-> <<>>]
                 ELSE Recs[i].releases[CHOOSE j \in s : TRUE]
Real(p, b) == LET r == Find(p, b) IN [name |-> p.name, flags |-> p.flags, file |-> r.file, cmds |-> r.cmds, entries |-> r.entries]
RealLoads(p, b) == C!Load(Real(p, b)) = "ok"
RealCompatible(ps) == C!FormSet(SetToSeq(ps)) = "ok"
RealOutput(ps, b, d) ==
   IF d.st # "ok" THEN <<>> ELSE LET s == SetToSeq(ps) IN C!Final(TLCEval([j \in 1..Len(s) |-> Real(s[j], b)]), d.content)
RealOffered(ps, b) == UNION {LET x == Real(p, b) IN {p.name \o "." \o x.cmds[k].name : k \in {k \in 1..Len(x.cmds) : x.cmds[k].ret = "I"}} : p \in ps}
P == INSTANCE BrackShared WITH Loads <- RealLoads, Compatible2 <- RealCompatible, Output <- RealOutput, Offered <- RealOffered

Config(c) == [c EXCEPT !.plugins = ToSet(@)]
Build(b) == [b EXCEPT !.cfg = Config(@), !.docs = ToSet(@), !.down = ToSet(@), !.reqs = ToSet(@), !.out0 = ToSet(@), !.out1 = ToSet(@),
                      !.listed = ToSet(@)]
Add(a) == [a EXCEPT !.cfg0 = Config(@), !.cfg1 = Config(@), !.down = ToSet(@), !.reqs = ToSet(@)]
Shared(h, m) == [cfg |-> Config(h.cfg), docs |-> ToSet(h.docs), memory |-> m, seen |-> {Config(h.seen[j]) : j \in 1..Len(h.seen)},
                 last |-> Config(h.last), out0 |-> ToSet(h.out0), out1 |-> ToSet(h.out1),
                 runs |-> [j \in 1..Len(h.runs) |-> [h.runs[j] EXCEPT !.down = ToSet(@), !.reqs = ToSet(@), !.labels = ToSet(@)]]]
New(n) == [n EXCEPT !.made = ToSet(@), !.cfg1 = Config(@)]
Numbered(j, s) == {ToString(j) \o ": " \o x : x \in s}
(* s == [j, memory, bad] *)
Judge(s, x) ==
   CASE x.op = "build" -> LET b == TLCEval(Build(x.b)) IN
          [j |-> s.j + 1, memory |-> TLCEval(P!Remember(b, s.memory)), bad |-> s.bad \cup Numbered(s.j, P!JudgeBuild(b, s.memory))]
     [] x.op = "add" -> [s EXCEPT !.j = @ + 1, !.bad = @ \cup Numbered(s.j, P!JudgeAdd(Add(x.a)))]
     [] x.op = "new" -> [s EXCEPT !.j = @ + 1, !.bad = @ \cup Numbered(s.j, P!JudgeNew(New(x.a)))]
     [] x.op = "shared" -> LET h == TLCEval(Shared(x.h, s.memory)) IN
          [j |-> s.j + 1, memory |-> TLCEval(P!Settled(h)), bad |-> s.bad \cup Numbered(s.j, P!JudgeShared(h))]
     [] x.op = "clean" -> [s EXCEPT !.j = @ + 1, !.memory = P!Fresh]     \* somebody removed the plugins directory
Check(r) == FoldLeft(Judge, [j |-> 1, memory |-> P!Fresh, bad |-> {}], r.steps).bad

Init == i = 0
Next == \/ i = 0 /\ i' \in 1..(IF N < Width THEN N ELSE Width)
        \/ i > 0 /\ i + Width <= N /\ i' = i + Width
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET bad == Check(Recs[i]) IN bad = {} \/ PrintT(<<"BAD", Recs[i].n, bad>>)
=============================================================================

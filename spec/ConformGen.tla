----------------------------- MODULE ConformGen -----------------------------
(* Judges recorded runs of the real macro expander and code generator.       *)
(* A record holds the plugins (as data), the syntax tree the expander got,   *)
(* the expanded tree, the calls the plugins received and the output.         *)
EXTENDS BrackExpander, BrackCodegen, Json, IOUtils
CONSTANT Prop
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
Width == 64

When(c, what) == IF c THEN {what} ELSE {}
RECURSIVE Build(_, _)
Build(f, j) == [k |-> f[j].k, v |-> f[j].v, id |-> f[j].id, l |-> f[j].l,
                ch |-> TLCEval([m \in 1..Len(f[j].ch) |-> Build(f, f[j].ch[m])])]
Tree(f) == Build(f, 1)
Plugins(r) ==
   LET ent(e) == [e EXCEPT !.tree = IF e.tree = <<>> THEN <<>> ELSE <<Tree(e.tree)>>]
       plug(p) == [p EXCEPT !.entries = TLCEval([j \in 1..Len(p.entries) |-> ent(p.entries[j])])]
   IN TLCEval([j \in 1..Len(r.plugins) |-> plug(r.plugins[j])])

Macros(r) == SelectSeq(r.log, LAMBDA c : c.m)
Commands(r) == SelectSeq(r.log, LAMBDA c : ~c.m)
Seen(r) == LET s == Commands(r) IN [j \in 1..Len(s) |-> Call(s[j].p, s[j].x, s[j].args)]
Generated(r, ps) ==
   LET before == [m \in {ps[j].name : j \in 1..Len(ps)} |-> Len(SelectSeq(Macros(r), LAMBDA c : c.p = m))]
   IN Generate(ps, Tree(r.exp), before)
Bag(s) == LET es == {s[j] : j \in 1..Len(s)}
          IN [x \in es |-> Cardinality({j \in 1..Len(s) : s[j] = x})]

C09(r) ==
   IF r.at \in {"process", "tok", "cst", "ast", "load"} THEN {}
   ELSE LET ps == Plugins(r)
            e == Expand(ps, Tree(r.ast))
            ms == Macros(r)
        IN IF r.at = "exp"
           THEN When(r.st # "err", "expander: " \o r.st) \cup When(e.ok, "expansion failed")
           ELSE IF ~e.ok THEN {"expansion did not fail"}
           ELSE When(Tree(r.exp) # e.n, "expanded tree")
                \cup When([j \in 1..Len(ms) |-> [p |-> ms[j].p, x |-> ms[j].x, id |-> ms[j].id]] # e.log, "macro calls")
                \cup When(\E j \in 1..Len(ms) : ms[j].ast # r.ast, "tree given to a macro")

(* status of code generation; the rest is only judged when it succeeded, rightly *)
Status(r, g) == IF r.at = "gen" THEN When(r.st # "err", "generator: " \o r.st) \cup When(g.st = "ok", "generation failed")
                ELSE When(g.st # "ok", "generation did not fail")
C10(r) ==
   IF r.at \notin {"gen", "end"} THEN {}
   ELSE LET g == Generated(r, Plugins(r)) IN
        Status(r, g) \cup IF r.at = "gen" \/ g.st # "ok" THEN {}
                          ELSE When(Seen(r) # g.log, "calls") \cup When(r.out # g.vals[1], "output")
C11(r) ==
   IF r.at \notin {"exp", "gen", "end"} THEN {}
   ELSE LET ps == Plugins(r)
            e == Expand(ps, Tree(r.ast))
            names(s) == [j \in 1..Len(s) |-> <<s[j].p, s[j].x>>]
        IN IF r.at = "exp" THEN When(r.st # "err", "expander: " \o r.st) \cup When(e.ok, "a macro that exists was not found")
           ELSE IF ~e.ok THEN {"a macro that does not exist was found"}
           ELSE LET g == Generated(r, ps) IN
                Status(r, g)
                \cup When(Bag(names(Macros(r))) # Bag(names(e.log)), "macros run")
                \cup IF r.at = "gen" \/ g.st # "ok" THEN {}
                     ELSE When(Bag(names(Commands(r))) # Bag(names(g.log)), "commands run")
C12(r) ==
   IF r.at \notin {"gen", "end"} THEN {}
   ELSE LET ps == Plugins(r)
            g == Generated(r, ps)
            hooks == {<<ps[j].name, c.x>> : j \in {j \in 1..Len(ps) : \E h \in 1..4 : ps[j].flags[h]},
                                            c \in UNION {{ps[j].cmds[k] : k \in 1..Len(ps[j].cmds)} : j \in 1..Len(ps)}}
            hooked(s) == SelectSeq(s, LAMBDA c : <<c.p, c.x>> \in hooks)
        IN Status(r, g) \cup IF r.at = "gen" \/ g.st # "ok" THEN {}
                             ELSE When(hooked(Seen(r)) # hooked(g.log), "hook calls") \cup When(r.out # g.vals[1], "output")

(* C13: a record is a set of plugins with the outcome of loading each and forming the set *)
Outcome(b) == IF b THEN "ok" ELSE "err"
C13(r) ==
   LET ps == r.plugins
       each == [j \in 1..Len(ps) |-> Load(ps[j])]
       all == \A j \in 1..Len(ps) : each[j] = "ok"
   IN When(\E j \in 1..Len(ps) : each[j] # Outcome(Loadable(ps[j])), "specification: Load")
      \cup When(all /\ FormSet(ps) # Outcome(Compatible(ps)), "specification: FormSet")
      \cup When(r.each # each, "loading: " \o ToString(r.each))
      \cup When(r.each = each /\ r.set # (IF all THEN FormSet(ps) ELSE "none"), "set: " \o r.set)

(* C14: a record is a list of outcomes of the same compilation *)
C14(r) ==
   LET ends == {r.runs[j].st : j \in 1..Len(r.runs)}
   IN When(ends \notin SUBSET {"ok", "err"}, "ended with " \o ToString(ends \ {"ok", "err"}))
      \cup When(Cardinality({<<r.runs[j].st, r.runs[j].out>> : j \in 1..Len(r.runs)}) > 1, "runs differ")

(* plugins that fit together are there when the document is expanded and generated *)
Loaded(r) == When(r.at = "load" /\ Compatible(r.plugins) /\ \A j \in 1..Len(r.plugins) : Loadable(r.plugins[j]), "plugins not loaded")
Check(r) == CASE Prop = "C09" -> C09(r) \cup Loaded(r) [] Prop = "C10" -> C10(r) \cup Loaded(r) [] Prop = "C11" -> C11(r) \cup Loaded(r)
              [] Prop = "C12" -> C12(r) \cup Loaded(r) [] Prop = "C13" -> C13(r) [] Prop = "C14" -> C14(r)

Init == i = 0
Next == \/ i = 0 /\ i' \in 1..(IF N < Width THEN N ELSE Width)
        \/ i > 0 /\ i + Width <= N /\ i' = i + Width
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET bad == Check(Recs[i]) IN bad = {} \/ PrintT(<<"BAD", Recs[i].n, bad>>)
=============================================================================

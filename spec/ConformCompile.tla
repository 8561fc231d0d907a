--------------------------- MODULE ConformCompile ---------------------------
(* Judges recorded runs of the compile command (C15).                        *)
EXTENDS BrackCompile, Json, IOUtils
CONSTANT Prop
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
Width == 64
When(c, what) == IF c THEN {what} ELSE {}
RECURSIVE Build(_, _)
Build(f, j) == [k |-> f[j].k, v |-> f[j].v, l |-> f[j].l,
                ch |-> TLCEval([m \in 1..Len(f[j].ch) |-> Build(f, f[j].ch[m])])]
Tokens(ts) == [j \in 1..Len(ts) |-> <<ts[j].k, ts[j].t, ts[j].l>>]
Places(es) == AsBag([j \in 1..Len(es) |-> es[j].l])
Check(r) ==
   LET e == Compiled(r.case)
   IN IF e.st = "fail" THEN When(r.st # "fail", "did not fail") \cup When(r.kind # "none", "printed a result")
      ELSE IF r.st # "ok" THEN {"failed: " \o r.st}
      ELSE IF e.kind # r.kind THEN {"printed " \o r.kind}
      ELSE CASE e.kind = "tokens" -> When(Tokens(r.tok) # Tokens(e.v), "tokens")
             [] e.kind = "tree" -> LET t == Build(r.tree, 1) IN When(Shape(t) # Shape(e.v), "tree") \cup When(Locs(t) # Locs(e.v), "locations")
             [] e.kind = "problems" -> IF \E j \in 1..Len(r.errs) : r.errs[j].k = "?" THEN When(Places(r.errs) # Places(e.v), "problems")
                                       ELSE When(AsBag(r.errs) # AsBag(e.v), "problems")
             [] e.kind = "text" -> When(r.text # e.v, "output")
Init == i = 0
Next == \/ i = 0 /\ i' \in 1..(IF N < Width THEN N ELSE Width)
        \/ i > 0 /\ i + Width <= N /\ i' = i + Width
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET bad == Check(Recs[i]) IN bad = {} \/ PrintT(<<"BAD", Recs[i].n, bad>>)
=============================================================================

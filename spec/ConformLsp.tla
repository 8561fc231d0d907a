----------------------------- MODULE ConformLsp -----------------------------
(* Judges recorded sessions with the real language server (C21-C26).         *)
(*   record == [n, bodies: [bytes, m] ..., legend, steps, end]               *)
(*   step   == [w (index of the world), bytes (arrived), outs (what was sent before the next  *)
(*             bytes arrived)]; outs leave out window/logMessage             *)
(*   legend : the announced names of token types                             *)
(*   end    : how the server ended after its input did                       *)
EXTENDS BrackLsp, Json, IOUtils
CONSTANT Prop
VARIABLE i
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
Width == 64
When(c, what) == IF c THEN {what} ELSE {}

Meaning(r, body) == LET f == {j \in 1..Len(r.bodies) : r.bodies[j].bytes = body}
                    IN IF f = {} THEN [t |-> "junk", id |-> "", method |-> "", p |-> [ok |-> FALSE, file |-> FALSE, doc |-> "", uri |-> "", root |-> "",
                                                                                       diag |-> FALSE, trigger |-> <<>>]]
                       ELSE r.bodies[CHOOSE j \in f : TRUE].m
TypeIndex(r, name) == LET f == {j \in 1..Len(r.legend) : r.legend[j] = name} IN IF f = {} THEN -1 ELSE MinOf(f) - 1
TypeFits(r, type, name) == IF name = "none" THEN type >= Len(r.legend) ELSE type = TypeIndex(r, name)
TokensFit(r, seen, want) ==
   /\ Len(seen) = Len(want)
   /\ \A j \in 1..Len(want) : /\ seen[j][1] = want[j].line /\ seen[j][2] = want[j].char /\ seen[j][3] = want[j].length
                              /\ TypeFits(r, seen[j][4], want[j].type) /\ seen[j][5] = 0
OffersFit(seen, want) == \* each exactly once
   /\ Len(seen) = Cardinality(want)
   /\ {[label |-> seen[j].label, close |-> seen[j].close] : j \in 1..Len(seen)} = want
ValueFits(r, o, v) ==
   CASE v.k = "null" -> o.k = "null"
     [] v.k = "capabilities" -> o.k = "capabilities" /\ {"[", "{", "<"} \subseteq ToSet(o.list)
     [] v.k = "tokens" -> o.k = "tokens" /\ TokensFit(r, o.list, v.seq)
     [] v.k = "offers" -> o.k = "offers" /\ OffersFit(o.list, v.seq[1])
(* reasons why o is not what e asks for *)
Compare(r, o, e) ==
   CASE e.t = "result" -> IF o.t # "result" THEN {o.t \o " instead of a result"}
                          ELSE When(o.id # e.id, "id") \cup When(~ValueFits(r, o, e.v), "value of " \o e.v.k)
     [] e.t = "error"  -> IF o.t # "error" THEN {o.t \o " instead of an error"}
                          ELSE When(o.id # e.id, "id") \cup When(e.code # SomeError /\ o.code # e.code, "code")
     [] e.t = "either" -> When(o.t \notin {"result", "error"}, o.t) \cup When(o.id # e.id, "id") \cup When(o.t = "result" /\ o.k # "null", "value")
     [] e.t = "diagnostics" -> IF o.t # "diagnostics" THEN {o.t \o " instead of diagnostics"}
                               ELSE When(o.uri # e.uri, "document") \cup When(o.k # "problems", "form")
                                    \cup (IF o.k = "problems" THEN When(AsBag(o.list) # AsBag(e.v.seq), "problems") ELSE {})
Pairwise(r, os, es) == UNION {Compare(r, os[j], es[j]) : j \in 1..(IF Len(os) < Len(es) THEN Len(os) ELSE Len(es))}
Judge(r, a, x) ==
   LET f == TLCEval(Receive(a.buf, x.bytes))
       h == TLCEval(HandleAll(a.s, r.worlds[x.w], [j \in 1..Len(f.got) |-> Meaning(r, f.got[j])]))
       n == ToString(a.j) \o ": "
       bad == When(Len(x.outs) < Len(h.outs), "not answered") \cup When(Len(x.outs) > Len(h.outs), "sent too much")
              \cup Pairwise(r, x.outs, h.outs)
   IN [buf |-> f.buf, s |-> h.s, j |-> a.j + 1, bad |-> a.bad \cup {n \o b : b \in bad}]
Check(r) ==
   FoldLeft(LAMBDA a, x : Judge(r, a, x), [buf |-> <<>>, s |-> LspInit, j |-> 1, bad |-> {}], r.steps).bad
   \cup When(r.end # "clean", "ended: " \o r.end) \cup When(r.rest # 0, "sent something after the end of its input")

Init == i = 0
Next == \/ i = 0 /\ i' \in 1..(IF N < Width THEN N ELSE Width)
        \/ i > 0 /\ i + Width <= N /\ i' = i + Width
Spec == Init /\ [][Next]_i
Judged == i = 0 \/ LET bad == Check(Recs[i]) IN bad = {} \/ PrintT(<<"BAD", Recs[i].n, bad>>)
=============================================================================

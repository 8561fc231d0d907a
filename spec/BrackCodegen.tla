---------------------------- MODULE BrackCodegen ----------------------------
(* Code generation as a machine with a stack of tasks and a stack of texts;  *)
(* its externally visible transitions are the plugin calls, recorded in log. *)
EXTENDS Naturals, Sequences, SequencesExt, BrackPlugins

None == "⊥"        \* recorded for a leaf without value
Call(p, x, args) == [p |-> p, x |-> x, args |-> args]
TextArg(s) == <<[k |-> "T", v |-> <<s>>]>>

(* which nodes may stand where; "arg" is the place after module and name *)
Allowed == [Document |-> {"Stmt", "Expr", "Curly", "Square", "Text"},
            Stmt |-> {"Expr", "Curly", "Square", "Text"},
            Expr |-> {"Expr", "Curly", "Square", "Text"},
            Square |-> {"Expr", "Curly", "Square", "Text"},
            Curly |-> {"Expr", "Curly", "Square", "Text"}]
HookOf == [Document |-> 1, Stmt |-> 2, Expr |-> 3, Text |-> 4]
RetOf == [Square |-> "I", Curly |-> "B"]

(* parameters from arguments (C10); <<>> if the number of arguments is wrong *)
Mandatory(sig) == Cardinality({i \in 1..Len(sig) : IsMandatory(sig[i])})
Unbounded(sig) == \E i \in 1..Len(sig) : IsArray(sig[i])
WellOrdered(sig) == \A i, j \in 1..Len(sig) : i < j =>
                       ~IsArray(sig[i]) /\ (IsOptional(sig[i]) => ~IsMandatory(sig[j]))
Fits(sig, n) == Mandatory(sig) <= n /\ (Unbounded(sig) \/ n <= Len(sig))
Bind(sig, vals) ==
   [i \in 1..Len(sig) |->
      IF IsArray(sig[i]) THEN [k |-> "A", v |-> SubSeq(vals, i, Len(vals))]
      ELSE IF IsOptional(sig[i]) THEN IF i <= Len(vals) THEN [k |-> "O", v |-> <<vals[i]>>] ELSE [k |-> "N", v |-> <<>>]
      ELSE [k |-> "T", v |-> <<vals[i]>>]]

(* state; calls: plugin name -> calls so far (the plugins count them) *)
GenInit(tree, calls) == [todo |-> <<[t |-> "visit", n |-> tree]>>, vals |-> <<>>, log |-> <<>>,
                         calls |-> calls, st |-> "run"]
GenFail(s) == [s EXCEPT !.st = "err"]
Pop(s) == [s EXCEPT !.todo = SubSeq(@, 1, Len(@) - 1)]
Tasks(s, ts) == [s EXCEPT !.todo = @ \o Reverse(ts)]    \* the first of ts is done first
Put(s, v) == [s EXCEPT !.vals = Append(@, v)]
LastVals(s, n) == SubSeq(s.vals, Len(s.vals) - n + 1, Len(s.vals))
DropVals(s, n) == [s EXCEPT !.vals = SubSeq(@, 1, Len(@) - n)]

DoCall(ps, s, m, name, ret, args) ==
   IF ~Exists(ps, m, name, ret) THEN GenFail(s)
   ELSE LET r == Resolve(ps, m, name, ret)
            k == s.calls[m] + 1
            a == Answer(Entry(r.p, r.c.x), args, k)
            s2 == [s EXCEPT !.log = Append(@, Call(m, r.c.x, args)), !.calls[m] = k]
        IN IF a.ok THEN Put(s2, a.s) ELSE GenFail(s2)
DoHook(ps, s, kind, v) ==
   LET h == HookOf[kind]
   IN IF HookPlugin(ps, h) = {} THEN Put(s, v)
      ELSE DoCall(ps, s, ps[CHOOSE i \in HookPlugin(ps, h) : TRUE].name, HookName[h], HookRet[h], TextArg(v))

Visits(ch) == [i \in 1..Len(ch) |-> [t |-> "visit", n |-> ch[i]]]
GenVisit(ps, s, n) ==
   CASE n.k = "Text" -> IF n.v = None THEN GenFail(s) ELSE DoHook(ps, s, "Text", n.v)
     [] n.k \in {"Document", "Stmt", "Expr"} ->
          IF \E i \in 1..Len(n.ch) : n.ch[i].k \notin Allowed[n.k] THEN GenFail(s)
          ELSE Tasks(s, Visits(n.ch) \o <<[t |-> "join", n |-> n]>>)
     [] n.k \in {"Square", "Curly"} ->
          IF \/ Len(n.ch) < 2 \/ n.ch[1].k # "Module" \/ n.ch[2].k # "Ident"
             \/ \E i \in 3..Len(n.ch) : n.ch[i].k \notin Allowed[n.k]
          THEN GenFail(s)
          ELSE Tasks(s, Visits(SubSeq(n.ch, 3, Len(n.ch))) \o <<[t |-> "call", n |-> n]>>)
     [] OTHER -> GenFail(s)
GenJoin(ps, s, n) == LET k == Len(n.ch)
                     IN DoHook(ps, DropVals(s, k), n.k, Cat(LastVals(s, k)))
GenCall(ps, s, n) ==
   LET k == Len(n.ch) - 2
       m == n.ch[1].v  name == n.ch[2].v  ret == RetOf[n.k]
       vals == LastVals(s, k)
   IN IF ~Exists(ps, m, name, ret) THEN GenFail(s)
      ELSE LET sig == Resolve(ps, m, name, ret).c.args
           IN IF ~Fits(sig, k) THEN GenFail(s)
              ELSE IF \E i \in 1..Len(sig) : IsMandatory(sig[i]) /\ i > k THEN GenFail(s)
              ELSE DoCall(ps, DropVals(s, k), m, name, ret, Bind(sig, vals))
GenStep(ps, s) ==
   IF s.st # "run" THEN s
   ELSE IF s.todo = <<>> THEN [s EXCEPT !.st = "ok"]
   ELSE LET task == s.todo[Len(s.todo)]
            r == Pop(s)
        IN CASE task.t = "visit" -> GenVisit(ps, r, task.n)
             [] task.t = "join"  -> GenJoin(ps, r, task.n)
             [] task.t = "call"  -> GenCall(ps, r, task.n)
RECURSIVE GenRun(_, _)
GenRun(ps, s) == IF s.st # "run" THEN s ELSE GenRun(ps, TLCEval(GenStep(ps, s)))
Generate(ps, tree, calls) == GenRun(ps, GenInit(tree, calls))
NoCalls(ps) == [m \in {ps[i].name : i \in 1..Len(ps)} |-> 0]

-----------------------------------------------------------------------------
(* The same output, denotationally, for plugins that do not count (ECHO).    *)
RECURSIVE Denote(_, _)
Denote(ps, n) == \* [ok, s]
   LET kids == IF n.k \in {"Square", "Curly"} THEN SubSeq(n.ch, 3, Len(n.ch)) ELSE n.ch
       d == TLCEval([i \in 1..Len(kids) |-> Denote(ps, kids[i])])
       bad == [ok |-> FALSE, s |-> ""]
       place == \A i \in 1..Len(kids) : n.k \in DOMAIN Allowed /\ kids[i].k \in Allowed[n.k] /\ d[i].ok
       hook(k, s) == LET h == HookPlugin(ps, HookOf[k])
                     IN IF h = {} THEN [ok |-> TRUE, s |-> s]
                        ELSE LET m == ps[CHOOSE i \in h : TRUE].name
                                 r == Resolve(ps, m, HookName[HookOf[k]], HookRet[HookOf[k]])
                             IN Answer(Entry(r.p, r.c.x), TextArg(s), 0)
       ss == [i \in 1..Len(d) |-> d[i].s]
   IN CASE n.k = "Text" -> hook("Text", n.v)
        [] n.k \in {"Document", "Stmt", "Expr"} -> IF place THEN hook(n.k, Cat(ss)) ELSE bad
        [] n.k \in {"Square", "Curly"} ->
             IF ~place \/ Len(n.ch) < 2 THEN bad
             ELSE IF n.ch[1].k # "Module" \/ n.ch[2].k # "Ident" THEN bad
             ELSE IF ~Exists(ps, n.ch[1].v, n.ch[2].v, RetOf[n.k]) THEN bad
             ELSE LET r == Resolve(ps, n.ch[1].v, n.ch[2].v, RetOf[n.k])
                  IN IF ~Fits(r.c.args, Len(ss)) THEN bad
                     ELSE Answer(Entry(r.p, r.c.x), Bind(r.c.args, ss), 0)
        [] OTHER -> bad
=============================================================================

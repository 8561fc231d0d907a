------------------------------- MODULE MC_Lsp -------------------------------
(* C22-C26 on the machine: every sequence of messages from a family, while   *)
(* the files and projects around the server change.                          *)
EXTENDS BrackLsp, Json
CONSTANTS MaxSteps, MaxEdits, Record
VARIABLES s, world, msgs, outs, hist, opened, edits
vars == <<s, world, msgs, outs, hist, opened, edits>>

P0 == [ok |-> TRUE, file |-> TRUE, doc |-> "", uri |-> "", root |-> "", diag |-> FALSE, trigger |-> <<>>]
Msg(t, id, method, p) == [t |-> t, id |-> id, method |-> method, p |-> p]
Broken(p) == [p EXCEPT !.ok = FALSE]
Requests == {Msg("request", "1", "initialize", [P0 EXCEPT !.diag = TRUE]), Msg("request", "2", "initialize", P0),
             Msg("request", "3", "initialize", Broken(P0)), Msg("request", "a", "no/such", P0),
             Msg("request", "5", "textDocument/semanticTokens/full", [P0 EXCEPT !.doc = "a"]),
             Msg("request", "6", "textDocument/semanticTokens/full", Broken(P0)),
             Msg("request", "7", "textDocument/semanticTokens/full", [P0 EXCEPT !.file = FALSE]),
             Msg("request", "8", "textDocument/completion", [P0 EXCEPT !.trigger = <<"[">>]),
             Msg("request", "9", "textDocument/completion", [P0 EXCEPT !.trigger = <<"<">>]),
             Msg("request", "10", "textDocument/completion", [P0 EXCEPT !.trigger = <<".">>]),
             Msg("request", "11", "textDocument/completion", P0), Msg("request", "12", "textDocument/completion", Broken(P0))}
Notes == {Msg("note", "", "initialized", P0), Msg("note", "", "no/such", P0), Msg("note", "", "textDocument/didSave", Broken(P0)),
          Msg("note", "", "textDocument/didChange", P0), Msg("note", "", "textDocument/didOpen", Broken(P0))}
         \cup {Msg("note", "", "textDocument/didSave", [P0 EXCEPT !.doc = d, !.uri = "file:" \o d]) : d \in {"a", "b"}}
         \cup {Msg("note", "", "textDocument/didOpen", [P0 EXCEPT !.root = x]) : x \in {"p", "q", "none"}}
Rest == {Msg("junk", "", "", P0), Msg("other", "", "", P0), Msg("response", "1", "", P0)}
AllMessages == Requests \cup Notes \cup Rest

Cmd(n, ret) == [name |-> n, x |-> n, ret |-> ret, args |-> <<>>]
PluginOf(n, flags, file, cmds) == [name |-> n, flags |-> flags, file |-> file, cmds |-> cmds, entries |-> <<>>]
Off == <<FALSE, FALSE, FALSE, FALSE>>
PluginSets == {<<>>, <<PluginOf("m", Off, "ok", <<Cmd("c", "I"), Cmd("b", "B"), Cmd("s", "A"), Cmd("c", "A")>>)>>,
               <<PluginOf("n", <<FALSE, FALSE, FALSE, TRUE>>, "ok", <<Cmd("text", "I")>>), PluginOf("m", Off, "ok", <<Cmd("c", "I")>>)>>,
               <<PluginOf("m", <<TRUE, FALSE, FALSE, FALSE>>, "ok", <<Cmd("c", "I")>>)>>}
Contents == {[st |-> "ok", gr |-> <<"x">>], [st |-> "ok", gr |-> <<"[", "m", ".", "c", "\n">>], [st |-> "ok", gr |-> <<"x", "\n", "]">>],
             [st |-> "ok", gr |-> <<"\n", "x">>], [st |-> "missing", gr |-> <<>>]}
File(p, c) == [path |-> p] @@ c
Proj(r, open, ps, sp) == [root |-> r, open |-> open, plugins |-> ps, spoiled |-> sp]
Init == /\ s = LspInit /\ opened = <<>> /\ edits = 0 /\ msgs = <<>> /\ outs = <<>> /\ hist = <<>>
        /\ world = [files |-> <<File("a", [st |-> "ok", gr |-> <<"x">>]), File("b", [st |-> "ok", gr |-> <<"]">>])>>,
                    projects |-> <<Proj("p", "ok", CHOOSE ps \in PluginSets : Len(ps) = 2, FALSE), Proj("q", "ok", <<>>, FALSE)>>]
Steps == Len(msgs)
Note(x) == hist' = IF Record THEN Append(hist, x) ELSE hist
Send(m) == LET r == Handle(s, world, m) IN
           /\ s' = r.s /\ msgs' = Append(msgs, m) /\ outs' = Append(outs, r.outs)
           /\ Note([op |-> "msg", m |-> m]) /\ UNCHANGED <<world, edits>>
           /\ opened' = IF m.t = "note" /\ m.method = "textDocument/didOpen" /\ m.p.ok /\ \E j \in 1..Len(world.projects) :
                                                        world.projects[j].root = m.p.root /\ world.projects[j].open = "ok"
                        THEN Append(opened, [root |-> m.p.root, plugins |-> ProjectAt(world, m.p.root).plugins]) ELSE opened
Edit == /\ \E c \in Contents, j \in 1..2 : world' = [world EXCEPT !.files[j] = File(@.path, c)]
        /\ Note([op |-> "world", world |-> world']) /\ UNCHANGED <<s, msgs, outs, opened>>
Reproject == /\ \E j \in 1..2, ps \in PluginSets, o \in {"ok", "bad", "unreachable"} :
                  world' = [world EXCEPT !.projects[j] = Proj(@.root, o, IF o = "ok" THEN ps ELSE <<>>, FALSE)]
             /\ Note([op |-> "world", world |-> world']) /\ UNCHANGED <<s, msgs, outs, opened>>
Spoil == /\ \E j \in 1..2 : world' = [world EXCEPT !.projects[j].spoiled = TRUE]
         /\ Note([op |-> "world", world |-> world']) /\ UNCHANGED <<s, msgs, outs, opened>>
Next == \/ Steps < MaxSteps /\ \E m \in AllMessages : Send(m)
        \/ Steps < MaxSteps /\ edits < MaxEdits /\ edits' = edits + 1 /\ (Edit \/ Reproject \/ Spoil)
Spec == Init /\ [][Next]_vars

Answered(t) == t \in {"result", "error", "either"}
(* C22 *)
OneAnswer ==
   \A j \in 1..Len(msgs) :
      LET a == SelectSeq(outs[j], LAMBDA o : Answered(o.t)) m == msgs[j] IN
      CASE m.t = "request" -> Len(a) = 1 /\ Len(outs[j]) = 1 /\ a[1].id = m.id
        [] m.t \in {"junk", "other"} -> Len(a) = 1 /\ Len(outs[j]) = 1 /\ a[1].t = "error" /\ a[1].id = NoId
        [] OTHER -> a = <<>>
(* C23: messages that are useless change nothing *)
Useless(m) == m.t \in {"junk", "other", "response"} \/ ~m.p.ok \/ ~m.p.file
                \/ m.method \notin {"initialize", "textDocument/didOpen"} \/ (m.method = "textDocument/didOpen" /\ m.p.root = "none")
Unmoved == [][msgs' # msgs /\ Useless(msgs'[Len(msgs')]) => s' = s]_vars
(* C24 *)
Published ==
   \A j \in 1..Len(msgs) : \A k \in 1..Len(outs[j]) : outs[j][k].t = "diagnostics" =>
      /\ msgs[j].method = "textDocument/didSave" /\ msgs[j].t = "note" /\ outs[j][k].uri = msgs[j].p.uri /\ k = 1
      /\ \E i \in 1..(j - 1) : msgs[i].method = "initialize" /\ msgs[i].p.ok /\ msgs[i].p.diag
           /\ \A h \in (i + 1)..(j - 1) : ~(msgs[h].method = "initialize" /\ msgs[h].t = "request" /\ msgs[h].p.ok /\ ~msgs[h].p.diag)
(* C25 *)
Mirrors == \A c \in {c \in Contents : c.st = "ok"} :
   LET ts == Tokenize(c.gr)
   IN Absolute(Semantic(ts), 0, 0) = [j \in 1..Len(ts) |-> <<ts[j].l[1], ts[j].l[2], ts[j].l[4] - ts[j].l[2], TypeNameOf(ts[j].k)>>]
(* C26 *)
Latest == IF opened = <<>> THEN <<>> ELSE <<opened[Len(opened)]>>
OpenedLast == s.project = Latest
Offered == LET j == Len(msgs) IN j > 0 => \A k \in 1..Len(outs[j]) :
   msgs[j].method = "textDocument/completion" /\ outs[j][k].t = "result" =>
      LET v == outs[j][k].v  t == msgs[j].p.trigger
      IN /\ (v = NullValue) = (t = <<>> \/ Latest = <<>>)
         /\ v # NullValue => LET want == {x \in {"I", "B", "A"} : RetOfTrigger[IF t[1] \in {"[", "<", "{"} THEN t[1] ELSE "["] = x /\ t[1] \in {"[", "<", "{"}}
                                 got == v.seq[1]
                             IN /\ \A i \in 1..Len(Latest[1].plugins) : \A c \in 1..Len(Latest[1].plugins[i].cmds) :
                                      LET cmd == Latest[1].plugins[i].cmds[c]
                                      IN (cmd.ret \in want) => \E o \in got : o.label = Latest[1].plugins[i].name \o "." \o cmd.name
                                /\ want = {} => got = {}
Printed == Record /\ Steps = MaxSteps => PrintT("HIST " \o ToJson(hist))
=============================================================================

---------------------------- MODULE MC_LspFrames ----------------------------
(* C21: whatever way the stream is cut into reads, exactly the complete      *)
(* messages have been taken at every moment. Streams are made of messages    *)
(* with all kinds of headers and of bodies that look like headers.           *)
EXTENDS BrackLsp
CONSTANTS MaxMessages
VARIABLES stream, ends, sent, buf, got
vars == <<stream, ends, sent, buf, got>>
B(s) == s
CRLF == <<CR, LF>>
CL(name, v) == name \o <<58, 32>> \o v \o CRLF
Caps == <<67,111,110,116,101,110,116,45,76,101,110,103,116,104>>                    \* Content-Length
Other == <<67,111,110,116,101,110,116,45,84,121,112,101,58,32,120,58,49>> \o CRLF   \* Content-Type: x:1
Near == <<88,45,67,111,110,116,101,110,116,45,76,101,110,103,116,104,58,32,57>> \o CRLF  \* X-Content-Length: 9
Bodies == {<<>>, <<120>>, <<206, 177>>, CRLF \o CRLF, Caps \o <<58, 49>> \o CRLF \o CRLF}
Num(n) == IF n < 10 THEN <<48 + n>> ELSE <<48 + (n \div 10), 48 + (n % 10)>>
Heads(n) == {CL(Caps, Num(n)) \o CRLF, Other \o CL(LengthField, Num(n)) \o CRLF, CL(Caps, <<48>> \o Num(n)) \o Near \o CRLF}
Messages == UNION {{[bytes |-> h \o b, body |-> b] : h \in Heads(Len(b))} : b \in Bodies}
Init == /\ \E n \in 1..MaxMessages : \E ms \in [1..n -> Messages] :
              /\ stream = FlattenSeq([j \in 1..n |-> ms[j].bytes])
              /\ ends = [j \in 1..n |-> [at |-> Len(FlattenSeq([k \in 1..j |-> ms[k].bytes])), body |-> ms[j].body]]
        /\ sent = 0 /\ buf = <<>> /\ got = <<>>
Arrive(k) == /\ sent + k <= Len(stream)
             /\ LET r == Receive(buf, SubSeq(stream, sent + 1, sent + k))
                IN buf' = r.buf /\ got' = got \o r.got
             /\ sent' = sent + k /\ UNCHANGED <<stream, ends>>
Next == \E k \in {1, 2, 3, 7, 20, Len(stream) - sent} : k > 0 /\ Arrive(k)
Spec == Init /\ [][Next]_vars
Whole == SelectSeq(ends, LAMBDA e : e.at <= sent)
Framed == got = [j \in 1..Len(Whole) |-> Whole[j].body]
NothingLost == buf = SubSeq(stream, (IF Whole = <<>> THEN 0 ELSE Whole[Len(Whole)].at) + 1, sent)
=============================================================================

------------------------------- MODULE McPhase -------------------------------
(* When a rule takes effect (C01) and when the phase it names is too early      *)
(* (C02): all combinations of two operators that hold for a client, in all      *)
(* phases.                                                                      *)
EXTENDS Mc

CONSTANT Ops1                  \* which operators come first

\* Operators that hold for the one client there is, and from which of its steps on
\* they can be judged: 1 connecting, 2 greeting, 3 sender, 4 recipient.
Operators ==
  << <<"all", 1>>, <<"ip 198.51.100.7", 1>>, <<"dns nodns", 1>>, <<"not dnsbl bl.test", 1>>, <<"not dbl host d.test", 1>>,
     <<"not dbl ehlo d.test", 2>>, <<"helo one.test", 2>>, <<"helo-has ehlo", 2>>, <<"from a@x.test", 3>>, <<"not from-has bad", 3>>, <<"tls off", 3>>,
     <<"source one.test", 3>>, <<"not dbl any d.test", 3>>, <<"to r@y.test", 4>>, <<"not to-has quoted", 4>>, <<"not host x.test", 1>>, <<"not (not to r@y.test)", 4>> >>
PhaseNames == << "", "@connect ", "@helo ", "@from ", "@to ", "@data ", "@message " >>
Larger(a, b) == IF a > b THEN a ELSE b

\* [t, at]: a text and the step at which it refuses, 0 if it is not a proper text.
Meaning(p, t, need) == [t |-> PhaseNames[p] \o "reject " \o t \o "\n", at |-> IF p = 1 THEN need ELSE IF p - 1 < need THEN 0 ELSE p - 1]
Alone(p, a) == << Meaning(p, a[1], a[2]), Meaning(p, "(" \o a[1] \o ")", a[2]), Meaning(p, a[1] \o " with message m", a[2]) >>
Two(p, a, b) ==
  LET n == Larger(a[2], b[2])
  IN << Meaning(p, a[1] \o " " \o b[1], n), Meaning(p, a[1] \o " or " \o b[1], n), Meaning(p, a[1] \o " ; " \o b[1], n), Meaning(p, "(" \o a[1] \o " or " \o b[1] \o ") " \o a[1], n) >>
Texts(p, a) == Alone(p, a) \o Flat([i \in DOMAIN Operators |-> Two(p, a, Operators[i])], 1)
Pairs == AsSeq({<<p, i>> : p \in DOMAIN PhaseNames, i \in Ops1})
Bundles0 == LET q == TLCEval(Pairs) IN [k \in DOMAIN q |-> Texts(q[k][1], Operators[q[k][2]])]
ASSUME TLCSet(2, TLCEval(Bundles0))
Bundles == TLCGet(2)

HWorlds == << RulesWorld("accept all\n") >>
Visit(t) == << WriteFile("rules", t), Conn("a", "198.51.100.7"), Say("a", "EHLO", "one.test"), Say("a", "MAIL", "a@x.test"), Say("a", "RCPT", "r@y.test"),
               Say("a", "DATA", ""), Mesg("a", "hello"), Gone("a") >>
HMoves == LET q == TLCEval(Bundles0) IN [k \in DOMAIN q |-> Flat([i \in DOMAIN q[k] |-> Visit(q[k][i].t)], 1)]
HAllowed(s, gh, i) == TRUE

\* at: the step at which to be refused; over: it has happened.
HGhost0(wo) == [k |-> 0, at |-> 0, over |-> FALSE]
Lookup(t) == LET k == CHOOSE j \in DOMAIN Bundles : \E i \in DOMAIN Bundles[j] : Bundles[j][i].t = t
                 i == CHOOSE j \in DOMAIN Bundles[k] : Bundles[k][j].t = t
             IN Bundles[k][i].at
StepNo(ev) == CASE ev.ev = "conn" -> 1 [] ev.ev = "msg" -> 6 [] ev.verb = "EHLO" -> 2 [] ev.verb = "MAIL" -> 3 [] ev.verb = "RCPT" -> 4 [] ev.verb = "DATA" -> 5
Refused(r) == r.out.cls \in {"4", "5", "drop"}
HGhost(gh, ev, r, wo) ==
  CASE ev.ev = "file" -> [k |-> 0, at |-> Lookup(ev.text), over |-> FALSE]
    [] ev.ev \in {"conn", "cmd", "msg"} -> [gh EXCEPT !.over = @ \/ Refused(r)]
    [] OTHER -> gh
HClaims(gh, ev, r, wo) ==
  IF ev.ev \notin {"conn", "cmd", "msg"} \/ gh.over THEN {}
  ELSE LET n == StepNo(ev)
       IN IF gh.at = 0 THEN If(n = 2 /\ r.out.cls # "4", "C02 too early a phase") \cup If(n = 1 /\ r.out.cls # "2", "C05 not dropped")
          ELSE If(Refused(r) # (n = gh.at), "C01 takes effect when it is to")
HCore(s) == s.up
=============================================================================

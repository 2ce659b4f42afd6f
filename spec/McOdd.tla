-------------------------------- MODULE McOdd --------------------------------
(* A client that does odd things, a broken configuration, and a client that     *)
(* does not (C07): every command is answered, the other client is answered as if *)
(* the odd one had never been there, and so is whoever comes next.              *)
EXTENDS Mc

RulesText ==
  "set-with helo ./pats or host ./pats or source ./pats with note a\nset-with from \"\" or to \"\" or helo \"\" or source \"\" with note c\nset-with dbl any sbl.spamhaus.org or dnsbl sbl.spamhaus.org with note f\nset-with helo-has bogus,nodots,ip,myip,none or from-has bad,resolves,baddom,unknown,route or dns good,nodns with tls-opt no-client\nreject from bad@ with make-yakker\n"
OWorlds ==
  << World([BaseCfg EXCEPT !.savedir = "spool", !.stdrules = TRUE, !.dncount = 2, !.dndur = 1000, !.cert = "cert1.pem", !.key = "key1.pem", !.minphase = "to"],
           <<[n |-> "rules", t |-> RulesText], [n |-> "pats", t |-> "@\n.\n\n<>\n@.\n0.0.0.0/0\n"]>>, NoZone) >>

Odd(c, rip) ==
  << << Conn(c, rip) >>, << Say(c, "EHLO", "") >>, << Say(c, "HELO", ".") >>, << Say(c, "EHLO", "[1.2.3") >>, << Say(c, "MAIL", "") >>, << Say(c, "MAIL", "@") >>,
     << Say(c, "MAIL", "bad@x.test") >>, << Say(c, "RCPT", "@@") >>, << Say(c, "RCPT", "a") >>, << Say(c, "DATA", "") >>, << Mesg(c, "odd") >>, << Say(c, "RSET", "") >>,
     << Say(c, "BAD", "") >>, << Say(c, "BAD", ""), Say(c, "BAD", ""), Say(c, "BAD", ""), Say(c, "BAD", ""), Say(c, "BAD", "") >>, << Tls(c, FALSE, "") >>, << Tls(c, TRUE, "") >>,
     << Gone(c) >>, << Bye(c) >> >>
World1 == << << WriteFile("rules", "reject (\n") >>, << WriteFile("rules", RulesText) >>, << RemoveFile("pats") >>, << WriteFile("rules", "include rules\n") >>, << Wait(1000) >>, << LostConn >> >>
Good == << <<Conn("a", "198.51.100.7")>>, <<Say("a", "EHLO", "one.test")>>, <<Say("a", "MAIL", "a@x.test")>>, <<Say("a", "RCPT", "r@y.test")>>, <<Say("a", "DATA", "")>>, <<Mesg("a", "hello")>>, <<Bye("a")>> >>
NOdd == Len(Odd("b", "")) + Len(World1)
OMoves == Odd("b", "198.51.100.8") \o World1 \o Good
OAllowed(s, gh, i) == i <= NOdd \/ i - NOdd = gh.at + 1

\* solo: the server without the odd client.
OGhost0(wo) == [at |-> 0, solo |-> Step(Fresh(wo.cfg, ToFs(wo.files), ToZone(NoZone)), Startup).st]
Mine(ev) == ev.ev \in {"conn", "cmd", "starttls", "msg", "abort"} /\ ev.c = "a"
Theirs(ev) == ev.ev \in {"conn", "cmd", "starttls", "msg", "abort"} /\ ev.c = "b"
OGhost(gh, ev, r, wo) ==
  IF Theirs(ev) THEN gh
  ELSE [gh EXCEPT !.at = IF Mine(ev) THEN (IF r.out.closed THEN 7 ELSE @ + 1) ELSE @, !.solo = IF Can(@, ev) THEN Step(@, ev).st ELSE @]
Next1(s) == LET x == Step(s, Conn("z", "198.51.100.9"))
                y == IF "z" \in DOMAIN x.st.sess THEN Step(x.st, Say("z", "EHLO", "one.test")) ELSE x
                z == IF "z" \in DOMAIN y.st.sess THEN Step(y.st, Say("z", "MAIL", "a@x.test")) ELSE y
            IN << [x.out EXCEPT !.id = ""], y.out, z.out >>
OClaims(gh, ev, r, wo) ==
  LET s == OGhost(gh, ev, r, wo).solo
  IN If(~r.st.up, "C07 up") \cup If(Next1(r.st) # Next1(s), "C07 whoever comes next")
     \cup If(Mine(ev) /\ (~Can(gh.solo, ev) \/ Step(gh.solo, ev).out # r.out), "C07 the others are served as ever")
     \cup If(ev.ev = "cmd" /\ r.out.cls \notin {"2", "3", "4", "5"}, "C07 answered")
     \cup If(ev.ev = "msg" /\ r.out.cls \notin {"2", "4", "5"}, "C07 answered")
OCore(s) == [fs |-> s.fs["rules"], pats |-> "pats" \in DOMAIN s.fs, yak |-> s.yak, notls |-> s.notls, now |-> s.now,
             sess |-> [c \in DOMAIN s.sess |-> LET x == s.sess[c] IN <<x.wire, x.good, x.bad, x.tls, x.tlsup, x.def.act, x.got, x.force, x.askcert>>]]
OView == <<w, OCore(st), g.at, bad>>
=============================================================================

-------------------------------- MODULE McTls --------------------------------
(* When TLS is offered (C23), stated on the history of each client's failures. *)
EXTENDS Mc

CONSTANT Rich     \* whether to have all worlds

H == 3600
Certs == [BaseCfg EXCEPT !.cert = "cert1.pem", !.key = "key1.pem", !.savedir = "spool"]
W0(cfg, t) == World(cfg, <<[n |-> "rules", t |-> t]>>, NoZone)
TWorlds ==
  << W0(Certs, "stall from off@x.test with tls-opt off\nset-with helo noclient.test with tls-opt no-client\n@to reject tls off\n") >>
  \o (IF ~Rich THEN <<>> ELSE
     << W0([BaseCfg EXCEPT !.savedir = "spool"], "@to reject tls on\n"),
        W0(Certs, "@connect set-with ip 198.51.100.8 with tls-opt off\n@to reject tls on\n") >>)
A == "198.51.100.7"
B == "198.51.100.8"
TMoves ==
  << << Conn("a", A), Say("a", "EHLO", "one.test"), Tls("a", FALSE, "") >>,
     << Conn("a", A), Say("a", "EHLO", "one.test"), Tls("a", TRUE, ""), Say("a", "EHLO", "one.test"), Tls("a", TRUE, ""),
        Say("a", "MAIL", "a@x.test"), Say("a", "RCPT", "r@y.test"), Bye("a") >>,
     << Conn("b", B), Say("b", "EHLO", "one.test"), Tls("b", FALSE, "") >>,
     << Conn("c", A) >>, << Say("c", "EHLO", "one.test") >>, << Say("c", "EHLO", "noclient.test") >>,
     << Say("c", "MAIL", "off@x.test") >>, << Say("c", "MAIL", "a@x.test"), Say("c", "RCPT", "r@y.test") >>, << Say("c", "RSET", "") >>,
     << Tls("c", TRUE, "") >>, << Tls("c", FALSE, "") >>, << Say("c", "HELO", "one.test") >>, << Gone("c") >>,
     << Wait(24 * H) >>, << Wait(72 * H - 1) >>, << Wait(72 * H) >> >>
TAllowed(s, gh, i) == TRUE

\* fails: times of the failures of each client.  sess: [ip, n (failures that
\* counted when it began), off, noclient, on (set up), wire].
TGhost0(wo) == [now |-> 0, fails |-> [i \in {A, B} |-> <<>>], sess |-> [c \in {} |-> 0]]

RECURSIVE RunFrom(_, _, _)
RunFrom(q, i, t) == IF i = 0 \/ t - q[i] >= 72 * H THEN i + 1 ELSE RunFrom(q, i - 1, q[i])
Failures(gh, ip) == LET q == gh.fails[ip] IN Len(q) - RunFrom(q, Len(q), gh.now) + 1

Has0(wo, s) == Contains(wo.files[1].t, s)
TurnsOff(wo, ev) ==
  \/ ev.ev = "conn" /\ ev.rip = B /\ Has0(wo, "@connect set-with ip 198.51.100.8 with tls-opt off")
  \/ ev.ev = "cmd" /\ ev.verb = "MAIL" /\ ev.arg = "off@x.test" /\ Has0(wo, "from off@x.test with tls-opt off")
NoClient(wo, ev) == ev.ev = "cmd" /\ ev.verb \in {"EHLO", "HELO"} /\ ev.arg = "noclient.test" /\ Has0(wo, "helo noclient.test with")

TlsNow(gh, c, wo) == LET x == gh.sess[c] IN wo.cfg.cert # "" /\ x.n < 2 /\ ~x.off /\ ~x.on

\* Commands are only looked at by the rules when they are in order.
Heeded(gh, ev) ==
  CASE ev.ev = "cmd" /\ ev.verb = "MAIL" -> gh.sess[ev.c].wire = "helo"
    [] ev.ev = "cmd" /\ ev.verb \in {"EHLO", "HELO"} -> gh.sess[ev.c].wire \in {"init", "helo"}
    [] OTHER -> TRUE

TGhost(gh, ev, r, wo) ==
  CASE ev.ev = "clock" -> [gh EXCEPT !.now = ev.now]
    [] ev.ev = "conn"  -> [gh EXCEPT !.sess = (ev.c :> [ip |-> ev.rip, n |-> Failures(gh, ev.rip), off |-> TurnsOff(wo, ev),
                                                        noclient |-> FALSE, on |-> FALSE, wire |-> "init"]) @@ @]
    [] ev.ev = "starttls" ->
         IF ~TlsNow(gh, ev.c, wo) THEN gh
         ELSE IF ev.works THEN [gh EXCEPT !.sess[ev.c] = [@ EXCEPT !.on = TRUE, !.wire = "init"]]
         ELSE [gh EXCEPT !.fails[gh.sess[ev.c].ip] = Append(@, gh.now), !.sess = [k \in DOMAIN @ \ {ev.c} |-> @[k]]]
    [] ev.ev = "cmd" ->
         LET ok == r.out.cls = "2"
             h == [gh EXCEPT !.sess[ev.c] = [@ EXCEPT !.off = @ \/ (Heeded(gh, ev) /\ TurnsOff(wo, ev)), !.noclient = @ \/ (Heeded(gh, ev) /\ NoClient(wo, ev))]]
             wire == CASE ~ok -> h.sess[ev.c].wire
                       [] ev.verb \in {"EHLO", "HELO"} -> "helo" [] ev.verb = "MAIL" -> "mail" [] ev.verb = "RCPT" -> "rcpt"
                       [] ev.verb = "RSET" -> (IF h.sess[ev.c].wire = "init" THEN "init" ELSE "helo") [] OTHER -> ""
         IN IF r.out.closed THEN [gh EXCEPT !.sess = [k \in DOMAIN @ \ {ev.c} |-> @[k]]] ELSE [h EXCEPT !.sess[ev.c].wire = wire]
    [] ev.ev = "abort" -> [gh EXCEPT !.sess = [k \in DOMAIN @ \ {ev.c} |-> @[k]]]
    [] OTHER -> gh

TClaims(gh, ev, r, wo) ==
  LET out == r.out IN
  CASE ev.ev = "cmd" /\ ev.verb = "EHLO" /\ out.cls = "2" -> If(out.starttls # TlsNow(gh, ev.c, wo), "C23 offered exactly when it should be")
    [] ev.ev = "cmd" /\ ev.verb = "HELO" -> If(out.starttls, "C23 not offered after HELO")
    [] ev.ev = "starttls" -> If((out.cls = "2") # TlsNow(gh, ev.c, wo), "C23 accepted exactly when it should be")
                             \cup If(out.cls = "2" /\ ev.works /\ out.certreq # (gh.sess[ev.c].n = 0 /\ ~gh.sess[ev.c].noclient), "C23 certificate asked for")
                             \cup If(out.cls = "2" /\ ~ev.works /\ ~out.closed, "C23 failure ends the session")
    [] ev.ev = "cmd" /\ ev.verb = "RCPT" /\ gh.sess[ev.c].wire \in {"mail", "rcpt"} ->
         If((out.cls = "5") # ((gh.sess[ev.c].on /\ Has0(wo, "@to reject tls on")) \/ (~gh.sess[ev.c].on /\ Has0(wo, "@to reject tls off"))), "C23 tls test")
    [] OTHER -> {}

TCore(s) == [notls |-> s.notls, now |-> s.now, yak |-> s.yak, sess |-> [c \in DOMAIN s.sess |->
              LET x == s.sess[c] IN <<x.wire, x.tls, x.askcert, x.tlsup, x.tlson>>]]
=============================================================================

--------------------------------- MODULE McDn ---------------------------------
(* Do-nothing clients (C21) and what being stalled means (C22), stated on the  *)
(* history of each client's sessions as seen from outside.                     *)
EXTENDS Mc

CONSTANT Counts, Points    \* values of -dncount and -minphase

Dur == 100
DWorlds ==
  AsSeq({World([BaseCfg EXCEPT !.dncount = n, !.dndur = Dur, !.dnlog = TRUE, !.minphase = p, !.cert = "cert1.pem", !.key = "key1.pem"],
                  <<[n |-> "rules", t |-> "set-with helo yak.test with make-yakker\nreject from bad@x.test\n"]>>, NoZone)
            : n \in Counts, p \in Points})

A == "198.51.100.7"
B == "198.51.100.8"
DMoves ==
  << << Conn("a", A), Bye("a") >>,                                              \* nothing at all
     << Conn("a", A), Say("a", "EHLO", "one.test"), Gone("a") >>,
     << Conn("a", A), Say("a", "EHLO", "one.test"), Say("a", "MAIL", "a@x.test"), Bye("a") >>,
     << Conn("a", A), Say("a", "EHLO", "yak.test"), Bye("a") >>,
     << Conn("a", A), Say("a", "EHLO", "one.test"), Say("a", "MAIL", "a@x.test"), Say("a", "RSET", ""),
        Say("a", "MAIL", "a@x.test"), Say("a", "RSET", ""), Say("a", "MAIL", "bad@x.test"), Say("a", "MAIL", "a@x.test"), Bye("a") >>,
     << Conn("a", A), Say("a", "EHLO", "one.test"), Tls("a", FALSE, ""), Bye("a") >>,
     << Conn("b", B), Gone("b") >>,
     << Conn("c", A) >>, << Say("c", "EHLO", "one.test"), Say("c", "MAIL", "a@x.test"), Say("c", "RSET", "") >>, << Gone("c") >>,
     << Wait(Dur \div 2) >>, << Wait(Dur - 1) >>, << Wait(Dur) >> >>
DAllowed(s, gh, i) == TRUE

----------------------------------------------------------------------------
\* now; marks: what is known of each client, in order, as [t, k], k one of
\* "idle", "good" and "force"; sess: the sessions going on.
DGhost0(wo) == [now |-> 0, marks |-> [i \in {A, B} |-> <<>>], sess |-> [c \in {} |-> 0]]

\* Marks that still count: the longest run at the end without too long a gap, up to now.
RECURSIVE RunFrom(_, _, _)
RunFrom(q, i, t) == IF i = 0 \/ t - q[i].t >= Dur THEN i + 1 ELSE RunFrom(q, i - 1, q[i].t)
Recent(gh, ip) == LET q == gh.marks[ip] IN SubSeq(q, RunFrom(q, Len(q), gh.now), Len(q))

Score(gh, ip, n) ==
  LET q == Recent(gh, ip)
      reset == {i \in DOMAIN q : q[i].k # "idle"}
      i == IF reset = {} THEN 0 ELSE CHOOSE k \in reset : \A j \in reset : j <= k
  IN (Len(q) - i) + (IF i # 0 /\ q[i].k = "force" THEN n ELSE 0)
StalledNow(gh, ip, wo) == Score(gh, ip, wo.cfg.dncount) >= wo.cfg.dncount

Mark(gh, ip, k) == [gh EXCEPT !.marks[ip] = Append(@, [t |-> gh.now, k |-> k])]

Point(v) == CASE v \in {"EHLO", "HELO"} -> "helo" [] v = "MAIL" -> "from" [] v = "RCPT" -> "to" [] v = "DATA" -> "data" [] OTHER -> "other"

\* MAIL again after a MAIL that came to nothing.
Again(gh, ev, r, wo) ==
  ev.ev = "cmd" /\ ev.verb = "MAIL" /\ LET x == gh.sess[ev.c]
    IN x.order /\ x.mailed /\ ~x.reached /\ ~x.stalled /\ ev.arg # "bad@x.test"

EndOf(gh, c) ==
  LET x == gh.sess[c]
      h == [gh EXCEPT !.sess = [k \in DOMAIN @ \ {c} |-> @[k]]]
  IN IF x.force THEN Mark(h, x.ip, "force")
     ELSE IF x.stalled THEN h
     ELSE Mark(h, x.ip, IF x.reached THEN "good" ELSE "idle")

DGhost(gh, ev, r, wo) ==
  CASE ev.ev = "clock" -> [gh EXCEPT !.now = ev.now]
    [] ev.ev = "conn"  -> [gh EXCEPT !.sess = (ev.c :> [ip |-> ev.rip, stalled |-> StalledNow(gh, ev.rip, wo), reached |-> FALSE,
                                                        mailed |-> FALSE, order |-> FALSE, force |-> FALSE]) @@ @]
    [] ev.ev = "abort" -> EndOf(gh, ev.c)
    \* a session whose TLS fails says nothing about its client, except that it may have got far enough
    [] ev.ev = "starttls" /\ r.out.closed ->
         IF gh.sess[ev.c].reached THEN EndOf(gh, ev.c) ELSE [gh EXCEPT !.sess = [k \in DOMAIN @ \ {ev.c} |-> @[k]]]
    [] ev.ev = "cmd" /\ ev.verb = "QUIT" -> EndOf(gh, ev.c)
    [] ev.ev = "cmd" /\ ev.verb # "QUIT" ->
         LET ok == r.out.cls = "2"
             x == gh.sess[ev.c]
             \* order: MAIL would be in order now
             y == [x EXCEPT !.reached = @ \/ (ok /\ Point(ev.verb) = wo.cfg.minphase /\ ev.verb # "RSET"),
                            !.mailed = IF ok /\ ev.verb = "EHLO" THEN FALSE ELSE @ \/ (ok /\ ev.verb = "MAIL"),
                            !.order = IF ok /\ ev.verb \in {"EHLO", "RSET"} THEN @ \/ ev.verb = "EHLO" \/ @ ELSE IF ok /\ ev.verb = "MAIL" THEN FALSE ELSE @,
                            !.force = @ \/ (ev.verb = "EHLO" /\ ev.arg = "yak.test" /\ ~x.stalled)]
             z == IF ev.verb = "RSET" THEN [y EXCEPT !.order = x.order \/ x.mailed] ELSE y
             h == [gh EXCEPT !.sess[ev.c] = z]
             h2 == IF Again(gh, ev, r, wo) THEN Mark(h, x.ip, "idle") ELSE h
         IN IF r.out.closed THEN [h2 EXCEPT !.sess = [k \in DOMAIN @ \ {ev.c} |-> @[k]]] ELSE h2
    [] OTHER -> gh

\* Ending a session brings its client's score to exactly the limit.
Adds(gh, c, wo) ==
  LET x == gh.sess[c] IN ~x.stalled /\ ~x.force /\ ~x.reached /\ Score(gh, x.ip, wo.cfg.dncount) + 1 = wo.cfg.dncount
Forces(gh, c, wo) == LET x == gh.sess[c] IN x.force /\ Score(gh, x.ip, wo.cfg.dncount) # wo.cfg.dncount

DClaims(gh, ev, r, wo) ==
  LET out == r.out IN
  CASE ev.ev = "conn" ->
         LET s == StalledNow(gh, ev.rip, wo)
         IN If(out.cls # "2", "C22 stalled clients are greeted")
            \cup If(out.slow # s, "C21 stalled exactly when due, C22 slowly")
            \cup If(out.logged = s, "C22 in the SMTP log exactly if not stalled")
            \cup If(Len(out.dn) # (IF s THEN 1 ELSE 0), "C22 one line in the do-nothing log")
    [] ev.ev = "cmd" /\ ev.verb \in {"EHLO", "MAIL"} /\ gh.sess[ev.c].stalled ->
         If(out.cls = "2" \/ (ev.verb = "EHLO" /\ out.cls # "4"), "C22 only 4xx")
    [] ev.ev = "cmd" /\ ev.verb = "MAIL" /\ ~gh.sess[ev.c].stalled /\ gh.sess[ev.c].order ->
         LET drop == Again(gh, ev, r, wo) /\ Score(gh, gh.sess[ev.c].ip, wo.cfg.dncount) + 1 > wo.cfg.dncount
         IN If(out.closed # drop, "C21 repeated MAIL ends the session when over the limit")
            \cup If(drop /\ out.cls # "4", "C21 4xx")
    [] ev.ev = "abort" \/ (ev.ev = "cmd" /\ ev.verb = "QUIT") ->
         LET n == IF Adds(gh, ev.c, wo) \/ Forces(gh, ev.c, wo) THEN 1 ELSE 0
         IN If(Len(out.dn) # n, "C21 C22 additions are logged")
            \cup If(~gh.sess[ev.c].stalled /\ Len(out.bang) # n, "C26 remark")
    [] OTHER -> {}

DCore(s) == [yak |-> s.yak, notls |-> s.notls, now |-> s.now, sess |-> [c \in DOMAIN s.sess |->
              LET x == s.sess[c] IN <<x.wire, x.from, x.got, x.force, x.counts, x.stalled>>]]
=============================================================================

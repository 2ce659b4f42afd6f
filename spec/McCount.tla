-------------------------------- MODULE McCount --------------------------------
(* The published counters (C27).  The ghost counts what clients and the log see. *)
EXTENDS Mc

CONSTANTS Parts                \* which groups of moves there are

KWorlds ==
  << World([BaseCfg EXCEPT !.dncount = 2, !.dndur = 1000, !.minphase = "to", !.savedir = "spool", !.cert = "cert1.pem", !.key = "key1.pem"],
           << [n |-> "rules", t |-> "reject helo bad.test\nstall from s@x.test\nreject to b@y.test\n@data reject to d@y.test\n@message reject from m@x.test\n@from set-with from y@x.test with make-yakker\n"] >>, NoZone) >>

S(v, a) == << Say("a", v, a) >>
KMoves ==
     << << Conn("a", "198.51.100.7") >>, S("EHLO", "one.test"), S("EHLO", "bad.test"), S("MAIL", "a@x.test"), S("MAIL", "s@x.test"), S("RCPT", "r@y.test"), S("RSET", ""), << Bye("a") >>, << Gone("a") >>,
        << Conn("a", "198.51.100.7"), Gone("a") >>, << Say("a", "MAIL", "a@x.test"), Say("a", "RSET", "") >> >>
  \o (IF "message" \in Parts THEN << S("RCPT", "b@y.test"), S("RCPT", "d@y.test"), S("MAIL", "m@x.test"), << Say("a", "DATA", ""), Mesg("a", "hello") >> >> ELSE <<>>)
  \o (IF "tls" \in Parts THEN << << Tls("a", TRUE, "") >>, << Tls("a", FALSE, "") >> >> ELSE <<>>)
  \o (IF "odd" \in Parts THEN << << WriteFile("rules", "reject\n") >>, << WriteFile("rules", "accept all\n") >>, << Wait(600) >>, S("MAIL", "y@x.test"), S("BAD", "") >> ELSE <<>>)
KAllowed(s, gh, i) == TRUE

\* n: the counts; broken: the rules are broken now; s: the session.
KGhost0(wo) == [n |-> [k \in Counters |-> 0], broken |-> FALSE, on |-> FALSE,
                s |-> [wire |-> "init", broken |-> FALSE, stalled |-> FALSE, tls |-> FALSE, told |-> FALSE, good |-> TRUE, got |-> FALSE, mails |-> 0]]
Plus(n, ks) == [k \in DOMAIN n |-> IF k \in ks THEN n[k] + 1 ELSE n[k]]
Ord(verb, wire) ==
  CASE verb = "EHLO" -> wire \in {"init", "helo"} [] verb = "MAIL" -> wire = "helo" [] verb = "RCPT" -> wire \in {"mail", "rcpt"} [] verb = "DATA" -> wire = "rcpt" [] OTHER -> FALSE
Name(verb) == CASE verb = "EHLO" -> "ehlo" [] verb = "MAIL" -> "mailfrom" [] verb = "RCPT" -> "rcptto" [] verb = "DATA" -> "data"

\* What the end of a session adds, as the log tells it.
Logged(out, k) == \E i \in DOMAIN out.bang : out.bang[i].k = k
AtEnd1(gh, out, how) ==
  {how} \cup (IF gh.s.broken \/ gh.s.stalled THEN {} ELSE {IF gh.s.good THEN "abandons" ELSE "refuseds"})
        \cup (IF Logged(out, "added") THEN {"yakker_adds"} ELSE {})
        \cup (IF Logged(out, "forced") THEN {"yakker_adds", "yakker_forces"} ELSE {})

KGhost(gh, ev, r, wo) ==
  LET out == r.out
      s == gh.s
      over(g2) == [g2 EXCEPT !.on = FALSE]
  IN CASE ev.ev = "file" -> [gh EXCEPT !.broken = ev.text = "reject\n"]
       [] ev.ev = "conn" ->
            [gh EXCEPT !.n = Plus(@, {"connections"} \cup (IF gh.broken THEN {"rules_errors"} ELSE {}) \cup (IF out.slow THEN {"yakkers"} ELSE {})),
                       !.on = TRUE, !.s = [wire |-> "init", broken |-> gh.broken, stalled |-> out.slow, tls |-> FALSE, told |-> FALSE, good |-> ~gh.broken /\ ~out.slow, got |-> FALSE, mails |-> 0]]
       [] ev.ev = "abort" -> over([gh EXCEPT !.n = Plus(@, AtEnd1(gh, out, "aborts"))])
       [] ev.ev = "starttls" ->
            IF out.cls # "2" THEN gh
            ELSE IF ev.works THEN [gh EXCEPT !.s.tls = TRUE, !.s.wire = "init"]
            ELSE \* a failure of TLS says nothing about what the client would have done
                 over([gh EXCEPT !.n = Plus(@, {"aborts", "tls_errors", "starttls"} \cup (IF Logged(out, "forced") THEN {"yakker_adds", "yakker_forces"} ELSE {}))])
       [] ev.ev = "msg" -> [gh EXCEPT !.n = Plus(@, {"messages"}), !.s.good = out.cls = "2", !.s.wire = IF out.cls = "2" THEN "helo" ELSE "post"]
       [] ev.ev = "cmd" /\ ev.verb = "QUIT" -> over([gh EXCEPT !.n = Plus(@, AtEnd1(gh, out, "quits"))])
       [] ev.ev = "cmd" /\ ev.verb = "RSET" -> [gh EXCEPT !.s.wire = IF @ = "init" THEN @ ELSE "helo"]
       [] ev.ev = "cmd" /\ ev.verb = "BAD" -> IF out.closed THEN over([gh EXCEPT !.n = Plus(@, AtEnd1(gh, out, "aborts"))]) ELSE gh
       [] ev.ev = "cmd" /\ ~Ord(ev.verb, s.wire) -> gh
       [] ev.ev = "cmd" /\ out.closed -> \* dropped for too many senders
            over([gh EXCEPT !.n = Plus(@, {"mailfrom", "rsets", "rsetdrops", "yakker_adds"})])
       [] ev.ev = "cmd" ->
            LET ok == out.cls \in {"2", "3"}
                first == ok /\ ev.verb = "EHLO" /\ s.tls /\ ~s.told
                \* a sender again, with nothing come of the earlier one
                again == ok /\ ev.verb = "MAIL" /\ s.mails > 0 /\ ~s.got /\ ~s.broken /\ ~s.stalled
            IN [gh EXCEPT !.n = Plus(@, {Name(ev.verb)} \cup (IF ok THEN {"ok_" \o Name(ev.verb)} ELSE {})
                                        \cup (IF first THEN {"starttls", "ehlo_tlson"} ELSE {}) \cup (IF again THEN {"rsets"} ELSE {})),
                          !.s = [@ EXCEPT !.good = ok, !.told = @ \/ first, !.got = @ \/ (ok /\ ev.verb = "RCPT"),
                                          !.mails = IF ~ok THEN @ ELSE IF ev.verb = "EHLO" THEN 0 ELSE IF ev.verb = "MAIL" THEN 1 ELSE @,
                                          !.wire = IF ~ok THEN @ ELSE CASE ev.verb = "EHLO" -> "helo" [] ev.verb = "MAIL" -> "mail" [] ev.verb = "RCPT" -> "rcpt" [] ev.verb = "DATA" -> "data"]]
       [] OTHER -> gh

KClaims(gh, ev, r, wo) ==
  LET m == KGhost(gh, ev, r, wo).n
      d == {k \in Counters \ {"notls_conns"} : m[k] # r.st.stats[k]}
      p == Published(r.st)
      \* Every entry of a table was new once and is still there, or was deleted, or
      \* was found stale.
      tab(t) == Num(p, t \o ".AddsNew") # Num(p, t \o ".Size") + Num(p, t \o ".Dels") + Num(p, t \o ".LookupExpired")
      \* Connections are the last thing known of themselves; nothing is later than
      \* now, and a message comes before no connection.
      late == {k \in DOMAIN p : HasPrefix(k, "last.") /\ p[k] > r.st.now + 1}
      conn == p["connections"] > 0 /\ p["last.connection"] # (LET x == Num(p, "last.regular") y == Num(p, "last.yakker") IN IF x > y THEN x ELSE y)
  IN {"C27 " \o k : k \in d} \cup {"C27 entries " \o t : t \in {u \in {"yakkers", "notls"} : tab(u)}}
     \cup {"C27 time " \o k : k \in late} \cup If(conn, "C27 last connection")
     \cup If(ev.ev = "conn" /\ p["last.connection"] # r.st.now + 1, "C27 last connection")
     \cup If(ev.ev = "msg" /\ p["last.message"] # r.st.now + 1, "C27 last message")
     \cup If(ev.ev = "cmd" /\ r.out.closed /\ gh.s.got /\ Num(p, "last.reached_minphase") # r.st.now + 1, "C27 last reached_minphase")

\* Equal states have equal futures, whatever has been counted.
KCore(s) == [s EXCEPT !.stats = 0, !.ncid = 0, !.saved = s.saved # {}, !.sess = [c \in DOMAIN @ |-> [@[c] EXCEPT !.id = ""]]]
KView == <<KCore(st), g.broken, g.on, g.s, bad>>
=============================================================================

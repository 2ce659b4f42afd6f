-------------------------------- MODULE McStart --------------------------------
(* Starting up with all combinations of up to Devs changes to a sensible       *)
(* command line (C29).  The claim lists what is wrong with a command line.      *)
EXTENDS Mc

CONSTANTS Devs

Changes ==
  { [savedir |-> ""], [savedir |-> "nodir"], [savedir |-> "alt"], [force |-> FALSE], [force |-> FALSE, savedir |-> ""], [rejectmsgs |-> TRUE],
    [hash |-> "msg"], [hash |-> "full"], [hash |-> "none"], [log |-> FALSE], [smtplog |-> FALSE],
    [dncount |-> 2], [dndur |-> 0], [dndur |-> 1], [dnlog |-> TRUE],
    [cert |-> "cert1.pem"], [key |-> "key1.pem"], [cert |-> "cert1.pem", key |-> "key1.pem"],
    [cert |-> "cert2.pem,cert1.pem", key |-> "key2.pem,key1.pem"], [cert |-> "cert1.pem,cert2.pem", key |-> "key1.pem"],
    [cert |-> "none.pem", key |-> "key1.pem"], [key |-> "key2.pem"],
    [minphase |-> "accepted"], [minphase |-> "rcpt"],
    [rfiles |-> <<>>], [rfiles |-> <<"rules", "broken">>], [rfiles |-> <<"none">>], [rfiles |-> <<"rules", "rules">>], [rfiles |-> <<"rules", "">>],
    [conncfg |-> "conns"], [conncfg |-> "badconns"], [conncfg |-> "none"],
    [listen |-> "none"], [listen |-> "foreign"], [more |-> 1], [logbad |-> "l"], [logbad |-> "dnlog"], [logbad |-> "smtplog"],
    [stdrules |-> TRUE], [fromreject |-> "list"], [toaccept |-> "none"], [heloreject |-> "list"] }

Good == [BaseCfg EXCEPT !.savedir = "spool"]
RECURSIVE Varied(_)
Varied(n) == IF n = 0 THEN {Good} ELSE LET q == Varied(n - 1) IN q \cup {[f \in DOMAIN c |-> IF f \in DOMAIN d THEN d[f] ELSE c[f]] : c \in q, d \in Changes}
TFiles == << [n |-> "rules", t |-> "@helo set-with all with note begun\n"], [n |-> "broken", t |-> "reject\n"],
             [n |-> "conns", t |-> "* hostname=c.test\n"], [n |-> "badconns", t |-> "192.0.2.1 host\n"], [n |-> "list", t |-> "b.test\n@b.test\n"] >>
TWorlds == AsSeq({World(c, TFiles, NoZone) : c \in Varied(Devs)})
TMoves == << <<Wait(1), Conn("a", "198.51.100.7"), Say("a", "EHLO", "one.test"), Bye("a")>> >>
TAllowed(s, gh, i) == TRUE
TGhost0(wo) == 0
TGhost(gh, ev, r, wo) == 0

Wrong(c) ==
     If(c.savedir = "" /\ ~c.force /\ ~c.rejectmsgs, "nowhere to save and neither -force-receive nor -M")
\cup If(c.savedir = "nodir", "cannot save there")
\cup If(c.hash = "none", "no such hash")
\cup If(c.hash = "msg" /\ ~c.log, "the log would be the only place with the envelope")
\cup If(c.dncount = 2 /\ ~c.smtplog, "nobody would see the clients that are stalled")
\cup If(c.dncount = 2 /\ c.dndur = 0, "too short")
\cup If(c.dnlog /\ c.dncount = 0, "nothing to log")
\cup If(<<c.cert, c.key>> \notin {<<"", "">>, <<"cert1.pem", "key1.pem">>, <<"cert2.pem,cert1.pem", "key2.pem,key1.pem">>}, "certificates")
\cup If(c.minphase = "rcpt", "no such phase")
\cup If(\E i \in DOMAIN c.rfiles : c.rfiles[i] \in {"broken", "none", ""}, "rules")
\cup If(c.listen # "", "nothing to listen on")
\cup If((c.logbad = "l" /\ c.log) \/ (c.logbad = "dnlog" /\ c.dnlog) \/ (c.logbad = "smtplog" /\ c.smtplog), "a log that cannot be written")
\cup If(c.conncfg \in {"badconns", "none"}, "connection parameters")

TClaims(gh, ev, r, wo) ==
  CASE ev.ev = "clock" -> If(r.st.up # (Wrong(wo.cfg) = {}), "C29 starts exactly with sensible options")
    [] ev.ev = "cmd" -> If(r.out.cls # "2", "C29 and serves")
    [] OTHER -> {}
TCore(s) == s.up
=============================================================================

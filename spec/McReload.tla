------------------------------- MODULE McReload -------------------------------
(* Files that change under the server: broken rules stall (C05), a session      *)
(* keeps to the rules it began with (C06), absent lists never match (C16).      *)
EXTENDS Mc

Sender == "a@x.test"
\* Texts of the rules file and what each means for MAIL FROM Sender, given the
\* files inc and pats: "ok", "5", "4", "list" or "notlist" (5 if the list, or
\* not the list, has the sender) or "broken".
Kinds == << [t |-> "reject from a@x.test\n", m |-> "5"], [t |-> "stall from @x.test\n", m |-> "4"],
            [t |-> "reject from a@x.test with\n", m |-> "broken"], [t |-> "include inc\n", m |-> "inc"],
            [t |-> "reject from ./pats\n", m |-> "list"], [t |-> "reject not from file:pats\n", m |-> "notlist"] >>
Incs == << [t |-> "reject from a@x.test\n", m |-> "5"], [t |-> "accept all\n", m |-> "ok"], [t |-> "accept all \"\n", m |-> "broken"] >>
Pats == << [t |-> "# a comment\n A@X.test \n", m |-> "in"], [t |-> "b@x.test", m |-> "out"], [t |-> "# nothing\n\n", m |-> "empty"] >>

RWorlds ==
  << World([BaseCfg EXCEPT !.dncount = 2, !.dndur = 1000, !.minphase = "to", !.savedir = "spool"],
           <<[n |-> "rules", t |-> Kinds[1].t], [n |-> "inc", t |-> Incs[1].t], [n |-> "pats", t |-> Pats[1].t]>>, NoZone) >>

RMoves ==
  [i \in DOMAIN Kinds |-> <<WriteFile("rules", Kinds[i].t)>>] \o << <<RemoveFile("rules")>> >>
  \o [i \in 1..2 |-> <<WriteFile("inc", Incs[i + 1].t)>>] \o << <<RemoveFile("inc")>> >>
  \o [i \in 1..2 |-> <<WriteFile("pats", Pats[i + 1].t)>>] \o << <<RemoveFile("pats")>>, <<WriteFile("pats", Pats[1].t)>> >>
  \o << <<Conn("a", "198.51.100.7"), Say("a", "EHLO", "one.test")>>, <<Say("a", "MAIL", Sender), Say("a", "RSET", "")>>, <<Gone("a")>>,
        <<Conn("b", "198.51.100.8")>>, <<Say("b", "EHLO", "one.test"), Say("b", "MAIL", Sender), Bye("b")>> >>
RAllowed(s, gh, i) == TRUE

\* The files now; of each session, the rules it began with and the list it has read.
RGhost0(wo) == [rules |-> "5", inc |-> "5", pats |-> "in", sess |-> [c \in {} |-> 0], ends |-> 0]

Meaning(q, t) == LET k == {i \in DOMAIN q : q[i].t = t} IN q[CHOOSE i \in k : TRUE].m
\* What the rules file means now.
Now(gh) == IF gh.rules = "inc" THEN (IF gh.inc = "gone" THEN "broken" ELSE gh.inc) ELSE IF gh.rules = "gone" THEN "broken" ELSE gh.rules

RGhost(gh, ev, r, wo) ==
  CASE ev.ev = "file" /\ ev.path = "rules" -> [gh EXCEPT !.rules = IF ev.gone THEN "gone" ELSE Meaning(Kinds, ev.text)]
    [] ev.ev = "file" /\ ev.path = "inc"   -> [gh EXCEPT !.inc = IF ev.gone THEN "gone" ELSE Meaning(Incs, ev.text)]
    [] ev.ev = "file" /\ ev.path = "pats"  -> [gh EXCEPT !.pats = IF ev.gone THEN "empty" ELSE Meaning(Pats, ev.text)]
    [] ev.ev = "conn" -> [gh EXCEPT !.sess = (ev.c :> [m |-> Now(gh), list |-> "unread", helo |-> FALSE, mail |-> FALSE]) @@ @]
    [] ev.ev = "cmd" /\ ev.verb = "EHLO" -> [gh EXCEPT !.sess[ev.c].helo = r.out.cls = "2"]
    [] ev.ev = "cmd" /\ ev.verb = "MAIL" /\ gh.sess[ev.c].helo /\ ~gh.sess[ev.c].mail ->
         [gh EXCEPT !.sess[ev.c].list = IF gh.sess[ev.c].m \in {"list", "notlist"} /\ @ = "unread" THEN gh.pats ELSE @,
                    !.sess[ev.c].mail = r.out.cls = "2"]
    [] ev.ev = "cmd" /\ ev.verb = "RSET" -> [gh EXCEPT !.sess[ev.c].mail = FALSE]
    [] ev.ev = "abort" \/ (ev.ev = "cmd" /\ ev.verb = "QUIT") -> [gh EXCEPT !.sess = [k \in DOMAIN @ \ {ev.c} |-> @[k]]]
    [] OTHER -> gh

List(gh, c) == IF gh.sess[c].list = "unread" THEN gh.pats ELSE gh.sess[c].list
Answer(gh, c) ==
  LET m == gh.sess[c].m IN
  CASE m \in {"5", "4"} -> m
    [] m = "ok" -> "2"
    [] m = "list" -> IF List(gh, c) = "in" THEN "5" ELSE "2"
    [] m = "notlist" -> IF List(gh, c) = "out" THEN "5" ELSE "2"
    [] OTHER -> "?"

RClaims(gh, ev, r, wo) ==
  LET out == r.out IN
  CASE ev.ev = "cmd" /\ ev.verb = "EHLO" -> If(out.cls # (IF gh.sess[ev.c].m = "broken" THEN "4" ELSE "2"), "C05 broken rules stall")
    [] ev.ev = "cmd" /\ ev.verb = "MAIL" /\ gh.sess[ev.c].helo /\ ~gh.sess[ev.c].mail ->
         If(out.cls # Answer(gh, ev.c) /\ ~out.closed, "C06 C16 the session's own rules and lists")
    [] ev.ev = "abort" \/ (ev.ev = "cmd" /\ ev.verb = "QUIT") ->
         \* broken rules never count against a client
         If(gh.sess[ev.c].m = "broken" /\ out.bang # <<>>, "C05 does not count")
    [] OTHER -> {}

RCore(s) == [fs |-> s.fs, sess |-> [c \in DOMAIN s.sess |-> LET x == s.sess[c] IN <<x.wire, x.rules, x.lists, x.good>>]]
=============================================================================

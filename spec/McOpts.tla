-------------------------------- MODULE McOpts --------------------------------
(* Options that stand for rules (C28).  The ghost is a server without these     *)
(* options, whose rules file begins with the rules that they stand for: the two *)
(* servers have to answer alike.                                                *)
EXTENDS Mc

CONSTANTS Own                  \* which of the rules files of its own each server has

OwnText(o) ==
  CASE o = "accept" -> "accept all\n"
    [] o = "none" -> ""
    [] o = "some" -> "@helo stall helo two.test\nset-with from a@x.test with message own note own\n@message stall all\n"
    [] o = "to" -> "@to accept to c@y.test with message fine\nreject to @y.test with message own\n"

\* A list: its name, and its text if it exists.
NoList == [n |-> "", t |-> ""]
FromLists == {NoList, [n |-> "fl", t |-> "a@x.test\n"], [n |-> "none", t |-> ""], [n |-> "fl", t |-> "#\n"]}
ToLists   == {NoList, [n |-> "tl", t |-> "c@y.test\n@Z.test\n"], [n |-> "none", t |-> ""]}
HeloLists == {NoList, [n |-> "hl", t |-> ".one.test\n"]}
Options == [std : BOOLEAN, m : BOOLEAN, from : FromLists, to : ToLists, helo : HeloLists, own : Own]

File1(l) == IF l.n \in {"", "none"} THEN <<>> ELSE << l >>
OCfg(o) == [BaseCfg EXCEPT !.stdrules = o.std, !.rejectmsgs = o.m, !.fromreject = o.from.n, !.toaccept = o.to.n, !.heloreject = o.helo.n,
                           !.savedir = "spool", !.rfiles = <<"rules", "rules2">>]
OWorlds == AsSeq({World(OCfg(o), << [n |-> "rules", t |-> OwnText(o.own)], [n |-> "rules2", t |-> "reject from d@x.test\n"] >>
                                 \o File1(o.from) \o File1(o.to) \o File1(o.helo), NoZone) : o \in Options})

Hi(verb, name) == << Conn("a", "198.51.100.7"), Say("a", verb, name) >>
OMoves ==
  << Hi("EHLO", "two.test"), Hi("HELO", ""), Hi("EHLO", "a.one.test"), << Say("a", "EHLO", "a.one.test") >>,
     << Say("a", "MAIL", "a@x.test") >>, << Say("a", "MAIL", "b@x.test") >>, << Say("a", "MAIL", "") >>, << Say("a", "MAIL", "noat") >>, << Say("a", "MAIL", "d@x.test") >>,
     << Say("a", "RCPT", "c@y.test") >>, << Say("a", "RCPT", "d@y.test") >>, << Say("a", "RCPT", "@r:e@z.test") >>, << Say("a", "RCPT", "f@z.test") >>,
     << Say("a", "DATA", ""), Mesg("a", "hello") >>, << Say("a", "RSET", "") >>, << Bye("a") >> >>
OAllowed(s, gh, i) ==
  IF "a" \notin DOMAIN s.sess THEN i \in 1..3
  ELSE LET x == s.sess["a"].wire IN
       CASE x = "init" -> i = 4 [] x = "helo" -> i \in 5..9 [] x = "mail" -> i \in 10..13 [] x = "rcpt" -> i \in 10..14 [] x = "post" -> i \in {15, 16} [] OTHER -> FALSE

StandFor(cfg) ==
  (IF cfg.stdrules THEN "reject from-has bad,route\nreject to-has bad,route\nreject helo-has none\n" ELSE "")
  \o (IF cfg.rejectmsgs THEN "@message reject all\n" ELSE "")
  \o (IF cfg.fromreject \in {"", "none"} THEN "" ELSE "reject from file:" \o cfg.fromreject \o "\n")
  \o (IF cfg.toaccept \in {"", "none"} THEN "" ELSE "reject not to file:" \o cfg.toaccept \o "\n")
  \o (IF cfg.heloreject \in {"", "none"} THEN "" ELSE "@from reject helo file:" \o cfg.heloreject \o "\n")
Plain(cfg) == [cfg EXCEPT !.stdrules = FALSE, !.rejectmsgs = FALSE, !.fromreject = "", !.toaccept = "", !.heloreject = ""]
OGhost0(wo) ==
  LET fs == ToFs(wo.files)
  IN Step(Fresh(Plain(wo.cfg), [fs EXCEPT !["rules"] = StandFor(wo.cfg) \o @], ToZone(NoZone)), Startup).st
OGhost(gh, ev, r, wo) == Step(gh, ev).st

OClaims(gh, ev, r, wo) ==
  LET twin == Step(gh, ev).out
      o == wo.cfg IN
  If(r.out # twin, "C28 as if they were rules")
  \cup If(ev.ev = "msg" /\ o.rejectmsgs /\ r.out.cls # "5", "C28 -M")
  \cup If(ev.ev = "msg" /\ (Len(r.out.log) # 1 \/ (r.out.new = <<>> /\ r.out.id # "saved")), "C28 logged and saved even so")
  \cup If(ev.ev = "cmd" /\ ev.verb = "HELO" /\ ev.arg = "" /\ o.stdrules /\ r.out.cls # "5", "C28 no HELO name")
  \cup If(ev.ev = "cmd" /\ ev.verb = "MAIL" /\ ev.arg = "noat" /\ o.stdrules /\ r.out.cls # "5", "C28 bad sender")
  \cup If(ev.ev = "cmd" /\ ev.verb = "RCPT" /\ ev.arg = "@r:e@z.test" /\ o.stdrules /\ r.out.cls # "5", "C28 source route")
  \cup If(ev.ev = "cmd" /\ ev.verb = "RCPT" /\ ev.arg = "d@y.test" /\ o.toaccept = "tl" /\ r.out.cls # "5", "C28 not an accepted recipient")
  \cup If(ev.ev = "cmd" /\ ev.verb = "MAIL" /\ ev.arg = "a@x.test" /\ wo.files[Len(wo.files)].t = "a@x.test\n" /\ r.out.cls # "5", "C28 rejected sender")
  \cup If(ev.ev = "cmd" /\ ev.verb = "MAIL" /\ ev.arg # "" /\ o.heloreject # "" /\ "a" \in DOMAIN gh.sess /\ gh.sess["a"].hname = "a.one.test" /\ r.out.cls # "5", "C28 rejected HELO name")

OCore(s) == [saved |-> s.saved # {}, sess |-> [c \in DOMAIN s.sess |-> LET x == s.sess[c] IN <<x.wire, x.helo, x.from, x.rcpts, x.def.act>>]]
OView == <<w, OCore(st), hist = <<>>, bad>>
=============================================================================

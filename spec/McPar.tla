-------------------------------- MODULE McPar --------------------------------
(* Two sessions in all interleavings (C25): each is answered, saved and logged  *)
(* as if it were alone.  The ghost has a server for each session alone.         *)
EXTENDS Mc

CONSTANT Texts

PWorlds ==
  AsSeq({World([BaseCfg EXCEPT !.savedir = "spool", !.hash = h, !.stdrules = TRUE],
               <<[n |-> "rules", t |-> t], [n |-> "pats", t |-> "a@x.test\n"]>>, NoZone) : t \in Texts, h \in {"all"}})

Conv(c, rip, helo, from, to, body) ==
  << <<Conn(c, rip)>>, <<Say(c, "EHLO", helo)>>, <<Say(c, "MAIL", from)>>, <<Say(c, "RCPT", to)>>, <<Say(c, "DATA", "")>>, <<Mesg(c, body)>>, <<Bye(c)>> >>
PMoves == Conv("a", "198.51.100.7", "one.test", "a@x.test", "r@y.test", "hello")
          \o Conv("b", "198.51.100.8", "two.test", "", "s@y.test", "other") \o << <<Gone("a")>> >>

\* Each conversation in its order.
Of(i) == IF i <= 7 \/ i = 15 THEN "a" ELSE "b"
PAllowed(s, gh, i) == IF i = 15 THEN TRUE ELSE gh.at[Of(i)] = (IF i <= 7 THEN i ELSE i - 7) - 1

Alone(wo) == Step(Fresh(wo.cfg, ToFs(wo.files), ToZone(NoZone)), Startup).st
PGhost0(wo) == [at |-> [c \in {"a", "b"} |-> 0], solo |-> [c \in {"a", "b"} |-> Alone(wo)], out |-> [c \in {"a", "b"} |-> Obs0]]

PGhost(gh, ev, r, wo) ==
  LET s == Step(gh.solo[ev.c], ev)
  IN [gh EXCEPT !.at[ev.c] = IF ev.ev = "abort" \/ r.out.closed THEN 7 ELSE @ + 1, !.solo[ev.c] = s.st]

PClaims(gh, ev, r, wo) == If(Can(gh.solo[ev.c], ev) /\ Step(gh.solo[ev.c], ev).out # r.out, "C25 as if alone")
                          \cup If(~Can(gh.solo[ev.c], ev), "C25 could not happen alone")
                          \cup If(\E c \in DOMAIN r.st.sess : \E d \in DOMAIN r.st.sess \ {c} : r.st.sess[c].id = r.st.sess[d].id, "C25 ids")

PCore(s) == [sess |-> [c \in DOMAIN s.sess |-> LET x == s.sess[c] IN <<x.wire, x.lists, x.def, x.bang, x.savedir>>], saved |-> s.saved]
=============================================================================

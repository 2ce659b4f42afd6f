-------------------------------- MODULE McSave --------------------------------
(* Saving under faults and crashes (C17, C19, C31).  The ghost has the messages *)
(* that clients have been told are accepted.                                   *)
EXTENDS Mc

CONSTANTS Hashes, Faults, Kills

VWorlds ==
  AsSeq({World([BaseCfg EXCEPT !.savedir = "spool", !.hash = h], <<[n |-> "rules", t |-> t]>>, NoZone)
            : h \in Hashes, t \in {"@message reject to s@y.test\nset-with from b@x.test with savedir alt\n"}})

\* A whole session that sends message b from f to t.
Talk(c, rip, f, t, m) ==
  << Conn(c, rip), Say(c, "EHLO", "one.test"), Say(c, "MAIL", f), Say(c, "RCPT", t), Say(c, "DATA", ""), m, Bye(c) >>
T(f, t, m) == Talk("a", "198.51.100.7", f, t, m)
VMoves ==
  << T("a@x.test", "r@y.test", Mesg("a", "hello")), T("b@x.test", "r@y.test", Mesg("a", "hello")),
     T("a@x.test", "s@y.test", Mesg("a", "hello")), T("a@x.test", "r@y.test", Mesg("a", "other")),
     Talk("b", "198.51.100.8", "a@x.test", "r@y.test", Mesg("b", "hello")), << Wait(1) >>,
     << Killed, Startup >> >>
  \o AsSeq({T("a@x.test", "r@y.test", FaultMesg("a", "hello", f, IF f = "write" THEN 30 ELSE 0, "EIO")) : f \in Faults})
  \o AsSeq({T("a@x.test", "s@y.test", FaultMesg("a", "hello", f, 0, "ENOSPC")) : f \in Faults})
  \o AsSeq({Append(T("a@x.test", "r@y.test", KillMesg("a", "hello", k, IF k = "write" THEN 30 ELSE 0,
                                                     IF k = "remove" THEN "whole" ELSE "")), Startup) : k \in Kills})
VAllowed(s, gh, i) == TRUE

\* told: keys of messages that clients were told are accepted; disk: keys of the
\* records that have appeared; maybe: of messages during whose saving the server died.
VGhost0(wo) == [told |-> {}, disk |-> {}, maybe |-> {}, cur |-> [f |-> "", t |-> "", rip |-> ""], now |-> 0]

\* What makes a record different, for a hash type.
Id(gh, ev, wo) ==
  LET d == IF gh.cur.f = "b@x.test" THEN "alt" ELSE "spool"
      env == <<gh.cur.rip, gh.cur.f, gh.cur.t, ev.body>>
  IN CASE wo.cfg.hash = "msg" -> <<d, ev.body>> [] wo.cfg.hash = "full" -> <<d, env>>
       [] OTHER -> <<d, env, ev.c>>     \* the session's id; the model's clock text stands still

VGhost(gh, ev, r, wo) ==
  CASE ev.ev = "conn" -> [gh EXCEPT !.cur.rip = ev.rip]
    [] ev.ev = "cmd" /\ ev.verb = "MAIL" -> [gh EXCEPT !.cur.f = ev.arg]
    [] ev.ev = "cmd" /\ ev.verb = "RCPT" -> [gh EXCEPT !.cur.t = ev.arg]
    [] ev.ev = "msg" -> [gh EXCEPT !.told = IF r.out.cls = "2" THEN @ \cup {Id(gh, ev, wo)} ELSE @,
                                   !.disk = IF r.out.kind = "reply" /\ r.out.new # <<>> THEN @ \cup {Id(gh, ev, wo)} ELSE @,
                                   !.maybe = IF r.out.kind = "crash" THEN @ \cup {Id(gh, ev, wo)} ELSE @]
    [] OTHER -> gh

VClaims(gh, ev, r, wo) ==
  LET out == r.out IN
  CASE ev.ev = "msg" /\ ev.fault # "kill" ->
         LET id == Id(gh, ev, wo)
             appeared == out.new # <<>>
         IN If(out.cls = "2" /\ ~appeared /\ id \notin gh.disk \cup gh.maybe, "C17 C31 accepted and not recorded")
            \cup If(ev.fault # "" /\ (out.cls # "4" \/ appeared), "C17 failed and not deferred")
            \cup If(ev.fault = "" /\ out.cls # (IF gh.cur.t = "s@y.test" THEN "5" ELSE "2"), "C17 the rules decide once it is saved")
            \cup If(appeared /\ id \in gh.disk, "C19 recorded again")
            \cup If(ev.fault = "" /\ ~appeared /\ id \notin gh.disk \cup gh.maybe, "C17 saved properly when sent again")
            \cup If(Len(out.log) # 1, "C20 one line")
            \cup If(out.cls # "4" /\ out.id # "saved", "C19 reported")
    [] ev.ev = "msg" /\ ev.fault = "kill" -> If(out.cls # "drop", "C31 no answer")
    [] ev.ev = "start" -> If(~out.up, "C31 starts again")
                          \cup If(Cardinality(gh.told \ (gh.disk \cup gh.maybe)) # 0, "C31 lost")
                          \* every record that was there is still known to the server
                          \cup If(Cardinality(r.st.saved) < Cardinality(gh.disk), "C31 forgotten")
    [] OTHER -> {}

VCore(s) == [saved |-> s.saved, up |-> s.up, sess |-> s.sess]
=============================================================================

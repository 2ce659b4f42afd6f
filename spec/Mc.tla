---------------------------------- MODULE Mc ----------------------------------
(* Exploring the specification.  A model names some worlds (command line, files *)
(* and DNS), the moves that can be made in them, a ghost that remembers what   *)
(* has been seen from outside, and the claims of a property, stated on the     *)
(* ghost and not on the server's own state.  TLC makes all moves from all      *)
(* states; every claim has to hold of every step.  Every transition is printed *)
(* as the numbers of the moves that lead to it, and the harness makes the real *)
(* server make those moves.                                                    *)
EXTENDS Sink, Json, Seqs, TLCExt

CONSTANTS
  Worlds,               \* sequence of [cfg, files, zone]
  Moves,                \* sequence of sequences of events
  MaxLen,               \* number of moves
  Emit,                 \* print the transitions
  Allowed(_, _, _),     \* state, ghost and move
  Ghost0(_),            \* the ghost at the beginning, of a world
  Ghost(_, _, _, _),    \* the ghost after an event: ghost, event, result of the step, world
  Claims(_, _, _, _),   \* the claims broken by a step: ghost before, event, result, world
  Core(_)               \* what matters of the state

VARIABLES
  w, world,             \* number of the world, and the world with its parsed rules
  st, g, hist, bad

\* Recorded forms of files and zones.
ToFs(q) == [n \in {q[i].n : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].n = n].t]
ToZone(z) ==
  [ names |-> [n \in {z.names[i].n : i \in DOMAIN z.names} |-> z.names[CHOOSE i \in DOMAIN z.names : z.names[i].n = n]],
    ptr   |-> [n \in {z.ptr[i].n : i \in DOMAIN z.ptr} |-> z.ptr[CHOOSE i \in DOMAIN z.ptr : z.ptr[i].n = n].names] ]

RECURSIVE Flat(_, _)
Flat(q, i) == IF i > Len(q) THEN <<>> ELSE q[i] \o Flat(q, i + 1)

----------------------------------------------------------------------------
(* Parts of worlds and moves.                                                  *)
BaseCfg ==
  [ stdrules |-> FALSE, rejectmsgs |-> FALSE, fromreject |-> "", toaccept |-> "", heloreject |-> "",
    rfiles |-> <<"rules">>, smtplog |-> TRUE, log |-> TRUE, dnlog |-> FALSE, dncount |-> 0, dndur |-> 28800,
    minphase |-> "helo", savedir |-> "", hash |-> "all", helo |-> "", cert |-> "", key |-> "", conncfg |-> "",
    slow |-> FALSE, force |-> TRUE, dirs |-> <<"spool", "alt">>, perip |-> FALSE, more |-> 0, listen |-> "", logbad |-> "" ]
NoZone == [names |-> <<>>, ptr |-> <<>>]
World(cfg, files, zone) == [cfg |-> cfg, files |-> files, zone |-> zone]
RulesWorld(text) == World(BaseCfg, << [n |-> "rules", t |-> text] >>, NoZone)

E0 == [ev |-> "", c |-> "", verb |-> "", arg |-> "", garbled |-> FALSE]
MyIP == "192.0.2.25"
ConnTo(c, rip, lip, lport) ==
  [ev |-> "conn", c |-> c, rip |-> rip, lip |-> lip, lport |-> lport, raddr |-> rip \o ":1234",
   laddr |-> lip \o ":" \o Dec(lport), cid |-> c]
Conn(c, rip) == ConnTo(c, rip, MyIP, 25)
Say(c, verb, arg) == [E0 EXCEPT !.ev = "cmd", !.c = c, !.verb = verb, !.arg = arg]
Bye(c) == Say(c, "QUIT", "")
Gone(c) == [E0 EXCEPT !.ev = "abort", !.c = c]
\* A message whose text is b.
Mesg(c, b) ==
  [ev |-> "msg", c |-> c, body |-> <<b>>, hash |-> b, bodyhash |-> b, bytes |-> Len(b) + 2, ts |-> "T",
   tlsinfo |-> "tls", tlslog |-> " tls", fault |-> "", left |-> "", faultn |-> 0, ferr |-> "", text |-> ""]
FaultMesg(c, b, f, n, e) == [Mesg(c, b) EXCEPT !.fault = f, !.faultn = n, !.ferr = e]
KillMesg(c, b, op, n, left) ==
  [Mesg(c, b) EXCEPT !.fault = "kill", !.text = op, !.faultn = n, !.ferr = "KILL", !.left = left]
WriteFile(p, t) == [ev |-> "file", path |-> p, text |-> t, gone |-> FALSE]
RemoveFile(p) == [ev |-> "file", path |-> p, text |-> "", gone |-> TRUE]
Tls(c, works, sni) == [ev |-> "starttls", c |-> c, works |-> works, sni |-> sni]
LostConn == [ev |-> "accfail", ferr |-> "full"]
Wait(t) == [ev |-> "wait", now |-> t]         \* becomes a clock event
Startup == [ev |-> "start", pid |-> "P"]
Killed == [ev |-> "kill"]

----------------------------------------------------------------------------
\* Events that the world can produce; the harness leaves out others just so.
Can(s, ev) ==
  CASE ev.ev = "conn" -> s.up /\ ev.c \notin DOMAIN s.sess
    [] ev.ev \in {"cmd", "starttls"} -> ev.c \in DOMAIN s.sess /\ s.sess[ev.c].wire # "data"
    [] ev.ev = "msg" -> ev.c \in DOMAIN s.sess /\ s.sess[ev.c].wire = "data"
    [] ev.ev = "abort" -> ev.c \in DOMAIN s.sess
    [] ev.ev = "start" -> ~s.up
    [] ev.ev = "kill" -> s.up
    [] OTHER -> TRUE

Timed(s, ev) == IF ev.ev = "wait" THEN [ev |-> "clock", now |-> s.now + ev.now] ELSE ev

\* Making the events of a move one after the other, with ghost and claims.
Run(s, gh, m, wo) ==
  LET one(x, e) ==
        LET ev == Timed(x.st, e)
        IN IF ~Can(x.st, ev) THEN x
           ELSE LET r == Step(x.st, ev)
                IN [st |-> r.st, g |-> Ghost(x.g, ev, r, wo), bad |-> x.bad \cup Claims(x.g, ev, r, wo)]
  IN Fold(one, [st |-> s, g |-> gh, bad |-> {}], m)

Init ==
  /\ \E q \in {TLCEval(Worlds)} :
       /\ w \in DOMAIN q
       /\ world = [cfg |-> q[w].cfg, files |-> q[w].files,
                   rules |-> LoadAll(ToFs(q[w].files), q[w].cfg.rfiles, <<>>).rules]
       /\ st = Step(Fresh(q[w].cfg, ToFs(q[w].files), ToZone(q[w].zone)), Startup).st
       /\ g = Ghost0(world)
  /\ hist = <<>>
  /\ bad = {}

\* The moves, evaluated once.
ASSUME TLCSet(1, TLCEval(Moves))
Table == TLCGet(1)

Next ==
  /\ Len(hist) < MaxLen
  /\ \E i \in DOMAIN Table :
    /\ Can(st, Timed(st, Table[i][1]))
    /\ Allowed(st, g, i)
    /\ LET r == Run(st, g, Table[i], world)
       IN st' = r.st /\ g' = r.g /\ bad' = r.bad
    \* TLC leaves functions unevaluated that it then cannot write to disk.
    /\ IF TLCFP(<<st', g'>>) = 0 THEN TRUE ELSE TRUE
    /\ hist' = Append(hist, i)
    /\ w' = w /\ world' = world
    /\ Emit => PrintT("MOVES " \o ToJson([w |-> w, m |-> hist']))

vars == <<w, world, st, g, hist, bad>>
Spec == Init /\ [][Next]_vars
View == <<w, Core(st), g, bad>>

Sound == bad = {}

\* Printed once, for the harness.
ASSUME ~Emit \/ PrintT("WORLDS " \o ToJson(Worlds))
ASSUME ~Emit \/ PrintT("TABLE " \o ToJson(Moves))

If(c, a) == IF c THEN {a} ELSE {}
=============================================================================

------------------------------ MODULE McSession ------------------------------
(* One client, all conversations, many small rule sets: what decides a command *)
(* (C01), null senders (C03), options (C04) and rules about recipients (C30),  *)
(* stated on what the client itself has seen.                                  *)
EXTENDS Mc

CONSTANT Stride, Phase   \* every Stride'th of the rule sets, from number Phase on

----------------------------------------------------------------------------
Conds ==
  << "all", "helo one.test", "from a@x.test", "from <>", "to r@y.test", "not to r@y.test",
     "to r@y.test or from a@x.test", "not from <> to s@y.test", "to r@y.test ; from a@x.test with message \"m1\"" >>
Firsts ==
  {p \o a \o " " \o Conds[c] : p \in {"", "@helo ", "@from ", "@to ", "@data ", "@message "},
                               a \in {"reject", "stall", "accept"}, c \in DOMAIN Conds}
  \cup {"set-with " \o Conds[c] \o " with " \o o : c \in 1..8, o \in {"message \"m2\"", "savedir alt", "note n2"}}
Seconds == {"", "reject from <>\n", "stall to s@y.test with message \"m3\" note n3\n", "@message reject all with message \"m4\n\nm5\"\n",
            "set-with from <> with message \"m6\"\nreject from <> or to s@y.test\n", "@connect reject all\n"}
Pick(q, n, k) == [i \in 1..((Len(q) - k) \div n) |-> q[k + i * n]]
Texts == SelectSeq(Pick(AsSeq({a \o "\n" \o b : a \in Firsts, b \in Seconds}), Stride, Phase), LAMBDA t : Parse(t).ok)
SWorlds ==
  LET q == TLCEval(Texts)
  IN [i \in DOMAIN q |-> World([BaseCfg EXCEPT !.savedir = "spool"], <<[n |-> "rules", t |-> q[i]]>>, NoZone)]

SMoves ==
  << << Conn("a", "198.51.100.7") >>, << Conn("a", "198.51.100.7"), Say("a", "EHLO", "one.test") >>,
     << Say("a", "EHLO", "one.test") >>, << Say("a", "HELO", "two.test") >>,
     << Say("a", "MAIL", "") >>, << Say("a", "MAIL", "a@x.test") >>,
     << Say("a", "RCPT", "r@y.test") >>, << Say("a", "RCPT", "s@y.test") >>,
     << Say("a", "DATA", "") >>, << Mesg("a", "hello") >>, << Say("a", "RSET", "") >>, << Bye("a") >> >>
SAllowed(s, gh, i) == TRUE

----------------------------------------------------------------------------
(* The ghost: how far the conversation has got, by the answers alone.          *)
SGhost0(wo) == [wire |-> "no", name |-> "", helo |-> "", from |-> "", rcpts |-> <<>>, null |-> FALSE, dir |-> "spool",
                notes |-> <<>>, saved |-> {}]

Rules0(wo) == wo.rules

\* A condition holds, given what is known.
RECURSIVE Truth(_, _)
Truth(e, x) ==
  CASE e.op = "all"   -> TRUE
    [] e.op = "not"   -> ~Truth(e.a, x)
    [] e.op = "and"   -> \A i \in DOMAIN e.q : Truth(e.q[i], x)
    [] e.op = "or"    -> Truth(e.a, x) \/ Truth(e.b, x)
    [] e.op = "match" -> CASE e.what = "from" -> (IF e.arg = "<>" THEN x.from = "" ELSE x.from = e.arg)
                           [] e.what = "to"   -> x.to = e.arg
                           [] e.what = "helo" -> x.helo = e.arg
\* The first clause of rule r that holds, 0 if there is none.
Clause(r, x) ==
  LET q == {i \in DOMAIN r.clauses : Truth(r.clauses[i].expr, x)}
  IN IF q = {} THEN 0 ELSE CHOOSE i \in q : \A j \in q : i <= j

PhaseOfCmd(v) == CASE v \in {"EHLO", "HELO"} -> PHelo [] v = "MAIL" -> PFrom [] v = "RCPT" -> PTo
                   [] v = "DATA" -> PData [] OTHER -> PMessage

\* What the rules mention, from their text.
RECURSIVE Mentions(_)
Mentions(e) == CASE e.op = "not" -> Mentions(e.a)
                 [] e.op = "and" -> UNION {Mentions(e.q[i]) : i \in DOMAIN e.q}
                 [] e.op = "or"  -> Mentions(e.a) \cup Mentions(e.b)
                 [] e.op = "match" -> {e.what}
                 [] OTHER -> {}
RuleMentions(r) == UNION {Mentions(r.clauses[i].expr) : i \in DOMAIN r.clauses}
FirstPhase(r) == IF "to" \in RuleMentions(r) THEN PTo ELSE IF "from" \in RuleMentions(r) THEN PFrom
                 ELSE IF "helo" \in RuleMentions(r) THEN PHelo ELSE PConnect
Applies(r, ph) == IF r.phase # PAny THEN r.phase = ph ELSE ph >= FirstPhase(r)

\* The values of the recipient that rule r is about.
Tos(r, ph, x, rcpts) == IF ph > PTo /\ "to" \in RuleMentions(r) THEN rcpts ELSE <<x.to>>
Holds(r, ph, x, rcpts) ==
  \E i \in DOMAIN Tos(r, ph, x, rcpts) : Clause(r, [x EXCEPT !.to = Tos(r, ph, x, rcpts)[i]]) # 0
\* The clause that holds (of the first recipient for which one does).
Which(r, ph, x, rcpts) ==
  LET t == Tos(r, ph, x, rcpts)
      k == {i \in DOMAIN t : Clause(r, [x EXCEPT !.to = t[i]]) # 0}
      f == CHOOSE i \in k : \A j \in k : i <= j
  IN r.clauses[Clause(r, [x EXCEPT !.to = t[f]])]

\* [act, opts] of phase ph.
Judge(R0, ph, x, rcpts) ==
  LET hit == {i \in DOMAIN R0 : Applies(R0[i], ph) /\ Holds(R0[i], ph, x, rcpts)}
      dec == {i \in hit : R0[i].act # "set-with"}
      d == IF dec = {} THEN 0 ELSE CHOOSE i \in dec : \A j \in dec : i <= j
      inforce == {i \in hit : d = 0 \/ i <= d}
      has(k) == {i \in inforce : k \in DOMAIN Which(R0[i], ph, x, rcpts).withs}
      val(k) == IF has(k) = {} THEN ""
                ELSE Which(R0[CHOOSE i \in has(k) : \A j \in has(k) : i >= j], ph, x, rcpts).withs[k]
  IN [act |-> IF d = 0 THEN "none" ELSE R0[d].act, message |-> val("message"), savedir |-> val("savedir"), note |-> val("note")]

InOrder(gh, v) ==
  CASE v \in {"EHLO", "HELO"} -> gh.wire \in {"init", "helo"} [] v = "MAIL" -> gh.wire = "helo"
    [] v = "RCPT" -> gh.wire \in {"mail", "rcpt"} [] v = "DATA" -> gh.wire = "rcpt" [] OTHER -> TRUE

\* What is known when v with argument a is being decided.
Known0(gh, v, a) ==
  [helo |-> IF v \in {"EHLO", "HELO"} THEN a ELSE gh.name, from |-> IF v = "MAIL" THEN a ELSE gh.from,
   to |-> IF v = "RCPT" THEN a ELSE ""]
TheVerdict(gh, v, a, wo) == Judge(Rules0(wo), PhaseOfCmd(v), Known0(gh, v, a), gh.rcpts)
\* The deferred verdict of a null sender.
NullVerdict(gh, wo) == Judge(Rules0(wo), PFrom, [helo |-> gh.name, from |-> "", to |-> ""], <<>>)
Deferred(gh, wo) == gh.null /\ Refusal(NullVerdict(gh, wo).act)

Expected(gh, v, a, wo) ==
  IF v \in {"RCPT", "DATA", "MSG"} /\ Deferred(gh, wo) THEN NullVerdict(gh, wo)
  ELSE IF v = "MAIL" /\ a = "" /\ Refusal(TheVerdict(gh, v, a, wo).act)
       THEN [act |-> "accept", message |-> "", savedir |-> "", note |-> ""]
  ELSE TheVerdict(gh, v, a, wo)

Class(act, ok) == CASE act = "reject" -> "5" [] act = "stall" -> "4" [] OTHER -> ok
Good(v) == CASE v = "DATA" -> "3" [] OTHER -> "2"

\* What the log of the session says of it so far: the notes, command by command.
Notes(gh, v, a, wo) == LET n == Expected(gh, v, a, wo).note IN IF n = "" THEN <<>> ELSE <<[k |-> "note", v |-> n]>>

\* The record of a message.
Record(gh) ==
  << "id P/a 198.51.100.7:1234 T", "remote 198.51.100.7 to " \o MyIP \o ":25 with helo '" \o gh.helo \o "'",
     "from <" \o gh.from \o ">" >>
  \o [i \in DOMAIN gh.rcpts |-> "to <" \o gh.rcpts[i] \o ">"]
  \o << "hash hello bytes 7", "bodyhash hello", "body" >>

SGhost(gh, ev, r, wo) ==
  LET out == r.out
      ok == out.cls \in {"2", "3"} IN
  CASE ev.ev = "conn" -> IF ok THEN [SGhost0(wo) EXCEPT !.wire = "init", !.saved = gh.saved] ELSE gh
    [] ev.ev = "msg"  -> LET e == Expected(gh, "MSG", "", wo)
                         IN [gh EXCEPT !.wire = IF ok THEN "helo" ELSE "post", !.dir = IF e.savedir # "" THEN e.savedir ELSE @,
                                        !.notes = @ \o Notes(gh, "MSG", "", wo), !.saved = @ \cup {<<gh.dir, Record(gh)>>}]
    [] ev.ev = "cmd"  ->
         IF ev.verb = "RSET" THEN [gh EXCEPT !.wire = IF @ = "init" THEN @ ELSE "helo"]
         ELSE IF ev.verb = "QUIT" THEN [SGhost0(wo) EXCEPT !.saved = gh.saved]
         ELSE IF ~InOrder(gh, ev.verb) THEN gh
         ELSE LET e == Expected(gh, ev.verb, ev.arg, wo)
                  h == [gh EXCEPT !.dir = IF e.savedir # "" THEN e.savedir ELSE @,
                                  !.notes = @ \o Notes(gh, ev.verb, ev.arg, wo)]
              IN CASE ev.verb \in {"EHLO", "HELO"} ->
                        IF ok THEN [h EXCEPT !.wire = "helo", !.helo = ev.arg, !.name = ev.arg, !.from = "", !.rcpts = <<>>, !.null = FALSE]
                        \* a refused name is still what later rules see
                        ELSE [h EXCEPT !.name = ev.arg, !.null = FALSE]
                   [] ev.verb = "MAIL" -> IF ok THEN [h EXCEPT !.wire = "mail", !.from = ev.arg, !.rcpts = <<>>, !.null = ev.arg = ""]
                                          ELSE [h EXCEPT !.null = FALSE, !.from = ev.arg]
                   [] ev.verb = "RCPT" -> IF ok THEN [h EXCEPT !.wire = "rcpt", !.rcpts = Append(@, ev.arg)] ELSE h
                   [] ev.verb = "DATA" -> IF ok THEN [h EXCEPT !.wire = "data"] ELSE h
    [] OTHER -> gh

\* The lines of a reply with a message option.
TextOf(m, extra) == IF m = "" THEN <<>> ELSE ReplyLines(m \o extra)

SClaims(gh, ev, r, wo) ==
  LET out == r.out IN
  CASE ev.ev = "conn" ->
         If((out.cls = "drop") # (Judge(Rules0(wo), PConnect, [helo |-> "", from |-> "", to |-> ""], <<>>).act = "reject"), "C01 connect")
    [] ev.ev = "cmd" /\ ev.verb = "RSET" -> If(out.cls # "2", "RSET")
    [] ev.ev = "cmd" /\ ev.verb = "QUIT" -> If(out.cls # "2" \/ ~out.closed, "QUIT") \cup If(out.bang # gh.notes, "C04 C26 notes")
    [] ev.ev = "cmd" /\ ev.verb \notin {"RSET", "QUIT"} ->
         IF ~InOrder(gh, ev.verb) THEN If(out.cls # "5", "order")
         ELSE LET e == Expected(gh, ev.verb, ev.arg, wo)
              IN If(out.cls # Class(e.act, Good(ev.verb)), "C01 C03 C30 command")
                 \cup If(ev.verb = "MAIL" /\ ev.arg = "" /\ out.cls # "2", "C03 null sender refused")
                 \cup If(~(ev.verb \in {"EHLO", "HELO"} /\ out.cls = "2") /\ out.text # TextOf(e.message, ""), "C04 message")
    [] ev.ev = "msg" ->
         LET e == Expected(gh, "MSG", "", wo)
             tail == CASE e.act = "reject" -> "\nRejected with ID @ID@" [] e.act = "stall" -> "" [] OTHER -> "\nAccepted with ID @ID@"
         IN If(out.cls # Class(e.act, "2"), "C01 C03 C30 message")
            \cup If(out.text # TextOf(e.message, tail), "C04 message text")
            \* the session has one id: only what differs is saved again
            \cup If(out.new # <<>> /\ (out.new[1].dir # gh.dir \/ out.new[1].lines # Record(gh)), "C04 C18 record")
            \cup If((out.new = <<>>) # (<<gh.dir, Record(gh)>> \in gh.saved), "C17 saved or there already")
            \cup If(Len(out.log) # 1, "C20 one line")
    [] OTHER -> {}

\* Not: counters, what was saved, logs.
SCore(s) == [up |-> s.up, sess |-> [c \in DOMAIN s.sess |->
              LET x == s.sess[c] IN <<x.wire, x.helo, x.from, x.rcpts, x.hname, x.hcmd, x.mfrom, x.def, x.savedir>>]]
=============================================================================

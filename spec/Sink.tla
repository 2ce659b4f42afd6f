-------------------------------- MODULE Sink --------------------------------
(* The server: its state, and what each thing that a client, the DNS, the      *)
(* administrator, the clock or the file system does makes of it.               *)
(*                                                                             *)
(* Every step is a function Step(st, ev) = [st, out]: the next state and what  *)
(* is to be observed.  SinkMC explores these steps from small sets of events;  *)
(* Trace replays the events recorded from the real server.                     *)
EXTENDS ConnCfg

\* The configuration (command line) is a record:
\*   stdrules, rejectmsgs (-M), fromreject, toaccept, heloreject, rfiles,
\*   smtplog, log, dnlog, dncount, dndur, minphase, savedir, hash, helo, cert,
\*   key, conncfg, slow, force, dirs (the directories that exist)

----------------------------------------------------------------------------
(* Starting up.                                                                *)
BaseText(cfg) ==
     (IF cfg.stdrules THEN "reject from-has bad,route\nreject to-has bad,route\nreject helo-has none\n" ELSE "")
  \o (IF cfg.rejectmsgs THEN "@message reject all\n" ELSE "")
  \o (IF cfg.fromreject # "" THEN "reject from file:" \o cfg.fromreject \o "\n" ELSE "")
  \o (IF cfg.toaccept # "" THEN "reject not to file:" \o cfg.toaccept \o "\n" ELSE "")
  \o (IF cfg.heloreject # "" THEN "@from reject helo file:" \o cfg.heloreject \o "\n" ELSE "")

StallAll == Parse("stall all").rules

MinPhases == {"helo", "ehlo", "from", "to", "data", "message", "accepted"}
HashTypes == {"msg", "full", "all"}

CanStart(cfg, fs) ==
  /\ cfg.savedir # "" \/ cfg.force \/ cfg.rejectmsgs
  /\ cfg.hash \in HashTypes
  /\ cfg.hash = "msg" => cfg.log
  /\ cfg.dncount > 0 => cfg.smtplog /\ cfg.dndur >= 1
  /\ cfg.dnlog => cfg.dncount # 0
  /\ (cfg.cert = "") = (cfg.key = "")
  /\ cfg.cert # "" => LoadCerts(cfg.cert, cfg.key).ok
  /\ cfg.savedir # "" => cfg.savedir \in SeqToSet(cfg.dirs)
  /\ cfg.conncfg # "" => LoadConnCfg(fs, cfg.conncfg).ok
  /\ Parse(BaseText(cfg)).ok
  /\ LoadAll(fs, cfg.rfiles, <<>>).ok /\ \A i \in DOMAIN cfg.rfiles : cfg.rfiles[i] # ""
  /\ cfg.minphase \in MinPhases
  /\ cfg.listen = ""
  /\ CASE cfg.logbad = "l" -> ~cfg.log [] cfg.logbad = "smtplog" -> ~cfg.smtplog [] cfg.logbad = "dnlog" -> ~cfg.dnlog [] OTHER -> TRUE

\* There are counts by local address when there may be several.
PerIP(cfg) == cfg.perip \/ cfg.more > 0

MinPhase(cfg) == IF cfg.minphase = "ehlo" THEN "helo" ELSE cfg.minphase

Counters == {"connections", "tls_errors", "yakkers", "notls_conns", "rules_errors", "yakker_adds",
  "yakker_forces", "rsetdrops", "abandons", "refuseds", "ehlo", "mailfrom", "rcptto", "data", "starttls",
  "ok_ehlo", "ok_mailfrom", "ok_rcptto", "ok_data", "messages", "ehlo_tlson", "quits", "aborts", "rsets"}

\* ips -> [when, count]
NoIPs == [i \in {} |-> [when |-> 0, count |-> 0]]
NoSess == [c \in {} |-> 0]

Fresh(cfg, fs, zone) ==
  [ cfg |-> cfg, fs |-> fs, zone |-> zone, now |-> 0, up |-> FALSE, pid |-> "",
    base |-> <<>>, yak |-> NoIPs, notls |-> NoIPs, sess |-> NoSess, ncid |-> 0,
    saved |-> {},                          \* keys of the records on disk
    stats |-> [k \in Counters |-> 0] ]

\* What is published: the counters above; for the tables of remembered addresses
\* what was done to them; how often each blocklist and SBL record was found; how
\* many connections each local address had; and when (as time + 1) things last
\* happened.
Num(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
Bump(st, ks) == [st EXCEPT !.stats = [k \in DOMAIN @ \cup ks |-> IF k \in ks THEN Num(@, k) + 1 ELSE @[k]]]
Stamp(st, whats, laddr) ==
  LET ks == {"last." \o k : k \in whats} \cup (IF PerIP(st.cfg) THEN {"lasts_to." \o laddr \o "." \o k : k \in whats} ELSE {})
  IN [st EXCEPT !.stats = [k \in ks |-> st.now + 1] @@ @]

----------------------------------------------------------------------------
(* Remembered addresses: do-nothing clients and TLS failures.                  *)
TlsTtl == 72 * 3600

Known(m, ip, now, ttl) == ip \in DOMAIN m /\ now - m[ip].when < ttl
CountOf(m, ip, now, ttl) == IF Known(m, ip, now, ttl) THEN m[ip].count ELSE 0
Forget(m, ip) == [i \in DOMAIN m \ {ip} |-> m[i]]
Put(m, ip, now, n) == (ip :> [when |-> now, count |-> n]) @@ m
Expire(m, ip, now, ttl) == IF ip \in DOMAIN m /\ ~Known(m, ip, now, ttl) THEN Forget(m, ip) ELSE m

\* What counts as done to a table by looking for an address, adding to its count,
\* setting its count and forgetting it.
OnLook(n, m, ip, now, ttl) ==
  IF ip \notin DOMAIN m THEN {} ELSE IF Known(m, ip, now, ttl) THEN {n \o ".LookupHit"} ELSE {n \o ".LookupExpired"}
OnNew(n, m, ip, now, ttl) ==
  IF ip \notin DOMAIN m THEN {n \o ".AddsNew"} ELSE IF Known(m, ip, now, ttl) THEN {} ELSE {n \o ".AddsExpired"}
OnAdd(n, m, ip, now, ttl) == {n \o ".Adds"} \cup OnNew(n, m, ip, now, ttl)
OnSet(n, m, ip, now, ttl) == {n \o ".Sets"} \cup OnNew(n, m, ip, now, ttl)
OnDel(n, m, ip) == IF ip \in DOMAIN m THEN {n \o ".Dels"} ELSE {}

\* All that is published.
Published(st) ==
  ("yakkers.Size" :> Cardinality(DOMAIN st.yak)) @@ ("notls.Size" :> Cardinality(DOMAIN st.notls)) @@ st.stats

----------------------------------------------------------------------------
(* Deciding.                                                                   *)
NoDef == [act |-> "none", props |-> NoWiths, hits |-> <<>>]
Prop(props, k) == IF k \in DOMAIN props THEN props[k] ELSE ""

\* Let the rules of session s decide phase ph, with cmd and arg the command:
\* [s, act, props].  s has the effects on the session itself.
Decide(st, s0, ph, cmd, arg) ==
  LET s == CASE ph = PHelo -> [s0 EXCEPT !.hcmd = cmd, !.hname = arg, !.def = NoDef]
             [] ph = PFrom -> [s0 EXCEPT !.mfrom = arg, !.def = NoDef]
             [] OTHER      -> s0
      x == [rip |-> s.rip, lip |-> s.lip, tls |-> s.tlson, rdns |-> s.rdns, hcmd |-> s.hcmd,
            helo |-> s.hname, from |-> s.mfrom, to |-> IF ph = PTo THEN arg ELSE "",
            zone |-> st.zone, fs |-> st.fs]
      v == Verdict(s.rules, 1, ph, x, s.rcpts, [lists |-> s.lists, hits |-> <<>>], NoWiths)
      defer == ph = PFrom /\ arg = "" /\ Refusal(v.act)
      stuck == s.def.act # "none"
      act   == IF stuck THEN s.def.act ELSE IF defer THEN "accept" ELSE v.act
      props == IF stuck THEN s.def.props ELSE IF defer THEN NoWiths ELSE v.props
      hits  == IF stuck THEN s.def.hits ELSE v.a.hits
      note  == Prop(props, "note")
      hs    == SeqToSet(hits)
      bang1 == IF hs # {} /\ s.logged /\ hs # s.lasthits THEN <<[k |-> "dnsbl", v |-> hs]>> ELSE <<>>
      sbl   == IF bang1 # <<>> /\ "sbl.spamhaus.org." \in hs THEN SblRecords(st.zone, s.rip) ELSE {}
      bang3 == IF sbl # {} THEN <<[k |-> "sbl", v |-> sbl]>> ELSE <<>>
      bang2 == IF note # "" /\ s.logged THEN <<[k |-> "note", v |-> note]>> ELSE <<>>
      s1 == [s EXCEPT
               !.lists    = IF stuck THEN @ ELSE v.a.lists,
               !.def      = IF defer THEN [act |-> v.act, props |-> v.props, hits |-> v.a.hits] ELSE @,
               !.savedir  = IF Prop(props, "savedir") # "" THEN props["savedir"] ELSE @,
               !.bang     = @ \o bang1 \o bang3 \o bang2,
               !.lasthits = IF bang1 # <<>> THEN hs ELSE @,
               !.tls      = @ /\ Prop(props, "tls-opt") # "off",
               !.askcert  = @ /\ Prop(props, "tls-opt") # "no-client",
               !.force    = @ \/ "make-yakker" \in DOMAIN props,
               !.lastgood = ~Refusal(act)]
  IN [s |-> s1, act |-> act, props |-> props,
      cnt |-> (IF bang1 = <<>> THEN {} ELSE {"dnsbl." \o h : h \in hs}) \cup {"sbl." \o h : h \in sbl}]

\* What a message option makes of a reply: its lines, <<>> when there is none.
ReplyLines(text) ==
  LET a == FindNotIn(text, 1, {" ", "\t", "\n"})
      b == FindLastNotIn(text, Len(text), {" ", "\t", "\n"})
      q == Split(Sub(text, a, b), "\n")
  IN [i \in DOMAIN q |-> TrimRight(q[i], {" ", "\t", "\r"})]
MsgLines(props, tail) ==
  LET m == Prop(props, "message") IN IF m = "" THEN <<>> ELSE ReplyLines(m \o tail)

----------------------------------------------------------------------------
(* Observations.  An observation is a record; "text" is the lines of a reply   *)
(* when the rules say what they are and <<>> otherwise.                        *)
Obs0 == [kind |-> "", cls |-> "", text |-> <<>>, starttls |-> FALSE, closed |-> FALSE,
         name |-> "", slow |-> FALSE, logged |-> FALSE, certreq |-> FALSE, cert |-> "",
         log |-> <<>>, new |-> <<>>, id |-> "", bang |-> <<>>, dn |-> <<>>, up |-> TRUE]
Reply(cls, text) == [Obs0 EXCEPT !.kind = "reply", !.cls = cls, !.text = text]

R(st, out) == [st |-> st, out |-> out]
SetSess(st, c, s) == [st EXCEPT !.sess = (c :> s) @@ @]
DropSess(st, c) == [st EXCEPT !.sess = [k \in DOMAIN @ \ {c} |-> @[k]]]

----------------------------------------------------------------------------
Start(st, ev) ==
  LET ok == CanStart(st.cfg, st.fs)
  IN R([st EXCEPT !.up = ok, !.pid = ev.pid, !.base = IF ok THEN Parse(BaseText(st.cfg)).rules ELSE <<>>,
                  !.yak = NoIPs, !.notls = NoIPs, !.sess = NoSess, !.ncid = 0,
                  !.stats = [k \in Counters |-> 0]],
       [Obs0 EXCEPT !.kind = "start", !.up = ok])

\* The administrator changes a file (ev.gone: removes it), the DNS changes, time
\* passes.
File(st, ev) ==
  R([st EXCEPT !.fs = IF ev.gone THEN [n \in DOMAIN @ \ {ev.path} |-> @[n]] ELSE (ev.path :> ev.text) @@ @], Obs0)
Zone(st, ev)  == R([st EXCEPT !.zone = ev.zone], Obs0)
Clock(st, ev) == R([st EXCEPT !.now = ev.now], Obs0)
\* A connection could not be accepted: nothing comes of it.
AcceptFails(st, ev) == R(st, Obs0)

\* A file that is none of the server's is put where a message with this hash
\* would be saved.
Plant(st, ev) == R([st EXCEPT !.saved = @ \cup {[dir |-> ev.dir, key |-> <<ev.hash>>]}], Obs0)

Kill(st, ev) == R([st EXCEPT !.up = FALSE, !.sess = NoSess], Obs0)

----------------------------------------------------------------------------
(* A client connects.                                                          *)
\* Per-connection parameters: [name, certs].
ConnParams(st, ev) ==
  LET cfg == st.cfg
      name0 == IF cfg.helo # "" THEN cfg.helo
               ELSE IF ev.lip \in DOMAIN st.zone.ptr /\ st.zone.ptr[ev.lip] # <<>>
                    THEN NoDot(st.zone.ptr[ev.lip][1])
                    ELSE ev.laddr
      certs0 == IF cfg.cert = "" THEN <<>> ELSE Split(cfg.cert, ",")
      file == IF cfg.conncfg = "" THEN [ok |-> FALSE, entries |-> <<>>] ELSE LoadConnCfg(st.fs, cfg.conncfg)
      i == IF file.ok THEN FindConn(file.entries, 1, ev.lip, ev.laddr) ELSE 0
  IN IF i = 0 THEN [name |-> name0, certs |-> certs0]
     ELSE [name |-> IF file.entries[i].name = "" THEN name0 ELSE file.entries[i].name,
           certs |-> file.entries[i].certs]

Connect(st0, ev) ==
  LET cfg  == st0.cfg
      load == LoadAll(st0.fs, cfg.rfiles, st0.base)
      n    == CountOf(st0.yak, ev.rip, st0.now, cfg.dndur)
      stall == cfg.dncount > 0 /\ n >= cfg.dncount /\ cfg.smtplog
      tf   == CountOf(st0.notls, ev.rip, st0.now, TlsTtl)
      par  == ConnParams(st0, ev)
      stt  == Stamp(st0, {"connection", IF stall THEN "yakker" ELSE "regular"}, ev.laddr)
      st1  == Bump([stt EXCEPT !.ncid = @ + 1,
                               !.yak = Expire(@, ev.rip, st0.now, cfg.dndur),
                               !.notls = Expire(@, ev.rip, st0.now, TlsTtl)],
                   {"connections"} \cup (IF load.ok THEN {} ELSE {"rules_errors"})
                   \cup (IF stall THEN {"yakkers"} ELSE {}) \cup (IF tf >= 2 THEN {"notls_conns"} ELSE {})
                   \cup OnLook("yakkers", st0.yak, ev.rip, st0.now, cfg.dndur)
                   \cup OnLook("notls", st0.notls, ev.rip, st0.now, TlsTtl)
                   \cup (IF PerIP(cfg) THEN {"connects_to." \o ev.laddr} ELSE {}))
      cid  == IF ev.cid = "" THEN Dec(st1.ncid) ELSE ev.cid
      s0   == [ rip |-> ev.rip, lip |-> ev.lip, raddr |-> ev.raddr, laddr |-> ev.laddr, id |-> st1.pid \o "/" \o cid,
                wire |-> "init", bad |-> 0,
                rules |-> IF load.ok /\ ~stall THEN load.rules ELSE StallAll,
                good |-> load.ok, stalled |-> stall, counts |-> load.ok /\ cfg.dncount > 0 /\ ~stall,
                got |-> FALSE, logged |-> cfg.smtplog /\ ~stall,
                rdns |-> Rdns(st0.zone, ev.rip),
                helo |-> "", from |-> "", rcpts |-> <<>>,         \* accepted
                hcmd |-> "", hname |-> "", mfrom |-> "",          \* attempted
                def |-> NoDef, lists |-> [f \in {} |-> <<>>], savedir |-> cfg.savedir,
                bang |-> <<>>, lasthits |-> {}, dn |-> <<>>,
                tls |-> par.certs # <<>> /\ tf < 2, askcert |-> tf = 0, certs |-> par.certs,
                tlson |-> FALSE, tlsup |-> FALSE, force |-> FALSE, lastgood |-> FALSE ]
      d    == Decide(st1, s0, PConnect, "", "")
      dn   == IF stall /\ cfg.dnlog THEN <<[what |-> "connection", id |-> s0.id, rip |-> ev.rip, laddr |-> ev.laddr]>> ELSE <<>>
      out  == [Obs0 EXCEPT !.kind = "conn", !.name = par.name, !.slow = cfg.slow \/ stall,
                           !.logged = s0.logged, !.dn = dn]
  IN IF d.act = "reject"
     THEN R(Bump(st1, d.cnt), [out EXCEPT !.closed = TRUE, !.cls = "drop", !.name = "",
                             !.bang = IF s0.logged THEN Append(d.s.bang, [k |-> "dropped", v |-> ev.rip]) ELSE <<>>])
     ELSE R(SetSess(Bump(st1, d.cnt), ev.c, d.s), [out EXCEPT !.cls = "2"])

----------------------------------------------------------------------------
(* The end of a session, and what is remembered of the client.                 *)
EndSess(st0, c, how) ==
  LET s   == st0.sess[c]
      cfg == st0.cfg
      st  == Bump(st0, {IF how = "quit" THEN "quits" ELSE "aborts"}
                       \cup (IF s.good /\ (s.counts \/ cfg.dncount = 0)
                             THEN {IF s.lastgood THEN "abandons" ELSE "refuseds"} ELSE {}))
      old == CountOf(st.yak, s.rip, st.now, cfg.dndur)
      bumped(x, ks) == LET y == Bump(st, ks) IN [y EXCEPT !.yak = x]
      set == OnSet("yakkers", st.yak, s.rip, st.now, cfg.dndur)
      add == OnAdd("yakkers", st.yak, s.rip, st.now, cfg.dndur)
      line(w) == IF cfg.dnlog THEN <<[what |-> w, id |-> s.id, rip |-> s.rip, laddr |-> s.laddr]>> ELSE <<>>
      mark(st2) == IF s.got /\ MinPhase(cfg) # "message" THEN Stamp(st2, {"reached_minphase"}, s.laddr) ELSE st2
      fin(st2, bang, dn) == R(DropSess(mark(st2), c),
        [Obs0 EXCEPT !.kind = "end", !.closed = TRUE, !.cls = IF how = "quit" THEN "2" ELSE "",
                     !.logged = s.logged,
                     !.bang = IF s.logged THEN s.bang \o bang ELSE <<>>, !.dn = dn])
  IN IF s.force
     THEN LET yak == Put(st.yak, s.rip, st.now, cfg.dncount)
          IN IF old # cfg.dncount
             THEN fin(bumped(yak, {"yakker_adds", "yakker_forces"} \cup set), <<[k |-> "forced", v |-> s.rip]>>, line("force-set"))
             ELSE fin(bumped(yak, set), <<>>, <<>>)
     ELSE IF ~s.got /\ s.counts
     THEN LET yak == Put(st.yak, s.rip, st.now, old + 1)
          IN IF old + 1 = cfg.dncount
             THEN fin(bumped(yak, {"yakker_adds"} \cup add), <<[k |-> "added", v |-> s.rip]>>, line("added"))
             ELSE fin(bumped(yak, add), <<>>, <<>>)
     ELSE IF cfg.dncount > 0 /\ s.got THEN fin(bumped(Forget(st.yak, s.rip), OnDel("yakkers", st.yak, s.rip)), <<>>, <<>>)
     ELSE fin(st, <<>>, <<>>)

\* The connection goes away without a QUIT.
Abort(st, ev) == EndSess(st, ev.c, "abort")

----------------------------------------------------------------------------
(* Commands.                                                                   *)
Valid(verb, wire) ==
  CASE verb \in {"EHLO", "HELO"} -> wire \in {"init", "helo"}
    [] verb = "MAIL" -> wire = "helo"
    [] verb = "RCPT" -> wire \in {"mail", "rcpt"}
    [] verb = "DATA" -> wire = "rcpt"
    [] OTHER -> TRUE

\* How a refusal is answered.
RefusalReply(act, props) == Reply(IF act = "reject" THEN "5" ELSE "4", MsgLines(props, ""))

CmdCounter == [EHLO |-> "ehlo", HELO |-> "ehlo", MAIL |-> "mailfrom", RCPT |-> "rcptto", DATA |-> "data"]
CmdPhase   == [EHLO |-> PHelo, HELO |-> PHelo, MAIL |-> PFrom, RCPT |-> PTo, DATA |-> PData]

Hello(st, ev, d) ==
  LET tlsnew == d.s.tlsup /\ ~d.s.tlson
      s == [d.s EXCEPT !.wire = "helo", !.helo = ev.arg, !.from = "", !.rcpts = <<>>, !.tlson = d.s.tlsup,
                       !.got = @ \/ MinPhase(st.cfg) = "helo"]
  IN R(SetSess(Bump(st, {"ok_ehlo"} \cup (IF tlsnew THEN {"ehlo_tlson", "starttls"} ELSE {})), ev.c, s),
       [Reply("2", <<>>) EXCEPT !.starttls = ev.verb = "EHLO" /\ d.s.tls /\ ~d.s.tlsup])

\* An earlier MAIL FROM that came to nothing counts like a do-nothing session.
Mail(st, ev, d) ==
  LET cfg == st.cfg
      again == d.s.from # "" /\ ~d.s.got /\ d.s.counts
      n == CountOf(st.yak, d.s.rip, st.now, cfg.dndur) + 1
      st1 == IF again THEN Bump([st EXCEPT !.yak = Put(@, d.s.rip, st.now, n)],
                               {"rsets"} \cup OnAdd("yakkers", st.yak, d.s.rip, st.now, cfg.dndur)) ELSE st
      s == [d.s EXCEPT !.wire = "mail", !.from = ev.arg, !.rcpts = <<>>, !.got = @ \/ MinPhase(cfg) = "from"]
  IN IF again /\ n > cfg.dncount
     THEN R(DropSess(Bump(st1, {"yakker_adds", "rsetdrops"}), ev.c),
            [Reply("4", <<>>) EXCEPT !.closed = TRUE, !.logged = d.s.logged,
               !.bang = IF d.s.logged THEN Append(d.s.bang, [k |-> "added", v |-> d.s.rip]) ELSE <<>>])
     ELSE R(SetSess(Bump(st1, {"ok_mailfrom"}), ev.c, s), Reply("2", MsgLines(d.props, "")))

Rcpt(st, ev, d) ==
  LET s == [d.s EXCEPT !.wire = "rcpt", !.rcpts = Append(@, ev.arg), !.got = @ \/ MinPhase(st.cfg) = "to"]
  IN R(SetSess(Bump(st, {"ok_rcptto"}), ev.c, s), Reply("2", MsgLines(d.props, "")))

Data(st, ev, d) ==
  LET s == [d.s EXCEPT !.wire = "data", !.got = @ \/ MinPhase(st.cfg) = "data"]
  IN R(SetSess(Bump(st, {"ok_data"}), ev.c, s), Reply("3", MsgLines(d.props, "")))

MaxBad == 5

Cmd(st0, ev) ==
  LET s0 == st0.sess[ev.c]
  IN IF ev.verb = "BAD"
     THEN IF s0.bad + 1 > MaxBad
          THEN LET e == EndSess(st0, ev.c, "abort")
               IN R(e.st, [e.out EXCEPT !.kind = "reply", !.cls = "5"])
          ELSE R(SetSess(st0, ev.c, [s0 EXCEPT !.bad = @ + 1]), Reply("5", <<>>))
     ELSE IF ev.garbled THEN R(st0, Reply("5", <<>>))
     ELSE IF ev.verb \in {"NOOP", "HELP"} THEN R(st0, Reply("2", <<>>))
     ELSE IF ev.verb = "VRFY" THEN R(st0, Reply("5", <<>>))
     ELSE IF ev.verb = "RSET"
          THEN R(SetSess(st0, ev.c, [s0 EXCEPT !.wire = IF @ = "init" THEN @ ELSE "helo"]), Reply("2", <<>>))
     ELSE IF ev.verb = "QUIT"
          THEN LET e == EndSess(st0, ev.c, "quit") IN R(e.st, [e.out EXCEPT !.kind = "reply"])
     ELSE IF ~Valid(ev.verb, s0.wire) THEN R(st0, Reply("5", <<>>))
     ELSE LET d  == Decide(st0, s0, CmdPhase[ev.verb], ev.verb, ev.arg)
              st == Bump(st0, {CmdCounter[ev.verb]} \cup d.cnt)
          IN IF Refusal(d.act) THEN R(SetSess(st, ev.c, d.s), RefusalReply(d.act, d.props))
             ELSE CASE ev.verb \in {"EHLO", "HELO"} -> Hello(st, ev, d)
                    [] ev.verb = "MAIL" -> Mail(st, ev, d)
                    [] ev.verb = "RCPT" -> Rcpt(st, ev, d)
                    [] ev.verb = "DATA" -> Data(st, ev, d)

\* Of several certificates the client gets the one for the name it asks for, and
\* otherwise the first.
CertName == ("cert1.pem" :> "mail1.example.org") @@ ("cert2.pem" :> "mail2.example.org")
         @@ ("cert3.pem" :> "mail3.example.org")
RECURSIVE CertFrom(_, _, _)
CertFrom(certs, i, sni) ==
  IF i > Len(certs) THEN certs[1]
  ELSE IF sni # "" /\ CertName[certs[i]] = Lower(sni) THEN certs[i] ELSE CertFrom(certs, i + 1, sni)

\* STARTTLS; ev.works says whether the client then sets TLS up properly.
StartTLS(st, ev) ==
  LET s == st.sess[ev.c]
  IN IF ~s.tls \/ s.tlsup THEN R(st, Reply("5", <<>>))
     ELSE IF ev.works
          THEN R(SetSess(st, ev.c, [s EXCEPT !.tlsup = TRUE, !.wire = "init"]),
                 [Reply("2", <<>>) EXCEPT !.certreq = s.askcert, !.cert = CertFrom(s.certs, 1, ev.sni)])
          ELSE LET n == CountOf(st.notls, s.rip, st.now, TlsTtl)
                   st1 == Bump([st EXCEPT !.notls = Put(@, s.rip, st.now, n + 1)], {"tls_errors", "starttls"}
                                                   \cup OnAdd("notls", st.notls, s.rip, st.now, TlsTtl))
                   e == EndSess(SetSess(st1, ev.c, [s EXCEPT !.counts = FALSE]), ev.c, "abort")
               IN R(e.st, [e.out EXCEPT !.kind = "reply", !.cls = "2"])

----------------------------------------------------------------------------
(* A message.  ev.hash, ev.bodyhash and ev.bytes describe what the client sent, *)
(* ev.ts is the time as it is written and ev.tlsinfo the client's view of TLS. *)
DnsLine(name, q) == IF q = <<>> THEN <<>> ELSE << name \o " " \o Join(q, " ") >>

\* The record that is saved, without its first line and without the message.
Envelope(s, ev) ==
     << "remote " \o s.rip \o " to " \o s.laddr \o " with helo '" \o s.helo \o "'" >>
  \o DnsLine("remote-dns", s.rdns.verified)
  \o DnsLine("remote-dns-nofwd", s.rdns.nofwd)
  \o DnsLine("remote-dns-inconsist", s.rdns.inconsist)
  \o (IF s.tlsup THEN << ev.tlsinfo >> ELSE <<>>)
  \o << "from <" \o s.from \o ">" >>
  \o [i \in DOMAIN s.rcpts |-> "to <" \o s.rcpts[i] \o ">"]
  \o << "hash " \o ev.hash \o " bytes " \o Dec(ev.bytes), "bodyhash " \o ev.bodyhash, "body" >>

IdLine(s, ev) == "id " \o s.id \o " " \o s.raddr \o " " \o ev.ts

\* What distinguishes one saved message from another under a hash type.
SaveKey(hash, s, ev) ==
  CASE hash = "msg"  -> <<ev.hash>>
    [] hash = "full" -> Envelope(s, ev)
    [] hash = "all"  -> <<IdLine(s, ev)>> \o Envelope(s, ev)

LogLine(s, ev) ==
  ev.ts \o " [" \o s.id \o "] from " \o s.raddr \o " / <" \o s.from \o "> to"
  \o Join([i \in 1..(Len(s.rcpts) + 1) |-> IF i = 1 THEN "" ELSE " <" \o s.rcpts[i - 1] \o ">"], "")
  \o ": message " \o Dec(ev.bytes) \o " bytes hash " \o ev.hash \o " body " \o ev.bodyhash
  \o " | local " \o s.laddr \o " helo '" \o s.helo \o "'" \o (IF s.tlsup THEN ev.tlslog ELSE "")

\* ev.fault: "" or the operation of saving that failed, such as "open", "write",
\* "sync" or "close", or "kill".
Msg(st0, ev) ==
  LET cfg == st0.cfg
      s0  == [st0.sess[ev.c] EXCEPT !.tlson = @ \/ st0.sess[ev.c].tlsup,
                                    !.got = @ \/ MinPhase(cfg) = "message"]
      d   == Decide(st0, s0, PMessage, "", "")
      k   == [dir |-> s0.savedir, key |-> SaveKey(cfg.hash, s0, ev)]
      save == s0.savedir # ""
      dup == save /\ k \in st0.saved
      fail == save /\ (s0.savedir \notin SeqToSet(cfg.dirs) \/ ev.fault # "")
      st  == Stamp(Bump(st0, {"messages"} \cup (IF fail THEN {} ELSE d.cnt)), {"message"}, s0.laddr)
      new == IF save /\ ~dup /\ ~fail
             THEN <<[dir |-> s0.savedir, lines |-> <<IdLine(s0, ev)>> \o Envelope(s0, ev), data |-> ev.hash]>>
             ELSE <<>>
      log == IF cfg.log THEN <<LogLine(s0, ev)>> ELSE <<>>
      id  == IF save THEN "saved" ELSE ev.hash
      st2 == IF new = <<>> THEN st ELSE [st EXCEPT !.saved = @ \cup {k}]
      obs(r) == [r EXCEPT !.log = log, !.new = new]
  IN IF ev.fault = "kill" /\ save
     THEN \* The server is killed while it saves; ev.left says what that leaves.
          R([st EXCEPT !.up = FALSE, !.sess = NoSess,
                       !.saved = IF ev.left = "whole" THEN @ \cup {k} ELSE @],
            [Reply("drop", <<>>) EXCEPT !.kind = "crash", !.log = log,
               !.new = <<[dir |-> s0.savedir, lines |-> <<IdLine(s0, ev)>> \o Envelope(s0, ev), data |-> ev.hash]>>])
     ELSE IF fail
     THEN R(SetSess(st2, ev.c, [s0 EXCEPT !.got = TRUE, !.wire = "post"]), obs(Reply("4", <<>>)))
     ELSE IF Refusal(d.act)
     THEN R(SetSess(st2, ev.c, [d.s EXCEPT !.wire = "post"]),
            [obs(Reply(IF d.act = "reject" THEN "5" ELSE "4",
                       MsgLines(d.props, IF d.act = "reject" THEN "\nRejected with ID @ID@" ELSE "")))
             EXCEPT !.id = IF d.act = "reject" THEN id ELSE ""])
     ELSE R(SetSess(st2, ev.c, [d.s EXCEPT !.wire = "helo", !.got = @ \/ MinPhase(cfg) = "accepted"]),
            [obs(Reply("2", MsgLines(d.props, "\nAccepted with ID @ID@"))) EXCEPT !.id = id])

Stats(st, ev) == R(st, [Obs0 EXCEPT !.kind = "stats"])

\* All of several simultaneous sessions are over: nothing is left that belongs to
\* none of them.
Quiet(st, ev) == R(st, [Obs0 EXCEPT !.kind = "quiet"])

----------------------------------------------------------------------------
Step(st, ev) ==
  CASE ev.ev = "start"    -> Start(st, ev)
    [] ev.ev = "file"     -> File(st, ev)
    [] ev.ev = "zone"     -> Zone(st, ev)
    [] ev.ev = "clock"    -> Clock(st, ev)
    [] ev.ev = "accfail"  -> AcceptFails(st, ev)
    [] ev.ev = "plant"    -> Plant(st, ev)
    [] ev.ev = "kill"     -> Kill(st, ev)
    [] ev.ev = "conn"     -> Connect(st, ev)
    [] ev.ev = "cmd"      -> Cmd(st, ev)
    [] ev.ev = "starttls" -> StartTLS(st, ev)
    [] ev.ev = "msg"      -> Msg(st, ev)
    [] ev.ev = "abort"    -> Abort(st, ev)
    [] ev.ev = "stats"    -> Stats(st, ev)
    [] ev.ev = "quiet"    -> Quiet(st, ev)
=============================================================================

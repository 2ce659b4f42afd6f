-------------------------------- MODULE Trace --------------------------------
(* Conformance: behaviours recorded from the real server, step by step against *)
(* the specification.  The file named by the environment variable TRACE is an  *)
(* array of recorded scenarios [id, cfg, fs, zone, evs]; every event has the   *)
(* inputs that Step takes and, in field obs, what was observed.  A behaviour   *)
(* ends at its first divergence that matters or after which the state of the   *)
(* server is unknown.  A divergence in one of the aspects that the property    *)
(* being checked is about (ASPECTS, comma separated) is what the harness       *)
(* reports after confirming it.                                                *)
EXTENDS Sink, Json, IOUtils, TLCExt

Scenarios == JsonDeserialize(IOEnv.TRACE)
Aspects == SeqToSet(Split(IOEnv.ASPECTS, ","))

VARIABLES tid, l, st, bad
vars == <<tid, l, st, bad>>
View == <<tid, l>>

\* Recorded forms of files and zones.
ToFs(q) == [n \in {q[i].n : i \in DOMAIN q} |-> q[CHOOSE i \in DOMAIN q : q[i].n = n].t]
ToZone(z) ==
  [ names |-> [n \in {z.names[i].n : i \in DOMAIN z.names} |-> z.names[CHOOSE i \in DOMAIN z.names : z.names[i].n = n]],
    ptr   |-> [n \in {z.ptr[i].n : i \in DOMAIN z.ptr} |-> z.ptr[CHOOSE i \in DOMAIN z.ptr : z.ptr[i].n = n].names] ]

Event(ev) == IF ev.ev = "zone" THEN [ev EXCEPT !.zone = ToZone(@)] ELSE ev

----------------------------------------------------------------------------
(* The aspects in which an observation o differs from what is expected, e.     *)
If(c, a) == IF c THEN {a} ELSE {}

\* Notes in the command log: sets of blocklists are logged in some order.
SameBang(e, o) ==
  /\ Len(e) = Len(o)
  /\ \A i \in DOMAIN e :
       /\ e[i].k = o[i].k
       /\ IF e[i].k \in {"dnsbl", "sbl"} THEN SeqToSet(o[i].hits) = e[i].v ELSE o[i].v = e[i].v

SameNew(cfg, e, o) ==
  /\ Len(e) = Len(o)
  /\ \A i \in DOMAIN e : o[i].dir = e[i].dir /\ o[i].lines = e[i].lines /\ o[i].data = e[i].data

NameOk(cfg, o) == \A i \in DOMAIN o : o[i].name = o[i].hashes[cfg.hash]

IdOk(cfg, e, o) ==
  CASE e.id = ""      -> TRUE
    [] e.id = "saved" -> IF o.new # <<>> THEN o.id = o.new[1].name ELSE o.idfile
    [] OTHER          -> o.id = e.id

\* The log of a session has the conversation as the client saw it.
SlogOk(e, o) == ~e.closed \/ o.slog = (IF e.logged THEN o.conv ELSE <<>>)

\* After a divergence in one of these aspects the specification no longer knows
\* what the server's state is; after any other it can go on.
Losing == {"startup", "drop", "code", "closed", "save", "overwrite", "tls", "dead"}

Distinct(q) == \A i, j \in DOMAIN q : q[i] = q[j] => i = j

\* Simultaneous sessions may find the tables of addresses as they were before or
\* after each other.
Skip(o, k) == o.par /\ (HasPrefix(k, "yakkers.") \/ HasPrefix(k, "notls."))

Diff(s, e, o) ==
  IF o.dead THEN {"dead"} ELSE
  CASE e.kind = ""      -> If("changed" \in DOMAIN o /\ o.changed, "overwrite")
    [] e.kind = "start" -> If(e.up # o.up, "startup")
    [] e.kind = "stats" -> If("none" \notin DOMAIN o.stats
                              /\ \E k \in DOMAIN o.stats \cup DOMAIN Published(s) :
                                   ~Skip(o, k) /\ Num(o.stats, k) # Num(Published(s), k), "stats")
                           \cup If(o.leftfiles # 0, "save") \cup If(o.leftlogs # <<>>, "log")
                           \cup If(o.changed, "overwrite") \cup If(o.dn # <<>>, "dn")
    [] e.kind = "quiet" -> If(~Distinct(o.ids), "ids")
                           \cup If(o.leftfiles # 0, "save") \cup If(o.leftlogs # <<>>, "log")
                           \cup If(o.stray # <<>>, "smtplog") \cup If(o.changed, "overwrite")
    [] e.kind = "conn"  ->
         IF e.cls # o.cls THEN {"drop"}
         ELSE If(e.name # o.name, "name") \cup If(e.slow # o.slow, "slow")
              \cup If(e.logged # o.logged, "logged") \cup If(e.dn # o.dn, "dn")
              \cup If(e.closed /\ ~SameBang(e.bang, o.bang), "bang")
    [] e.kind = "end"   ->
         If(~SameBang(e.bang, o.bang), "bang") \cup If(e.dn # o.dn, "dn")
         \cup If(e.closed # o.closed, "closed") \cup If(~SlogOk(e, o), "smtplog")
    [] e.kind = "crash" ->
         If(e.cls # o.cls, "code") \cup If(e.log # o.log, "log") \cup If(o.changed, "overwrite")
    [] e.kind = "reply" ->
         IF e.cls # o.cls THEN {"code"} \cup If(~SameNew(s.cfg, e.new, o.new), "save") \cup If(o.changed, "overwrite")
         ELSE If(e.text # <<>> /\ e.text # o.text, "text")
              \cup If(e.closed # o.closed, "closed")
              \cup If(e.starttls # o.starttls, "tls")
              \cup If(e.cert # "" /\ (e.certreq # o.certreq \/ o.cert # e.cert), "tls")
              \cup If(e.log # o.log, "log")
              \cup If(~SameNew(s.cfg, e.new, o.new), "save")
              \cup If(~NameOk(s.cfg, o.new) \/ ~IdOk(s.cfg, e, o), "hashname")
              \cup If(o.changed, "overwrite")
              \cup If(o.unsynced, "sync")
              \cup If(e.closed /\ (~SameBang(e.bang, o.bang)), "bang")
              \cup If(e.closed = o.closed /\ ~SlogOk(e, o), "smtplog")
              \cup If(e.dn # o.dn, "dn")

----------------------------------------------------------------------------
Init ==
  /\ tid \in 1..Len(Scenarios)
  /\ l = 0
  /\ st = [up |-> FALSE]
  /\ bad = {}

Begin ==
  /\ l = 0
  /\ l' = 1
  /\ LET sc == Scenarios[tid] IN st' = Fresh(sc.cfg, ToFs(sc.fs), ToZone(sc.zone))
  /\ bad' = {}
  /\ UNCHANGED tid

Consume ==
  /\ l > 0
  /\ bad = {}
  /\ l <= Len(Scenarios[tid].evs)
  /\ LET ev == Scenarios[tid].evs[l]
         r  == Step(st, Event(ev))
         d  == Diff(r.st, r.out, ev.obs)
     IN /\ st' = r.st
        /\ bad' = IF d \cap (Aspects \cup Losing) # {} THEN d ELSE {}
        /\ d # {} => PrintT("DIVERGED " \o ToJson([tid |-> tid, l |-> l, aspects |-> d,
                         relevant |-> (d \cap Aspects # {}),
                         ends |-> (d \cap (Aspects \cup Losing) # {}), want |-> r.out,
                         stats |-> IF "stats" \in d THEN Published(r.st) ELSE [x |-> 0]]))
  /\ l' = l + 1
  /\ UNCHANGED tid

Next == Begin \/ Consume
Spec == Init /\ [][Next]_vars

\* Every behaviour is followed to its end or to a divergence.
TotalSteps == LET S[i \in 0..Len(Scenarios)] == IF i = 0 THEN 0 ELSE S[i - 1] + Len(Scenarios[i].evs) + 2
              IN S[Len(Scenarios)]
=============================================================================

-------------------------------- MODULE McDns --------------------------------
(* What the DNS says: reverse DNS (C13), mail domains (C14) and blocklists      *)
(* (C15), in all worlds made of a few names that each are there, missing,       *)
(* unanswerable or wrong in some way.                                           *)
EXTENDS Mc

CONSTANTS Family, Rich

\* ----- names: [n, kind], kind saying what address lookups of it give
Good4 == "198.51.100.7"   Good6 == "2001:db8::7"
Kinds(f) ==
  CASE f = "rdns" -> {"none", "fail", "empty", "mine", "other", "both"} \cup (IF Rich THEN {"six", "mine6"} ELSE {})
    [] f = "mx"   -> {"none", "fail", "public", "private", "mixed"} \cup (IF Rich THEN {"ula", "loop", "public6"} ELSE {})
    [] f = "dbl"  -> {"none", "listed", "fail"} \cup (IF Rich THEN {"empty"} ELSE {})
Addrs(k) ==
  CASE k = "mine" -> <<Good4>> [] k = "other" -> <<"203.0.113.1">> [] k = "both" -> <<"203.0.113.1", Good4>>
    [] k = "six" -> <<"2001:db8::99">> [] k = "mine6" -> <<"2001:db8::99", Good6>>
    [] k = "public" -> <<"203.0.113.1">> [] k = "private" -> <<"10.1.1.1">> [] k = "mixed" -> <<"203.0.113.1", "192.168.1.1">>
    [] k = "ula" -> <<"fc00::1">> [] k = "loop" -> <<"127.0.0.1">> [] k = "public6" -> <<"2001:db8::1">>
    [] k = "listed" -> <<"127.0.0.2">> [] OTHER -> <<>>
NoMx == [st |-> "ok", mx |-> <<>>]
Ent(n, k, mx) == [n |-> n, st |-> IF k = "fail" THEN "fail" ELSE "ok", a |-> Addrs(k), mxst |-> mx.st, mx |-> mx.mx, txt |-> <<>>]
Ents(q) == SelectSeq([i \in DOMAIN q |-> Ent(q[i][1], q[i][2], NoMx)], LAMBDA e : \E i \in DOMAIN q : q[i][1] = e.n /\ q[i][2] # "none")
Host(i, h) == [pref |-> 10 * i, host |-> h]

\* ----- C13: the client's names
Ptrs == {<<>>, <<"n1.test.">>, <<"n1.test.", "n2.test.">>}
RRules == "reject helo a.test dns nodns\nreject helo b.test dns inconsistent\nreject helo c.test dns noforward\nreject helo d.test dns good\nreject helo e.test dns exists\n"
          \o "reject helo f.test dns nodns,noforward\nreject helo g.test host n1.test\nreject helo h.test host .test\nreject helo i.test not host n2.test\n"
RWorld(ptr, k1, k2) ==
  World(BaseCfg, << [n |-> "rules", t |-> RRules] >>,
        [names |-> Ents(<< <<"n1.test.", k1>>, <<"n2.test.", k2>> >>), ptr |-> IF ptr = <<>> THEN <<>> ELSE << [n |-> Good4, names |-> ptr] >>])
RWorlds == {RWorld(p, k1, IF Len(p) < 2 THEN "none" ELSE k2) : p \in Ptrs, k1 \in Kinds("rdns"), k2 \in Kinds("rdns")}
RNames == << "a.test", "b.test", "c.test", "d.test", "e.test", "f.test", "g.test", "h.test", "i.test" >>
RMoves == << << Conn("a", Good4) >> \o [i \in DOMAIN RNames |-> Say("a", "EHLO", RNames[i])] >>

Verified(k) == k \in {"mine", "both"}
NoFwd(k) == k \in {"none", "fail", "empty"}
RClaim(ptr, kind, helo) ==
  LET all == SeqToSet(ptr)
      ver == {n \in all : Verified(kind[n])}
      nof == {n \in all : NoFwd(kind[n])}
      inc == all \ (ver \cup nof)
  IN CASE helo = "a.test" -> ver = {} [] helo = "b.test" -> inc # {} [] helo = "c.test" -> nof # {}
       [] helo = "d.test" -> all # {} /\ ver = all [] helo = "e.test" -> ver # {}
       [] helo = "f.test" -> ver = {} \/ nof # {}
       [] helo = "g.test" -> "n1.test." \in ver [] helo = "h.test" -> ver # {} [] helo = "i.test" -> "n2.test." \notin ver

\* ----- C14: the domain d.test, its MX records and their hosts
MxHosts == {"m1.test.", "m2.test."} \cup (IF Rich THEN {"localhost.", "."} ELSE {"localhost."})
Mxs == {NoMx, [st |-> "fail", mx |-> <<>>]} \cup {[st |-> "ok", mx |-> <<Host(1, h)>>] : h \in MxHosts}
       \cup {[st |-> "ok", mx |-> <<Host(1, h), Host(2, j)>>] : h \in MxHosts, j \in MxHosts}
MRules == "reject from r@ from-has resolves\nreject from b@ from-has baddom\nreject from u@ from-has unknown\nreject from x@ from-has baddom,unknown\n"
MWorld(k, mx, k1, k2) ==
  World(BaseCfg, << [n |-> "rules", t |-> MRules] >>,
        [names |-> (IF k = "none" /\ mx = NoMx THEN <<>> ELSE << Ent("d.test.", k, mx) >>) \o Ents(<< <<"m1.test.", k1>>, <<"m2.test.", k2>> >>), ptr |-> <<>>])
Hosts(mx) == {mx.mx[i].host : i \in DOMAIN mx.mx}
\* Leave out what cannot matter.
MWorlds == {MWorld(IF mx = NoMx THEN k ELSE "public", mx, IF "m1.test." \in Hosts(mx) THEN k1 ELSE "none", IF "m2.test." \in Hosts(mx) THEN k2 ELSE "none")
              : k \in Kinds("mx"), mx \in Mxs, k1 \in Kinds("mx"), k2 \in Kinds("mx")}
MSenders == << "r@d.test", "b@d.test", "u@d.test", "x@D.Test" >>
Then(v) == << Say("a", "MAIL", v), Say("a", "RSET", "") >>
MMoves == << << Conn("a", Good4), Say("a", "EHLO", "one.test") >> \o Flat([i \in DOMAIN MSenders |-> Then(MSenders[i])], 1) >>

Public(k) == k \in {"public", "public6"}
MClaim(mx, kind, from) ==
  LET hosts == IF mx = NoMx THEN {"d.test."} ELSE Hosts(mx)
      v == IF mx.st = "fail" THEN "unknown"
           ELSE IF hosts \cap {".", "localhost."} # {} THEN "bad"
           ELSE IF \E h \in hosts : Public(kind[h]) THEN "resolves"
           ELSE IF \E h \in hosts : kind[h] = "fail" THEN "unknown" ELSE "bad"
  IN CASE from = "r@d.test" -> v = "resolves" [] from = "b@d.test" -> v = "bad" [] from = "u@d.test" -> v = "unknown" [] OTHER -> v # "resolves"

\* ----- C15: which of the client's names are listed
Listable == << "7.100.51.198.bl.test.", "100.51.198.bl.test.", "c.test.bl.test.", "e.test.bl.test.", "f.test.bl.test." >>
Clients == {"verified", "inconsistent"}
BRules == "reject from a@ dnsbl bl.test\nreject from b@ dbl host bl.test\nreject from c@ dbl ehlo bl.test\nreject from d@ dbl from bl.test\nreject from e@ dbl any bl.test.\nreject from f@ dbl ehlo,from bl.test\n"
          \o "reject from g@ not dnsbl bl.test\nreject from h@ dnsbl no.test or dbl host bl.test\n"
BWorld(k, cl) ==
  World(BaseCfg, << [n |-> "rules", t |-> BRules] >>,
        [names |-> Ents([i \in DOMAIN Listable |-> <<Listable[i], k[i]>>] \o << <<"c.test.", IF cl = "verified" THEN "mine" ELSE "other">> >>),
         ptr |-> << [n |-> Good4, names |-> <<"c.test.">>] >>])
BWorlds == {BWorld(k, cl) : k \in [DOMAIN Listable -> Kinds("dbl")], cl \in Clients}
BSome == {x \in BWorlds : Rich \/ Cardinality({i \in DOMAIN x.zone.names : x.zone.names[i].st = "fail"}) <= 1}
BSenders == << "a@f.test", "b@f.test", "c@f.test", "d@f.test", "e@f.test", "f@f.test", "g@f.test", "h@f.test", "d@g.test", "d@f", "d@" >>
BMoves == << << Conn("a", Good4), Say("a", "EHLO", "e.test") >> \o Flat([i \in DOMAIN BSenders |-> Then(BSenders[i])], 1) \o << Gone("a"), Conn("b", Good6), Say("b", "EHLO", "e.test"), Say("b", "MAIL", "a@f.test"), Gone("b") >> >>
BClaim(k, from, rip) ==
  LET l(n) == k[n] = "listed"
      host == l("c.test.bl.test.")  helo == l("e.test.bl.test.")  dom == l("f.test.bl.test.")
  IN CASE from = "a@f.test" -> rip = Good4 /\ l("7.100.51.198.bl.test.")
       [] from = "b@f.test" -> host [] from = "c@f.test" -> helo [] from = "d@f.test" -> dom
       [] from = "e@f.test" -> host \/ helo \/ dom [] from = "f@f.test" -> helo \/ dom
       [] from = "g@f.test" -> ~l("7.100.51.198.bl.test.") [] from = "h@f.test" -> host
       [] OTHER -> FALSE

\* ----- all of them
NWorlds == AsSeq(CASE Family = "rdns" -> RWorlds [] Family = "mx" -> MWorlds [] Family = "dbl" -> BSome)
NMoves == CASE Family = "rdns" -> RMoves [] Family = "mx" -> MMoves [] Family = "dbl" -> BMoves
NAllowed(s, gh, i) == TRUE
\* The client, and whether something was listed.
NGhost0(wo) == [rip |-> "", hit |-> FALSE]
NGhost(gh, ev, r, wo) ==
  IF ev.ev = "conn" THEN [rip |-> ev.rip, hit |-> FALSE]
  ELSE IF ev.ev = "cmd" /\ ev.verb = "MAIL" /\ (IF ev.arg = "g@f.test" THEN r.out.cls = "2" ELSE r.out.cls = "5") THEN [gh EXCEPT !.hit = TRUE] ELSE gh

\* What kind of name each is, in a world, read back from what the DNS has.
KindIn(z, n) ==
  IF n \notin DOMAIN z.names THEN "none"
  ELSE IF z.names[n].st = "fail" THEN "fail"
  ELSE IF z.names[n].a = <<>> THEN "empty"
  ELSE CHOOSE k \in {"mine", "other", "both", "six", "mine6", "private", "mixed", "ula", "loop", "public", "public6", "listed"} :
         Addrs(k) = z.names[n].a /\ (k = "other") = (Family # "mx" /\ z.names[n].a = <<"203.0.113.1">>)
NClaims(gh, ev, r, wo) ==
  LET z == r.st.zone
      kind == [n \in {"n1.test.", "n2.test.", "m1.test.", "m2.test.", "d.test.", "localhost.", "."} \cup SeqToSet(Listable) |-> KindIn(z, n)]
      out == r.out IN
  CASE Family = "rdns" /\ ev.ev = "cmd" ->
         If((out.cls = "5") # RClaim(IF Good4 \in DOMAIN z.ptr THEN z.ptr[Good4] ELSE <<>>, kind, ev.arg), "C13")
    [] Family = "mx" /\ ev.ev = "cmd" /\ ev.verb = "MAIL" ->
         If((out.cls = "5") # MClaim(IF "d.test." \in DOMAIN z.names THEN [st |-> z.names["d.test."].mxst, mx |-> z.names["d.test."].mx] ELSE NoMx, kind, ev.arg), "C14")
    [] Family = "dbl" /\ ev.ev = "cmd" /\ ev.verb = "MAIL" -> If((out.cls = "5") # BClaim(kind, ev.arg, gh.rip), "C15")
    [] Family = "dbl" /\ ev.ev = "abort" ->
         If((\E i \in DOMAIN out.bang : out.bang[i].k = "dnsbl" /\ out.bang[i].v = {"bl.test."}) # gh.hit, "C15 logged")
    [] OTHER -> {}
NCore(s) == s.up
=============================================================================

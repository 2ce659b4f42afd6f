-------------------------------- MODULE McConn --------------------------------
(* Per-connection configuration (C24): files of up to Entries entries, all     *)
(* kinds of local addresses, and the file changing under the server.            *)
EXTENDS Mc

CONSTANTS Entries, Ways

AllWays == {[helo |-> h, cert |-> c] : h \in {"", "me.test"}, c \in BOOLEAN}
OneWay == {[helo |-> "", cert |-> TRUE]}

\* What an entry is for, what it says, and how it is written.
Fors == { [l |-> "*", of |-> {"A", "B", "C"}], [l |-> "192.0.2.25", of |-> {"A", "B"}], [l |-> "192.0.2.25:25", of |-> {"A"}],
          [l |-> "192.0.2.0/27", of |-> {"A", "B"}], [l |-> "198.51.100.0/24", of |-> {}], [l |-> "2001:db8::1", of |-> {"C"}], [l |-> "mail.test", of |-> {}] }
Says == { [s |-> "", name |-> "", cert |-> ""], [s |-> " hostname=h.test", name |-> "h.test", cert |-> ""],
          [s |-> " cert=cert2.pem key=key2.pem", name |-> "", cert |-> "cert2.pem"],
          [s |-> " key=key3.pem\thostname=i.test cert=cert3.pem", name |-> "i.test", cert |-> "cert3.pem"] }
Lines1 == {[t |-> f.l \o s.s \o "\n", of |-> f.of, name |-> s.name, cert |-> s.cert] : f \in Fors, s \in Says}
\* Some entries are as good as others.
Few == {e \in Lines1 : e.of # {} \/ e.cert = "cert3.pem"}
Texts == IF Entries = 1 THEN {<<e>> : e \in Lines1} ELSE {<<e, f>> : e \in Few, f \in {x \in Few : x.name # "" \/ x.cert # ""}}
Text(q) == IF Len(q) = 1 THEN "# one\n\n" \o q[1].t ELSE q[1].t \o " # two\n" \o q[2].t
Bads == {"* hostname\n", "*\n* cert=cert1.pem\n", "* hostname=x.test name=y\n", "* cert=cert1.pem key=key2.pem\n", "* a=b\n"}

CCfg(helo, cert) == [BaseCfg EXCEPT !.helo = helo, !.conncfg = "conns", !.cert = IF cert THEN "cert1.pem" ELSE "", !.key = IF cert THEN "key1.pem" ELSE ""]
CZone == [names |-> <<>>, ptr |-> << [n |-> "192.0.2.25", names |-> <<"rev.test.">>] >>]
CWorlds == AsSeq({World(CCfg(y.helo, y.cert), << [n |-> "rules", t |-> ""], [n |-> "conns", t |-> Text(q)] >>, CZone) : y \in Ways, q \in Texts})

\* The local addresses.
Addr(x) == CASE x = "A" -> <<"192.0.2.25", 25>> [] x = "B" -> <<"192.0.2.25", 2525>> [] x = "C" -> <<"2001:db8::1", 25>>
Try(x) == << [ConnTo("a", "198.51.100.7", Addr(x)[1], Addr(x)[2]) EXCEPT !.laddr = IF x = "C" THEN "[2001:db8::1]:25" ELSE @],
             Say("a", "EHLO", "one.test"), Tls("a", TRUE, ""), Gone("a") >>
Tries == Try("A") \o Try("B") \o Try("C")
BadTries == LET b == AsSeq(Bads) IN Flat([i \in DOMAIN b |-> <<WriteFile("conns", b[i])>> \o Try("A")], 1)
CMoves == << Tries \o <<RemoveFile("conns")>> \o Tries \o <<WriteFile("conns", "* hostname=j.test\n")>> \o Try("A"),
             Try("A") \o BadTries \o <<WriteFile("conns", "192.0.2.25:2525 cert=cert2.pem key=key2.pem\n")>> \o Try("B") >>
CAllowed(s, gh, i) == TRUE

\* The file now ("first", "none" or its text), and the connection.
CGhost0(wo) == [file |-> "first", x |-> ""]
Which(ev) == IF ev.lip = "2001:db8::1" THEN "C" ELSE IF ev.lport = 25 THEN "A" ELSE "B"
CGhost(gh, ev, r, wo) ==
  CASE ev.ev = "file" -> [gh EXCEPT !.file = IF ev.gone \/ ev.text \in Bads THEN "none" ELSE ev.text]
    [] ev.ev = "conn" -> [gh EXCEPT !.x = Which(ev)]
    [] OTHER -> gh

General(wo, x) == [name |-> IF wo.cfg.helo # "" THEN wo.cfg.helo ELSE IF x = "C" THEN "[2001:db8::1]:25" ELSE "rev.test",
                   cert |-> wo.cfg.cert]
Over(e, gen) == [name |-> IF e.name # "" THEN e.name ELSE gen.name, cert |-> e.cert]
RECURSIVE First(_, _, _, _)
First(q, i, x, gen) ==
  IF i > Len(q) THEN gen
  ELSE LET e == {y \in Lines1 : y.t = q[i] \o "\n" /\ x \in y.of}
       IN IF e # {} THEN Over(CHOOSE y \in e : TRUE, gen) ELSE First(q, i + 1, x, gen)
Should(gh, x, wo) ==
  LET gen == General(wo, x) IN
  CASE gh.file = "none" -> gen
    [] gh.file = "first" -> First(Split(wo.files[2].t, "\n"), 1, x, gen)
    [] gh.file = "* hostname=j.test\n" -> [name |-> "j.test", cert |-> ""]
    [] OTHER -> IF x = "B" THEN [gen EXCEPT !.cert = "cert2.pem"] ELSE gen

CClaims(gh, ev, r, wo) ==
  LET out == r.out IN
  CASE ev.ev = "conn" -> If(out.name # Should(gh, Which(ev), wo).name, "C24 name")
    [] ev.ev = "cmd" -> If(out.starttls # (Should(gh, gh.x, wo).cert # ""), "C24 TLS")
    [] ev.ev = "starttls" -> If(out.cert # Should(gh, gh.x, wo).cert, "C24 certificate")
    [] OTHER -> {}
CCore(s) == s.fs
=============================================================================

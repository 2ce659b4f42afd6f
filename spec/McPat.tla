--------------------------------- MODULE McPat ---------------------------------
(* Patterns and attributes on all short texts over a small alphabet: addresses  *)
(* (C08, C11), names (C09, C12) and IP addresses (C10).  The claims go by the   *)
(* form of the pattern, as the documentation does.                              *)
EXTENDS Mc

CONSTANTS Family, Alphabet, Length

RECURSIVE Strings(_, _)
Strings(A, n) == IF n = 0 THEN {""} ELSE LET q == Strings(A, n - 1) IN q \cup {s \o c : s \in q, c \in A}
All == Strings(Alphabet, Length)

\* ----- the texts
AddrPats == {"<>", "@", "a@", "b@", "A@", "@b.a", "@.b.a", "@a", "@.a", "a@b.a", "A@B.A", "a", "@b.a.", "a@b", "@.b"}
Addrs == {s \in All : TRUE} \cup
  {"a@b.a", "A@b.a", "a@B.A", "b@b.a", "a@a.b.a", "a@a.a.b.a", "a@ab.a", "a@.b.a", "a@b.a.", "a@b.aa", "a@b.a.a", "aa@b.a", "a@b@b.a", "a@a@b", "@b.a", "a@", "a"}

HostPats == {"a", ".a", "b.a", ".b.a", "a.", ".a.", "B.A", "ab"}
Hosts == {s \in All : s # ""} \cup {"b.a", "a.b.a", "B.a", "b.a.", "ab.a", "a.b.a.", ".b.a", "b.a.b", "bb.a"}

AttrLists == {"unqualified", "route", "quoted", "noat", "garbage", "bad", "noat,route", "unqualified,quoted"}
Forms == {s \in All : TRUE} \cup
  {"a@b.a", "a@b", "@a:b@a.b", "@a,@b:c@d.e", "\"a b\"@b.a", "a\"b@c.d", "<a@b.a", "a@b.a>", "a@b.a.", "a@b..a", "a..b@c.d", "a@@b.a", "a@", "@", "@b.a", "a@[1.2.3.4]", "a", "\"a@b.a\""}

HeloLists == {"helo", "ehlo", "none", "bogus", "nodots", "bareip", "properip", "myip", "remip", "otherip", "ip", "nodots,bareip"}
Helos == {s \in All : TRUE} \cup
  {".", "localhost", "a.b", "a:b", "198.51.100.7", "[198.51.100.7]", "192.0.2.25", "[192.0.2.25]", "10.1.1.1", "[10.1.1.1]", "[a]", "[]", "[1.2.3]",
   "1.2.3.4.5", "2001:db8::7", "[2001:db8::7]", "::ffff:198.51.100.7x", "[198.51.100.7", "198.51.100.7]", "256.1.1.1", "01.2.3.4"}

IPPats == {"198.51.100.7", "198.51.100.6", "0.0.0.0/0", "198.0.0.0/8", "198.51.100.0/29", "198.51.100.8/29", "198.51.100.7/32", "198.51.101.0/23", "198.51.100.128/25",
           "2001:db8::7", "2001:DB8:0::0:7", "2001:db8::/32", "2001:db8::/127", "2001:db8::6/127", "::/0", "2001:db8:8000::/33"}
IPs == {"198.51.100.7", "198.51.100.8", "198.51.101.7", "198.52.100.7", "199.51.100.7", "2001:db8::7", "2001:db8::6", "2001:db8::8", "2001:db8:8000::7", "2001:db9::7"}

\* ----- the worlds, one for each pattern or list, and the one conversation
Fam(q) == AsSeq({RulesWorld(s) : s \in q})
XWorlds ==
  CASE Family = "addr" -> Fam({"set-with from " \o p \o " with message hit\n" : p \in AddrPats})
    [] Family = "host" -> Fam({"reject helo " \o p \o "\n" : p \in HostPats})
    [] Family = "form" -> Fam({"set-with from-has " \o p \o " with message hit\n" : p \in AttrLists})
    [] Family = "helo" -> Fam({"reject helo-has " \o p \o "\n" : p \in HeloLists})
    [] Family = "ip"   -> Fam({"@helo reject ip " \o p \o "\n" : p \in IPPats})

Begin == << Conn("a", "198.51.100.7"), Say("a", "EHLO", "begin.test") >>
Mails(S) == LET q == AsSeq(S) IN Begin \o Flat([i \in DOMAIN q |-> <<Say("a", "MAIL", q[i]), Say("a", "RSET", "")>>], 1)
Helos1(S, verbs) == LET q == AsSeq(S) IN << Conn("a", "198.51.100.7") >> \o Flat([i \in DOMAIN q |-> [j \in DOMAIN verbs |-> Say("a", verbs[j], q[i])]], 1)
XMoves ==
  CASE Family = "addr" -> << Mails(Addrs) >>
    [] Family = "host" -> << Helos1(Hosts, <<"EHLO">>) >>
    [] Family = "form" -> << Mails(Forms) >>
    [] Family = "helo" -> << Helos1(Helos, <<"EHLO", "HELO">>) >>
    [] Family = "ip"   -> LET q == AsSeq(IPs) IN << Flat([i \in DOMAIN q |-> << Conn("a", q[i]), Say("a", "EHLO", "x.test"), Gone("a") >>], 1) >>
XAllowed(s, gh, i) == TRUE
\* The last client.
XGhost0(wo) == ""
XGhost(gh, ev, r, wo) == IF ev.ev = "conn" THEN ev.rip ELSE gh

\* ----- what the documentation says
Pat(wo) == Fields(wo.files[1].t)[IF Family = "ip" THEN 4 ELSE 3]

Before(a) == Upto(a, Index(a, "@") - 1)
After(a) == From(a, Index(a, "@") + 1)
Below(d, p) == d = p \/ \E i \in 1..(Len(d) - 1) : At(d, i) = "." /\ From(d, i + 1) = p
AddrClaim(a0, p0) ==
  LET a == Lower(a0)  p == Lower(p0)
      one == Cardinality({i \in 1..Len(p) : At(p, i) = "@"}) = 1
  IN IF a = "" THEN p = "<>"
     ELSE IF At(a, 1) = "@" \/ Index(a, "@") = Len(a) THEN FALSE
     ELSE IF p = "@" THEN Has(a, "@")
     ELSE IF one /\ Last(p) = "@" THEN (IF Has(a, "@") THEN Before(a) = Before(p) ELSE a = Before(p))
     ELSE IF HasPrefix(p, "@.") THEN Has(a, "@") /\ Below(After(a), From(p, 3))
     ELSE IF HasPrefix(p, "@") THEN Has(a, "@") /\ After(a) = From(p, 2)
     ELSE a = p

HostClaim(h0, p0) ==
  LET p == Lower(p0)
      l == Lower(h0)
      h == IF Last(p) # "." /\ Last(l) = "." THEN Upto(l, Len(l) - 1) ELSE l
  IN h = p \/ (At(p, 1) = "." /\ h # "" /\ Below(h, From(p, 2)))

\* Attributes.
Is(a, o) ==
  LET dom == After(a)
      ats == {i \in 1..Len(a) : At(a, i) = "@"}
      bare == HasPrefix(a, "@") /\ Cardinality(ats) = 1          \* @domain: no local part
  IN a # "" /\
     CASE o = "noat" -> ats = {}
       [] o = "unqualified" -> ats # {} /\ ~Has(dom, ".")
       [] o = "route" -> HasPrefix(a, "@") /\ ~bare
       [] o = "quoted" -> \E i \in 1..(Len(a) - 1) : At(a, i) = "\""
       [] o = "garbage" -> bare \/ At(a, 1) = "<" \/ Last(a) \in {">", "]", "\"", "."} \/ Index(a, "@") = Len(a)
                           \/ Contains(a, "..") \/ Contains(a, "@@")
FormClaim(a, l) ==
  LET q == Split(l, ",")
      opts == UNION {IF q[i] = "bad" THEN {"noat", "quoted", "unqualified", "garbage"} ELSE {q[i]} : i \in DOMAIN q}
  IN \E o \in opts : Is(a, o)

HeloIs(verb, h, o, rip) ==
  LET inner == IF HasPrefix(h, "[") /\ Len(h) > 2 /\ Last(h) = "]" THEN Sub(h, 2, Len(h) - 1) ELSE ""
      ip == IF IsIP(h) THEN h ELSE IF inner # "" /\ IsIP(inner) THEN inner ELSE ""
  IN CASE o = "helo" -> verb = "HELO" [] o = "ehlo" -> verb = "EHLO"
       [] o = "none" -> h = "" [] o = "bogus" -> h = "."
       [] o = "nodots" -> h = "." \/ (~Has(h, ".") /\ ~Has(h, ":"))
       [] o = "bareip" -> IsIP(h) [] o = "properip" -> ip # "" /\ ip = inner
       [] o = "ip" -> ip # ""
       [] o = "remip" -> ip # "" /\ ip = rip [] o = "myip" -> ip # "" /\ ip = MyIP
       [] o = "otherip" -> ip # "" /\ ip \notin {rip, MyIP}
HeloClaim(verb, h, l, rip) == LET q == Split(l, ",") IN \E i \in DOMAIN q : HeloIs(verb, h, q[i], rip)

\* The bits of an address, as a sequence.
Bits(b) == Flat([i \in DOMAIN b |-> [k \in 1..8 |-> (b[i] \div Pow2(8 - k)) % 2]], 1)
IPClaim(rip, p) ==
  LET s == Split(p, "/")
      x == Bits(ParseIP(rip))  y == Bits(ParseIP(s[1]))
      n == IF Len(s) = 2 THEN DecNum(s[2]) ELSE Len(y)
  IN Len(x) = Len(y) /\ \A i \in 1..n : x[i] = y[i]

XClaims(gh, ev, r, wo) ==
  LET out == r.out IN
  IF ev.ev # "cmd" \/ ev.arg = "begin.test" THEN {}
  ELSE CASE Family = "addr" /\ ev.verb = "MAIL" -> If((out.text # <<>>) # AddrClaim(ev.arg, Pat(wo)), "C08")
         [] Family = "host" -> If((out.cls = "5") # HostClaim(ev.arg, Pat(wo)), "C09")
         [] Family = "form" /\ ev.verb = "MAIL" -> If((out.text # <<>>) # FormClaim(ev.arg, Pat(wo)), "C11")
         [] Family = "helo" -> If((out.cls = "5") # HeloClaim(ev.verb, ev.arg, Pat(wo), gh), "C12")
         [] Family = "ip"   -> If((out.cls = "5") # IPClaim(gh, Pat(wo)), "C10")
         [] OTHER -> {}

XCore(s) == s.up
=============================================================================

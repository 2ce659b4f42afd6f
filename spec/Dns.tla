--------------------------------- MODULE Dns ---------------------------------
(* What the DNS says, and what follows from it about the client and about mail *)
(* domains.                                                                    *)
(*                                                                             *)
(* A zone z is [names, ptr].  names maps fully qualified lower case names      *)
(* (with their final dot) to [st, a, mxst, mx]: st is "ok" or "fail" (the      *)
(* servers do not answer) for address lookups and a the addresses; mxst and mx *)
(* are the same for MX lookups, each MX being [pref, host].  ptr maps client   *)
(* addresses to their names in alphabetical order.  Other names do not exist.  *)
EXTENDS Patterns

Letters == Uppers \cup {LowerOf[c] : c \in Uppers}
LabelChars == Letters \cup Digits \cup {"-", "_"}

\* Text that can be looked up at all.
IsDomainName(n) ==
  LET d == IF n # "" /\ Last(n) = "." THEN Upto(n, Len(n) - 1) ELSE n
      q == Split(d, ".")
  IN \/ n = "."
     \/ /\ d # "" /\ Len(n) <= 254
        /\ \A i \in DOMAIN q : /\ q[i] # "" /\ Len(q[i]) <= 63
                               /\ AllIn(q[i], LabelChars)
                               /\ At(q[i], 1) # "-" /\ Last(q[i]) # "-"
        /\ \E i \in 1..Len(d) : At(d, i) \in Letters \cup {"-", "_"}

Fqdn(n) == LET l == Lower(n) IN IF l # "" /\ Last(l) = "." THEN l ELSE l \o "."

\* Address lookup of a fully qualified name: [st, ips], st one of "ok" (at least
\* one address), "none" (no such name, or no address) and "fail" (no answer).
LookupIP(z, n) ==
  LET k == Lower(n)
  IN IF ~IsDomainName(n) \/ k \notin DOMAIN z.names THEN [st |-> "none", ips |-> <<>>]
     ELSE LET e == z.names[k]
          IN IF e.st = "fail" THEN [st |-> "fail", ips |-> <<>>]
             ELSE IF e.a = <<>> THEN [st |-> "none", ips |-> <<>>]
             ELSE [st |-> "ok", ips |-> e.a]

LookupMX(z, n) ==
  LET k == Lower(n)
  IN IF ~IsDomainName(n) \/ k \notin DOMAIN z.names THEN [st |-> "none", mx |-> <<>>]
     ELSE LET e == z.names[k]
          IN IF e.mxst = "fail" THEN [st |-> "fail", mx |-> <<>>]
             ELSE IF e.mx = <<>> THEN [st |-> "none", mx |-> <<>>]
             ELSE [st |-> "ok", mx |-> e.mx]

----------------------------------------------------------------------------
(* Reverse DNS of a client, verified by looking the names up again.            *)
NoRdns == [verified |-> <<>>, nofwd |-> <<>>, inconsist |-> <<>>]

NamesThat(q, T(_)) == SelectSeq(q, T)

Rdns(z, rip) ==
  IF rip \notin DOMAIN z.ptr THEN NoRdns
  ELSE LET names == z.ptr[rip]
           NoFwd(n) == LookupIP(z, n).st # "ok"
           Good(n)  == LET r == LookupIP(z, n)
                       IN r.st = "ok" /\ \E i \in DOMAIN r.ips : ParseIP(r.ips[i]) = ParseIP(rip)
           Incons(n) == ~NoFwd(n) /\ ~Good(n)
       IN [verified |-> SelectSeq(names, Good), nofwd |-> SelectSeq(names, NoFwd),
           inconsist |-> SelectSeq(names, Incons)]

DnsAttrs(rd) ==
  LET bad == (IF rd.verified = <<>> THEN {"nodns"} ELSE {})
             \cup (IF rd.nofwd # <<>> THEN {"noforward"} ELSE {})
             \cup (IF rd.inconsist # <<>> THEN {"inconsistent"} ELSE {})
  IN bad \cup (IF rd.verified # <<>> THEN {"exists"} ELSE {})
         \cup (IF bad = {} THEN {"good"} ELSE {})

----------------------------------------------------------------------------
(* Mail domains.                                                               *)
PrivateBlocks == {"10.0.0.0/8", "172.16.0.0/12", "192.168.0.0/16", "fc00::/7", "fec0::/10"}
NotGlobal == {"0.0.0.0/32", "255.255.255.255/32", "127.0.0.0/8", "224.0.0.0/4", "169.254.0.0/16",
              "::/128", "::1/128", "ff00::/8", "fe80::/10"}

\* An address that mail could be delivered to.
Deliverable(ip) ==
  LET b == ParseIP(ip) IN \A c \in PrivateBlocks \cup NotGlobal : ~InBlock(b, ParseCIDR(c))

\* "good", "bad" or "temp".
HostDeliverable(z, n) ==
  LET r == LookupIP(z, n)
  IN CASE r.st = "fail" -> "temp"
       [] r.st = "none" -> "bad"
       [] OTHER -> IF \A i \in DOMAIN r.ips : Deliverable(r.ips[i]) THEN "good" ELSE "bad"

DomainStatus(z, dom) ==
  LET r == LookupMX(z, dom \o ".")
      v == [i \in DOMAIN r.mx |-> HostDeliverable(z, r.mx[i].host)]
  IN CASE r.st = "fail" -> "temp"
       [] r.st = "none" -> HostDeliverable(z, dom \o ".")
       [] OTHER ->
            IF \E i \in DOMAIN r.mx : Lower(r.mx[i].host) \in {".", "localhost."} THEN "bad"
            ELSE IF \E i \in DOMAIN v : v[i] = "good" THEN "good"
            ELSE IF \E i \in DOMAIN v : v[i] = "temp" THEN "temp"
            ELSE "bad"

----------------------------------------------------------------------------
(* Blocklists: a name is listed if it has any address.                         *)
Listed(z, n) == LookupIP(z, n).st = "ok"

\* The name of an IPv4 client in a blocklist; "" for others.
DnsblName(rip, dom) ==
  LET s == Split(rip, ".")
  IN IF Len(s) # 4 THEN "" ELSE s[4] \o "." \o s[3] \o "." \o s[2] \o "." \o s[1] \o "." \o dom

\* The records of the Spamhaus SBL that list a client, from the ends of the URLs in
\* the TXT records.
SblRecords(z, rip) ==
  LET n == DnsblName(rip, "sbl.spamhaus.org.")
      q == IF n \in DOMAIN z.names THEN SeqToSet(z.names[n].txt) ELSE {}
  IN IF n = "" THEN {} ELSE {From(t, LastIndex(t, "/") + 1) : t \in {u \in q : Has(u, "/") /\ Last(u) # "/"}}

InDnsbl(z, rip, dom) == LET n == DnsblName(rip, dom) IN n # "" /\ Listed(z, n)
=============================================================================

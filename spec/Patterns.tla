------------------------------ MODULE Patterns ------------------------------
(* Address and hostname patterns (doc: "Address and hostname patterns").       *)
(* Patterns are given lower-cased; addresses and names are as the client       *)
(* sent them.                                                                  *)
EXTENDS IPAddr

\* Domain d is the domain p or one of its subdomains.
InDomain(d, p) == d = p \/ HasSuffix(d, "." \o p)

\* What may follow the '@' of an address pattern, against the domain of an
\* address: nothing at all, '.p' for p and its subdomains, or the domain itself.
DomainPatMatches(d, pat) ==
  \/ pat = ""
  \/ pat = d
  \/ /\ HasPrefix(pat, ".")
     /\ InDomain(d, From(pat, 2))

AddrMatches(addr, pat) ==
  LET a == Lower(addr)
      i == Index(a, "@")
  IN CASE a = ""                 -> pat = "<>"
       [] a # "" /\ (i = 1 \/ i = Len(a)) -> FALSE
       [] a # "" /\ i = 0        -> pat = a \/ pat = a \o "@"
       [] OTHER ->
            \/ pat = a
            \/ pat = Upto(a, i)
            \/ /\ HasPrefix(pat, "@")
               /\ DomainPatMatches(From(a, i + 1), From(pat, 2))

\* A name may carry the final dot of DNS; it is disregarded unless the pattern
\* ends in a dot too.
HostMatches(host, pat) ==
  /\ host # "" /\ pat # ""
  /\ LET l == Lower(host)
         h == IF Last(l) = "." /\ Last(pat) # "." THEN Upto(l, Len(l) - 1) ELSE l
     IN \/ pat = h
        \/ HasPrefix(pat, ".") /\ (pat = "." \o h \/ (Len(h) > Len(pat) /\ HasSuffix(h, pat)))
=============================================================================

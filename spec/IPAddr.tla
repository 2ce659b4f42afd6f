------------------------------- MODULE IPAddr -------------------------------
(* IP addresses and CIDR netblocks in their textual forms.  An address is its *)
(* sequence of bytes: four for IPv4 (including IPv4-mapped IPv6), sixteen for  *)
(* IPv6, and the empty sequence for text that is not an IP address.            *)
EXTENDS Text

NoIP == <<>>

OkOctet(s) ==
  /\ Len(s) \in 1..3
  /\ AllIn(s, Digits)
  /\ (Len(s) > 1 => At(s, 1) # "0")
  /\ DecNum(s) <= 255

ParseV4(s) ==
  LET p == Split(s, ".")
  IN IF Len(p) = 4 /\ \A i \in 1..4 : OkOctet(p[i])
     THEN [i \in 1..4 |-> DecNum(p[i])] ELSE NoIP

OkGroup(s) == Len(s) \in 1..4 /\ AllIn(s, HexDigits)

\* The bytes of a list of colon separated groups, the last of which may be a
\* dotted quad; <<-1>> (never a byte) when malformed.
RECURSIVE GroupBytes(_, _)
GroupBytes(g, i) ==
  IF i > Len(g) THEN <<>>
  ELSE IF OkGroup(g[i])
       THEN LET n == HexNum(g[i]) IN << n \div 256, n % 256 >> \o GroupBytes(g, i + 1)
       ELSE IF i = Len(g) /\ Has(g[i], ".") /\ ParseV4(g[i]) # NoIP
            THEN ParseV4(g[i])
            ELSE << 999 >>

BadBytes(b) == \E i \in DOMAIN b : b[i] = 999
GroupsOf(s) == IF s = "" THEN <<>> ELSE GroupBytes(Split(s, ":"), 1)

DoubleColon(s) == CHOOSE i \in 0..Len(s) :
  \/ i = 0 /\ ~Contains(s, "::")
  \/ i > 0 /\ i < Len(s) /\ Sub(s, i, i + 1) = "::"
           /\ \A j \in 1..(i - 1) : Sub(s, j, j + 1) # "::"

ParseV6(s) ==
  IF ~Has(s, ":") THEN NoIP
  ELSE IF Contains(s, "::")
       THEN LET d == DoubleColon(s)
                a == GroupsOf(Upto(s, d - 1))
                b == GroupsOf(From(s, d + 2))
                pad == 16 - Len(a) - Len(b)
            IN IF BadBytes(a) \/ BadBytes(b) \/ Len(a) + Len(b) > 14
                  \/ Contains(From(s, d + 2), "::") \/ HasPrefix(From(s, d + 2), ":")
                  \/ Has(Upto(s, d - 1), ".")
               THEN NoIP
               ELSE a \o [i \in 1..pad |-> 0] \o b
       ELSE LET a == GroupsOf(s)
            IN IF BadBytes(a) \/ Len(a) # 16 THEN NoIP ELSE a

To4(b) ==
  IF Len(b) = 16 /\ (\A i \in 1..10 : b[i] = 0) /\ b[11] = 255 /\ b[12] = 255
  THEN SubSeq(b, 13, 16) ELSE b

ParseIP(s) == LET v4 == ParseV4(s) IN IF v4 # NoIP THEN v4 ELSE To4(ParseV6(s))
IsIP(s) == ParseIP(s) # NoIP

\* [ip, len] with ip = NoIP when s is not a CIDR.
NoCIDR == [ip |-> NoIP, len |-> 0]
ParseCIDR(s) ==
  LET p == Split(s, "/")
  IN IF Len(p) # 2 THEN NoCIDR
     ELSE LET ip == ParseIP(p[1])
          IN IF ip = NoIP \/ Len(p[2]) \notin 1..3 \/ ~AllIn(p[2], Digits) THEN NoCIDR
             ELSE IF DecNum(p[2]) > 8 * Len(ip) THEN NoCIDR
             ELSE [ip |-> ip, len |-> DecNum(p[2])]
IsCIDR(s) == ParseCIDR(s).ip # NoIP

Pow2(n) == CASE n = 0 -> 1 [] n = 1 -> 2 [] n = 2 -> 4 [] n = 3 -> 8 [] n = 4 -> 16
             [] n = 5 -> 32 [] n = 6 -> 64 [] n = 7 -> 128 [] n = 8 -> 256

\* ip lies in the netblock c.
InBlock(ip, c) ==
  /\ Len(ip) = Len(c.ip)
  /\ \A i \in 1..Len(ip) :
       LET k == IF c.len >= 8 * i THEN 8
                ELSE IF c.len <= 8 * (i - 1) THEN 0 ELSE c.len - 8 * (i - 1)
           d == Pow2(8 - k)
       IN ip[i] \div d = c.ip[i] \div d

\* The textual address rip is the address, or lies in the netblock, that pat
\* writes.  Text that is neither matches nothing.
IPMatches(rip, pat) ==
  LET ip == ParseIP(rip)
  IN /\ ip # NoIP
     /\ \/ IsIP(pat) /\ ParseIP(pat) = ip
        \/ IsCIDR(pat) /\ InBlock(ip, ParseCIDR(pat))
=============================================================================

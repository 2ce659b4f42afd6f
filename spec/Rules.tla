-------------------------------- MODULE Rules --------------------------------
(* What the rules of a session make of one step of its conversation.           *)
EXTENDS RuleLang, Dns

----------------------------------------------------------------------------
(* Pattern lists.                                                              *)
\* The patterns of a file: its lines in lower case, without blank and comment
\* lines.  A file that does not exist has none.
ListOf(text) ==
  LET q == Lines(text)
      t == [i \in DOMAIN q |-> Lower(Trim(q[i]))]
      Real(l) == l # "" /\ ~HasPrefix(l, "#")
  IN SelectSeq(t, Real)
LoadList(fs, n) == IF FileExists(fs, n) THEN ListOf(FileText(fs, n)) ELSE <<>>

ListFile(arg) == IF HasPrefix(arg, "file:") THEN From(arg, 6) ELSE arg

----------------------------------------------------------------------------
(* Attributes.                                                                 *)
DomainOf(a) == From(a, Index(a, "@") + 1)

FormAttrs(a) ==
  IF a = "" THEN {} ELSE
  LET i == Index(a, "@")
      rest == From(a, 2)
      lone == i = 1 /\ ~Has(rest, "@")
      q == Index(a, "\"")
  IN (IF i = 0 THEN {"noat"} ELSE {})
     \cup (IF i = 1 /\ ~lone THEN {"route"} ELSE {})
     \cup (IF i # 0 /\ ~Has(DomainOf(a), ".") THEN {"unqualified"} ELSE {})
     \cup (IF \/ lone \/ At(a, 1) = "<" \/ Last(a) \in {">", "\"", "]", "."} \/ i = Len(a)
              \/ Contains(a, "..") \/ Contains(a, "@@")
           THEN {"garbage"} ELSE {})
     \cup (IF q # 0 /\ q # Len(a) THEN {"quoted"} ELSE {})

HasDomainAttr(a) == a # "" /\ FormAttrs(a) \cap {"noat", "unqualified", "garbage", "route"} = {}

AddrAttrs(z, a) ==
  FormAttrs(a) \cup
  (IF ~HasDomainAttr(a) THEN {}
   ELSE LET v == DomainStatus(z, DomainOf(a))
        IN {CASE v = "good" -> "resolves" [] v = "bad" -> "baddom" [] v = "temp" -> "unknown"})

HeloAttrs(cmd, h, rip, lip) ==
  LET lit == IF Len(h) > 2 /\ At(h, 1) = "[" /\ Last(h) = "]" THEN Sub(h, 2, Len(h) - 1) ELSE ""
      bare == IsIP(h)
      prop == lit # "" /\ IsIP(lit)
      ip == IF bare THEN h ELSE IF prop THEN lit ELSE ""
  IN {IF cmd = "HELO" THEN "helo" ELSE "ehlo"} \cup
     CASE h = ""  -> {"none", "nodots"}
       [] h = "." -> {"bogus", "nodots"}
       [] OTHER   ->
            (IF ~Has(h, ".") /\ ~Has(h, ":") THEN {"nodots"} ELSE {})
            \cup (IF bare THEN {"bareip"} ELSE {})
            \cup (IF prop THEN {"properip"} ELSE {})
            \cup (IF ip = "" THEN {}
                  ELSE {IF ip = rip THEN "remip" ELSE IF ip = lip THEN "myip" ELSE "otherip"})

----------------------------------------------------------------------------
(* Evaluation.  x is what is known: [rip, lip, tls, rdns, hcmd, helo, from, to, *)
(* zone, fs].  Evaluating has side effects, gathered in a: [lists, hits], the  *)
(* pattern files read so far in this session and the blocklists that listed    *)
(* something.  The result is [v, miss, a]: miss says that an empty pattern     *)
(* file was consulted, in which case the whole rule does not match.            *)
Val(v, miss, a) == [v |-> v, miss |-> miss, a |-> a]

AddHit(a, d) == IF \E i \in DOMAIN a.hits : a.hits[i] = d THEN a ELSE [a EXCEPT !.hits = Append(@, d)]

PatMatches(what, x, pat) ==
  CASE what = "from"   -> AddrMatches(x.from, pat)
    [] what = "to"     -> AddrMatches(x.to, pat)
    [] what = "helo"   -> HostMatches(x.helo, pat)
    [] what = "host"   -> \E i \in DOMAIN x.rdns.verified : HostMatches(x.rdns.verified[i], pat)
    [] what = "ip"     -> IPMatches(x.rip, pat)
    [] what = "srcfrom" -> AddrMatches(x.from, "@" \o pat)

EvalMatch(what, arg, x, a) ==
  IF IsFileName(arg)
  THEN LET f == ListFile(arg)
           a2 == IF f \in DOMAIN a.lists THEN a ELSE [a EXCEPT !.lists = (f :> LoadList(x.fs, f)) @@ @]
           l == a2.lists[f]
       IN IF l = <<>> THEN Val(FALSE, TRUE, a2)
          ELSE Val(\E i \in DOMAIN l : PatMatches(what, x, l[i]), FALSE, a2)
  ELSE Val(PatMatches(what, x, Lower(arg)), FALSE, a)

\* The names that a dbl operator looks up.
NoDot(n) == IF n # "" /\ Last(n) = "." THEN Upto(n, Len(n) - 1) ELSE n
DblNames(srcs, x) ==
  (IF "ehlo" \in srcs /\ x.helo # "" THEN {x.helo} ELSE {})
  \cup (IF "host" \in srcs
        THEN {NoDot(n) : n \in SeqToSet(x.rdns.verified) \cup SeqToSet(x.rdns.nofwd) \cup SeqToSet(x.rdns.inconsist)}
        ELSE {})
  \cup (IF "from" \in srcs /\ HasDomainAttr(x.from) THEN {DomainOf(x.from)} ELSE {})

HasAttrs(what, x) ==
  CASE what = "from-has" -> AddrAttrs(x.zone, x.from)
    [] what = "to-has"   -> AddrAttrs(x.zone, x.to)
    [] what = "helo-has" -> HeloAttrs(x.hcmd, x.helo, x.rip, x.lip)
    [] what = "dns"      -> DnsAttrs(x.rdns)

\* Which of the attributes o there are; the DNS is asked only if need be.
HasAny(what, o, x) ==
  \/ what \in {"from-has", "to-has"} /\ FormAttrs(IF what = "from-has" THEN x.from ELSE x.to) \cap o # {}
  \/ o \cap {"resolves", "baddom", "unknown"} # {} /\ HasAttrs(what, x) \cap o # {}
  \/ what \in {"helo-has", "dns"} /\ HasAttrs(what, x) \cap o # {}

RECURSIVE Eval(_, _, _)
RECURSIVE EvalAnd(_, _, _, _, _)
RECURSIVE EvalOr(_, _, _, _, _)
Eval(e, x, a) ==
  CASE e.op = "all" -> Val(TRUE, FALSE, a)
    [] e.op = "not" -> LET r == Eval(e.a, x, a) IN Val(~r.v, r.miss, r.a)
    [] e.op = "and" -> EvalAnd(e.q, 1, x, a, FALSE)
    [] e.op = "or"  -> EvalOr(<<e.a, e.b>>, 1, x, a, FALSE)
    [] e.op = "match" /\ e.what # "source" -> EvalMatch(e.what, e.arg, x, a)
    [] e.op = "match" /\ e.what = "source" ->
         EvalOr(<<MatchE("host", e.arg), MatchE("helo", e.arg), MatchE("srcfrom", e.arg)>>, 1, x, a, FALSE)
    [] e.op = "has" -> Val(HasAny(e.what, e.opts, x), FALSE, a)
    [] e.op = "tls" -> Val(x.tls = e.on, FALSE, a)
    [] e.op = "dnsbl" -> IF InDnsbl(x.zone, x.rip, e.dom) THEN Val(TRUE, FALSE, AddHit(a, e.dom)) ELSE Val(FALSE, FALSE, a)
    [] e.op = "dbl" -> IF \E n \in DblNames(e.srcs, x) : Listed(x.zone, n \o "." \o e.dom)
                       THEN Val(TRUE, FALSE, AddHit(a, e.dom)) ELSE Val(FALSE, FALSE, a)

\* All of q from i on; the first that fails ends it.
EvalAnd(q, i, x, a, miss) ==
  IF i > Len(q) THEN Val(TRUE, miss, a)
  ELSE LET r == Eval(q[i], x, a)
       IN IF r.v THEN EvalAnd(q, i + 1, x, r.a, miss \/ r.miss) ELSE Val(FALSE, miss \/ r.miss, r.a)

\* Any of q from i on; the first that holds ends it.
EvalOr(q, i, x, a, miss) ==
  IF i > Len(q) THEN Val(FALSE, miss, a)
  ELSE LET r == Eval(q[i], x, a)
       IN IF r.v THEN Val(TRUE, miss \/ r.miss, r.a) ELSE EvalOr(q, i + 1, x, r.a, miss \/ r.miss)

\* The clauses of a rule are alternatives, of which the first that holds counts:
\* [v, miss, a, withs].
RECURSIVE Clauses(_, _, _, _)
Clauses(q, i, x, a) ==
  IF i > Len(q) THEN [v |-> FALSE, miss |-> FALSE, a |-> a, withs |-> NoWiths]
  ELSE LET r == Eval(q[i].expr, x, a)
       IN IF r.miss THEN [v |-> FALSE, miss |-> TRUE, a |-> r.a, withs |-> NoWiths]
          ELSE IF r.v THEN [v |-> TRUE, miss |-> FALSE, a |-> r.a, withs |-> q[i].withs]
          ELSE Clauses(q, i + 1, x, r.a)

\* Once recipients have been accepted, a rule about recipients is checked
\* against each of them in turn.
RECURSIVE EachRcpt(_, _, _, _, _)
EachRcpt(r, rcpts, i, x, a) ==
  IF i > Len(rcpts) THEN [v |-> FALSE, miss |-> FALSE, a |-> a, withs |-> NoWiths]
  ELSE LET c == Clauses(r.clauses, 1, [x EXCEPT !.to = rcpts[i]], a)
       IN IF c.v \/ c.miss THEN c ELSE EachRcpt(r, rcpts, i + 1, x, c.a)

CheckRule(r, ph, x, rcpts, a) ==
  IF ph > PTo /\ r.req >= PTo THEN EachRcpt(r, rcpts, 1, x, a) ELSE Clauses(r.clauses, 1, x, a)

\* A rule is checked in its own phase if it names one, and otherwise in every
\* phase in which what it needs is known.
Eligible(r, ph) == r.req <= ph /\ (r.phase = PAny \/ r.phase = ph)

(* The verdict: the action of the first eligible rule that matches and is not  *)
(* a set-with ("none" if there is no such rule), with the options gathered.    *)
RECURSIVE Verdict(_, _, _, _, _, _, _)
Verdict(rules, i, ph, x, rcpts, a, props) ==
  IF i > Len(rules) THEN [act |-> "none", props |-> props, a |-> a, rule |-> 0]
  ELSE IF ~Eligible(rules[i], ph) THEN Verdict(rules, i + 1, ph, x, rcpts, a, props)
  ELSE LET c == CheckRule(rules[i], ph, x, rcpts, a)
       IN IF c.miss \/ ~c.v THEN Verdict(rules, i + 1, ph, x, rcpts, c.a, props)
          ELSE IF rules[i].act = "set-with"
               THEN Verdict(rules, i + 1, ph, x, rcpts, c.a, c.withs @@ props)
               ELSE [act |-> rules[i].act, props |-> c.withs @@ props, a |-> c.a, rule |-> i]

Refusal(act) == act \in {"reject", "stall"}
=============================================================================

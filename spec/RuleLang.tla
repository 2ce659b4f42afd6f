------------------------------ MODULE RuleLang ------------------------------
(* The control rule language: from the text of a rules file to its rules.      *)
(*                                                                             *)
(*   file    -> { rule EOL | include FILE EOL }                                *)
(*   rule    -> [phase] action clause { ';' [EOL] clause }                     *)
(*   clause  -> andl ['with' { option }+]                                      *)
(*   andl    -> { orl }+            orl -> term ['or' orl]                     *)
(*   term    -> 'not' term | '(' andl ')' | operator [arguments]               *)
(*                                                                             *)
(* Parse yields [ok, rules]; text that is not of this form is not ok, and the  *)
(* rules of a file that is not ok mean nothing.                                *)
EXTENDS IPAddr, TLC

----------------------------------------------------------------------------
(* Phases of a conversation; a rule without a phase has phase PAny.             *)
PAny == 0  PConnect == 1  PHelo == 2  PFrom == 3  PTo == 4  PData == 5  PMessage == 6

PhaseOf == ("@connect" :> PConnect) @@ ("@helo" :> PHelo) @@ ("@from" :> PFrom)
        @@ ("@to" :> PTo) @@ ("@data" :> PData) @@ ("@message" :> PMessage)

Actions == {"accept", "reject", "stall", "set-with"}

MatchOps == {"from", "to", "helo", "ehlo", "host", "source"}
HasOps   == {"from-has", "to-has", "helo-has", "dns"}

AddrOpts == {"unqualified", "route", "quoted", "noat", "garbage", "resolves", "baddom", "unknown"}
HeloOpts == {"helo", "ehlo", "none", "bogus", "nodots", "bareip", "properip", "myip", "remip", "otherip"}
DnsOpts  == {"nodns", "inconsistent", "noforward", "good", "exists"}
DblSrcs  == {"host", "ehlo", "from"}

\* Options that stand for several others.
BadOpts == {"noat", "quoted", "unqualified", "garbage"}
IpOpts  == {"bareip", "properip"}

\* The option words that an operator takes, with what each stands for.
OptMeaning(op) ==
  CASE op \in {"from-has", "to-has"} -> [o \in AddrOpts \cup {"bad"} |-> IF o = "bad" THEN BadOpts ELSE {o}]
    [] op = "helo-has" -> [o \in HeloOpts \cup {"ip"} |-> IF o = "ip" THEN IpOpts ELSE {o}]
    [] op = "dns"      -> [o \in DnsOpts |-> {o}]
    [] op = "dbl"      -> [o \in DblSrcs \cup {"helo", "any"} |->
                             IF o = "any" THEN DblSrcs ELSE IF o = "helo" THEN {"ehlo"} ELSE {o}]

WithArg == {"message", "note", "savedir", "tls-opt"}

Keywords ==
  {"include", "or", "not", "all", "ip", "dnsbl", "dbl", "tls", "with", "make-yakker",
   "bad", "on", "off", "any"}
  \cup DOMAIN PhaseOf \cup Actions \cup MatchOps \cup HasOps \cup AddrOpts
  \cup HeloOpts \cup DnsOpts \cup WithArg

\* The earliest phase in which what an operator looks at is known.
NeedsPhase(op) ==
  CASE op \in {"helo", "ehlo", "helo-has"}            -> PHelo
    [] op \in {"from", "from-has", "source", "tls"}   -> PFrom
    [] op \in {"to", "to-has"}                        -> PTo
    [] OTHER                                          -> PAny

----------------------------------------------------------------------------
(* Tokens: [t, v] with t one of kw, value, file, punct, EOL, EOF and ERR.      *)
Tok(t, v) == [t |-> t, v |-> v]
Special == {"(", ")", ",", ";", "\n", " ", "\t"}
Space   == {" ", "\t"}

IsFileName(w) == HasPrefix(w, "/") \/ HasPrefix(w, "./") \/ HasPrefix(w, "file:")

WordTok(w) ==
  CASE w \in Keywords -> Tok("kw", w)
    [] w = "file:"    -> Tok("ERR", "file: with no filename")
    [] w \notin Keywords /\ w # "file:" /\ IsFileName(w) -> Tok("file", w)
    [] OTHER          -> Tok("value", w)

\* The quoted value whose first character is at i: \" and \\ stand for " and \.
RECURSIVE Quoted(_, _, _)
Quoted(s, i, acc) ==
  LET j == FindIn(s, i, {"\"", "\\"})
  IN IF j > Len(s) THEN [ok |-> FALSE, v |-> "", next |-> j]
     ELSE IF At(s, j) = "\"" THEN [ok |-> TRUE, v |-> acc \o Sub(s, i, j - 1), next |-> j + 1]
     ELSE IF j < Len(s) /\ At(s, j + 1) \in {"\"", "\\"}
          THEN Quoted(s, j + 2, acc \o Sub(s, i, j - 1) \o At(s, j + 1))
          ELSE Quoted(s, j + 1, acc \o Sub(s, i, j))

\* start: nothing but white space has been seen on this line.
RECURSIVE Lex(_, _, _, _)
Lex(s, i0, start, acc) ==
  LET i == FindNotIn(s, i0, Space)
  IN IF i > Len(s) THEN Append(acc, Tok("EOF", ""))
     ELSE LET c == At(s, i) IN
       CASE c = "\n" -> Lex(s, i + 1, TRUE, IF start THEN acc ELSE Append(acc, Tok("EOL", "\n")))
         [] c = "#" /\ start -> Lex(s, FindIn(s, i, {"\n"}), TRUE, acc)
         [] c = "\\" /\ i < Len(s) /\ At(s, i + 1) = "\n" -> Lex(s, i + 2, start, acc)
         [] c = "\"" -> LET q == Quoted(s, i + 1, "")
                        IN IF q.ok THEN Lex(s, q.next, FALSE, Append(acc, Tok("value", q.v)))
                           ELSE Append(acc, Tok("ERR", "unterminated quoted value"))
         [] c = "," -> IF i = Len(s) \/ At(s, i + 1) \in {" ", "\t", "\n"}
                       THEN acc \o << Tok("punct", ","), Tok("ERR", "comma before white space") >>
                       ELSE Lex(s, i + 1, FALSE, Append(acc, Tok("punct", ",")))
         [] c \in {"(", ")", ";"} -> Lex(s, i + 1, FALSE, Append(acc, Tok("punct", c)))
         [] OTHER -> LET j == FindIn(s, i, Special)
                         t == WordTok(Sub(s, i, j - 1))
                     IN IF t.t = "ERR" THEN Append(acc, t) ELSE Lex(s, j, FALSE, Append(acc, t))

Tokens(s) == Lex(s, 1, TRUE, <<>>)
LexOk(T)  == T[Len(T)].t = "EOF"

----------------------------------------------------------------------------
(* Expressions.                                                                *)
NoExpr        == [op |-> "none"]
AllE          == [op |-> "all"]
NotE(a)       == [op |-> "not", a |-> a]
OrE(a, b)     == [op |-> "or", a |-> a, b |-> b]
AndE(q)       == IF Len(q) = 1 THEN q[1] ELSE [op |-> "and", q |-> q]
MatchE(w, p)  == [op |-> "match", what |-> w, arg |-> p]
HasE(w, o)    == [op |-> "has", what |-> w, opts |-> o]
TlsE(on)      == [op |-> "tls", on |-> on]
DnsblE(d)     == [op |-> "dnsbl", dom |-> d]
DblE(o, d)    == [op |-> "dbl", srcs |-> o, dom |-> d]

(* Parsing: T is the tokens of the text, i a position in it.  A result is       *)
(* [ok, e, i, req]: whether the text is well formed so far, the expression     *)
(* (NoExpr when there is none here), the position after it, and the phase that *)
(* it needs.                                                                   *)
Res(e, i, req) == [ok |-> TRUE, e |-> e, i |-> i, req |-> req]
Ill            == [ok |-> FALSE, e |-> NoExpr, i |-> 1, req |-> 0]

IsKw(T, i, k)    == T[i].t = "kw" /\ T[i].v = k
IsPunct(T, i, c) == T[i].t = "punct" /\ T[i].v = c
AtEol(T, i)      == T[i].t \in {"EOL", "EOF"}
AtEnd(T, i)      == AtEol(T, i) \/ IsPunct(T, i, ";")
Adv(T, i)        == IF T[i].t = "EOF" THEN i ELSE i + 1
\* Anything that is not the end of the line can be an argument.
IsArg(T, i)      == ~AtEol(T, i)

\* A comma separated list of options with the meanings m: [ok, e (the set), i].
RECURSIVE POpts(_, _, _, _)
POpts(T, i, m, acc) ==
  IF T[i].t # "kw" \/ T[i].v \notin DOMAIN m THEN Ill
  ELSE LET a == acc \cup m[T[i].v]
       IN IF IsPunct(T, i + 1, ",") THEN POpts(T, i + 2, m, a) ELSE Res(a, i + 1, 0)

PDomain(T, i) ==
  IF T[i].t # "value" \/ ~Has(T[i].v, ".") THEN Ill
  ELSE Res(IF Last(T[i].v) = "." THEN T[i].v ELSE T[i].v \o ".", i + 1, 0)

RECURSIVE PTerm(_, _)
RECURSIVE POrl(_, _)
RECURSIVE PAndl(_, _, _, _)

PTerm(T, i) ==
  IF IsPunct(T, i, "(") THEN
       LET r == PAndl(T, i + 1, <<>>, 0)
       IN IF ~r.ok \/ r.e = NoExpr \/ ~IsPunct(T, r.i, ")") THEN Ill ELSE Res(r.e, r.i + 1, r.req)
  ELSE IF T[i].t # "kw" THEN Res(NoExpr, i, 0)
  ELSE LET k == T[i].v IN
    CASE k = "not" ->
           LET r == PTerm(T, i + 1)
           IN IF ~r.ok \/ r.e = NoExpr THEN Ill ELSE Res(NotE(r.e), r.i, r.req)
      [] k = "all" -> Res(AllE, i + 1, PAny)
      [] k \in MatchOps ->
           IF IsArg(T, i + 1)
           THEN Res(MatchE(IF k = "ehlo" THEN "helo" ELSE k, T[i + 1].v), i + 2, NeedsPhase(k))
           ELSE Ill
      [] k = "ip" ->
           LET t == T[i + 1]
           IN IF t.t = "file" \/ (t.t = "value" /\ (IsIP(t.v) \/ IsCIDR(t.v)))
              THEN Res(MatchE("ip", t.v), i + 2, PAny) ELSE Ill
      [] k = "dnsbl" ->
           LET d == PDomain(T, i + 1)
           IN IF d.ok THEN Res(DnsblE(d.e), d.i, PAny) ELSE Ill
      [] k = "tls" ->
           IF IsKw(T, i + 1, "on") \/ IsKw(T, i + 1, "off")
           THEN Res(TlsE(T[i + 1].v = "on"), i + 2, NeedsPhase(k)) ELSE Ill
      [] k \in HasOps ->
           LET o == POpts(T, i + 1, OptMeaning(k), {})
           IN IF o.ok THEN Res(HasE(k, o.e), o.i, NeedsPhase(k)) ELSE Ill
      [] k = "dbl" ->
           LET o == POpts(T, i + 1, OptMeaning(k), {})
           IN IF ~o.ok THEN Ill
              ELSE LET d == PDomain(T, o.i)
                   IN IF ~d.ok THEN Ill
                      ELSE Res(DblE(o.e, d.e), d.i,
                               IF "from" \in o.e THEN PFrom ELSE IF "ehlo" \in o.e THEN PHelo ELSE PAny)
      [] OTHER -> Res(NoExpr, i, 0)

POrl(T, i) ==
  LET l == PTerm(T, i)
  IN IF ~l.ok \/ ~IsKw(T, l.i, "or") THEN l
     ELSE IF l.e = NoExpr THEN Ill
     ELSE LET r == POrl(T, l.i + 1)
          IN IF ~r.ok \/ r.e = NoExpr THEN Ill
             ELSE Res(OrE(l.e, r.e), r.i, Max(l.req, r.req))

PAndl(T, i, acc, req) ==
  LET r == POrl(T, i)
  IN IF ~r.ok THEN Ill
     ELSE IF r.e # NoExpr THEN PAndl(T, r.i, Append(acc, r.e), Max(req, r.req))
     ELSE Res(IF acc = <<>> THEN NoExpr ELSE AndE(acc), r.i, req)

\* with options: the result's e is a function from option names to values.
NoWiths == [k \in {} |-> ""]
RECURSIVE PWiths(_, _, _)
PWiths(T, i, w) ==
  IF T[i].t # "kw" \/ T[i].v \notin (WithArg \cup {"make-yakker"}) THEN Res(w, i, 0)
  ELSE LET k == T[i].v IN
       IF k \in DOMAIN w THEN Ill
       ELSE IF k = "make-yakker" THEN PWiths(T, i + 1, (k :> "") @@ w)
       ELSE IF ~IsArg(T, i + 1) THEN Ill
       ELSE LET v == T[i + 1].v
            IN IF (k = "note" /\ Has(v, "\n")) \/ (k = "tls-opt" /\ v \notin {"off", "no-client"}) THEN Ill
               ELSE PWiths(T, i + 2, (k :> v) @@ w)

\* The clauses of a rule: e is the sequence of [expr, withs].
RECURSIVE PClauses(_, _, _, _, _)
PClauses(T, i, act, acc, req) ==
  LET x == PAndl(T, i, <<>>, 0)
  IN IF ~x.ok \/ x.e = NoExpr THEN Ill
     ELSE LET w == IF IsKw(T, x.i, "with") THEN PWiths(T, x.i + 1, NoWiths) ELSE Res(NoWiths, x.i, 0)
          IN IF \/ ~w.ok \/ ~AtEnd(T, w.i)
                \/ (w.e = NoWiths /\ (IsKw(T, x.i, "with") \/ act = "set-with"))
             THEN Ill
             ELSE LET a  == Append(acc, [expr |-> x.e, withs |-> w.e])
                      rq == Max(req, x.req)
                  IN IF AtEol(T, w.i) THEN Res(a, w.i, rq)
                     ELSE PClauses(T, IF T[w.i + 1].t = "EOL" THEN w.i + 2 ELSE w.i + 1, act, a, rq)

(* A rule: [phase, act, req, clauses].                                         *)
PRule(T, i) ==
  LET ph == IF T[i].t = "kw" /\ T[i].v \in DOMAIN PhaseOf THEN PhaseOf[T[i].v] ELSE PAny
      j  == IF ph = PAny THEN i ELSE i + 1
  IN IF T[j].t # "kw" \/ T[j].v \notin Actions THEN Ill
     ELSE LET c == PClauses(T, j + 1, T[j].v, <<>>, PAny)
          IN IF ~c.ok \/ (ph # PAny /\ ph < c.req) THEN Ill
             ELSE Res([phase |-> ph, act |-> T[j].v, req |-> c.req, clauses |-> c.e], Adv(T, c.i), 0)

----------------------------------------------------------------------------
(* Files.  fs maps the names of existing files to their contents, relative to  *)
(* the directory in which the server runs, which absolute names call /DIR.     *)
FileKey(n)     == IF HasPrefix(n, "./") THEN From(n, 3)
                  ELSE IF HasPrefix(n, "/DIR/") THEN From(n, 6) ELSE n
FileExists(fs, n) == FileKey(n) \in DOMAIN fs
FileText(fs, n)   == fs[FileKey(n)]

BadParse == [ok |-> FALSE, rules |-> <<>>]
MaxInclude == 20        \* nesting beyond this (a file that includes itself) is an error

RECURSIVE PFile(_, _, _, _, _)
RECURSIVE LoadRules(_, _, _)
PFile(T, i, acc, fs, depth) ==
  IF T[i].t = "EOF" THEN [ok |-> TRUE, rules |-> acc]
  ELSE IF IsKw(T, i, "include")
       THEN IF ~IsArg(T, i + 1) \/ ~AtEol(T, i + 2) THEN BadParse
            ELSE LET r == LoadRules(fs, T[i + 1].v, depth + 1)
                 IN IF r.ok THEN PFile(T, Adv(T, i + 2), acc \o r.rules, fs, depth) ELSE BadParse
       ELSE LET r == PRule(T, i)
            IN IF r.ok THEN PFile(T, r.i, Append(acc, r.e), fs, depth) ELSE BadParse

ParseIn(text, fs, depth) ==
  LET T == Tokens(text) IN IF LexOk(T) THEN PFile(T, 1, <<>>, fs, depth) ELSE BadParse

LoadRules(fs, name, depth) ==
  IF depth > MaxInclude \/ ~FileExists(fs, name) THEN BadParse
  ELSE ParseIn(FileText(fs, name), fs, depth)

NoFiles == [n \in {} |-> ""]
Parse(text) == ParseIn(text, NoFiles, 0)

\* The rules of several files, in order.
RECURSIVE LoadAll(_, _, _)
LoadAll(fs, names, acc) ==
  IF names = <<>> THEN [ok |-> TRUE, rules |-> acc]
  ELSE LET r == IF Head(names) = "" THEN [ok |-> TRUE, rules |-> <<>>] ELSE LoadRules(fs, Head(names), 0)
       IN IF r.ok THEN LoadAll(fs, Tail(names), acc \o r.rules) ELSE BadParse
=============================================================================

-------------------------------- MODULE McLang --------------------------------
(* The rule language (C02).  The language is generated here, from its grammar,  *)
(* with the meaning of every text; every sequence of up to Tokens tokens is     *)
(* then a rules file, which has to be refused if it was not generated and has   *)
(* to mean what was generated if it was.                                        *)
EXTENDS Mc

CONSTANTS Alphabet, Tokens1, Prefix

\* Senders, and for each operator which of them it holds for.
Senders == << "p@x.test", "q@x.test", "p@y.test" >>
OpHolds(t) ==
  CASE t = "from p@" -> <<TRUE, FALSE, TRUE>> [] t = "from @x.test" -> <<TRUE, TRUE, FALSE>> [] t = "all" -> <<TRUE, TRUE, TRUE>>
    [] t = "from-has noat" -> <<FALSE, FALSE, FALSE>>
Ops == Alphabet \cap {"from p@", "from @x.test", "all", "from-has noat"}

\* The grammar: sets of [s, v] by the number of tokens; s is the tokens, v the
\* senders that it holds for.
G(s, v) == [s |-> s, v |-> v]
Neg(v) == [i \in DOMAIN v |-> ~v[i]]
Conj(v, u) == [i \in DOMAIN v |-> v[i] /\ u[i]]
Disj(v, u) == [i \in DOMAIN v |-> v[i] \/ u[i]]
Has1(t) == t \in Alphabet
RECURSIVE Term(_)
RECURSIVE Orl(_)
RECURSIVE Andl(_)
Term(n) ==
  IF n = 0 THEN {}
  ELSE (IF n = 1 THEN {G(<<o>>, OpHolds(o)) : o \in Ops} ELSE {})
       \cup (IF Has1("not") THEN {G(<<"not">> \o e.s, Neg(e.v)) : e \in Term(n - 1)} ELSE {})
       \cup (IF n > 2 /\ Has1("(") THEN {G(<<"(">> \o e.s \o <<")">>, e.v) : e \in Andl(n - 2)} ELSE {})
Orl(n) == Term(n) \cup (IF Has1("or") THEN UNION {{G(a.s \o <<"or">> \o b.s, Disj(a.v, b.v)) : a \in Term(k), b \in Orl(n - 1 - k)} : k \in 1..(n - 2)} ELSE {})
Andl(n) == Orl(n) \cup UNION {{G(a.s \o b.s, Conj(a.v, b.v)) : a \in Orl(k), b \in Andl(n - k)} : k \in 1..(n - 1)}

\* with and its options, each at most once.
WithOpts == Alphabet \cap {"note n", "tls-opt off", "make-yakker"}
RECURSIVE Opts(_, _)
Opts(n, left) == IF n = 0 THEN {<<>>} ELSE UNION {{<<o>> \o q : q \in Opts(n - 1, left \ {o})} : o \in left}
Clause(n) == Andl(n) \cup (IF Has1("with") THEN UNION {{G(a.s \o <<"with">> \o q, a.v) : a \in Andl(k), q \in Opts(n - 1 - k, WithOpts)} : k \in 1..(n - 2)} ELSE {})
\* Clauses are separated by semicolons, after which the line can end.
RECURSIVE ClauseL(_)
ClauseL(n) ==
  Clause(n) \cup (IF Has1(";") THEN UNION {{G(a.s \o <<";">> \o b.s, Disj(a.v, b.v)) : a \in Clause(k), b \in ClauseL(n - 1 - k)} : k \in 1..(n - 2)} ELSE {})
            \cup (IF {";", "EOL"} \subseteq Alphabet
                  THEN UNION {{G(a.s \o <<";", "EOL">> \o b.s, Disj(a.v, b.v)) : a \in Clause(k), b \in ClauseL(n - 2 - k)} : k \in 1..(n - 3)} ELSE {})
\* Empty lines at the end do no harm.
RECURSIVE Rule(_)
Rule(n) == IF n < 1 THEN {} ELSE ClauseL(n) \cup (IF Has1("EOL") THEN {G(e.s \o <<"EOL">>, e.v) : e \in Rule(n - 1)} ELSE {})

RECURSIVE SeqsOf(_, _)
SeqsOf(A, n) == IF n = 0 THEN {<<>>} ELSE {q \o <<t>> : q \in SeqsOf(A, n - 1), t \in A}
Written(t) == IF t = "EOL" THEN "\n" ELSE t
TextOf(s) == "@from reject " \o Join([i \in DOMAIN s |-> Written(s[i])], " ") \o "\n"
Lang == UNION {Rule(n) : n \in 1..Tokens1}
\* What each text of the language means.
Meanings == TLCEval({[t |-> TextOf(e.s), v |-> e.v] : e \in Lang})

\* All texts, in bundles of those that begin alike.
LWorlds == AsSeq({RulesWorld("# " \o t \o "\n") : t \in Alphabet \ {"EOL"}})
Ask(t) == << WriteFile("rules", t), Conn("a", "198.51.100.7"), Say("a", "EHLO", "one.test") >>
          \o Flat([i \in DOMAIN Senders |-> << Say("a", "MAIL", Senders[i]), Say("a", "RSET", "") >>], 1) \o << Gone("a") >>
Bundle(p) == LET q == AsSeq(UNION {{p \o e : e \in SeqsOf(Alphabet, n)} : n \in 0..(Tokens1 - Len(p))})
             IN Flat([i \in DOMAIN q |-> Ask(TextOf(q[i]))], 1)
Short == AsSeq(UNION {SeqsOf(Alphabet, n) : n \in 0..(Prefix - 1)})
LMoves == LET q == AsSeq(SeqsOf(Alphabet, Prefix))
          IN << Flat([i \in DOMAIN Short |-> Ask(TextOf(Short[i]))], 1) >> \o [i \in DOMAIN q |-> Bundle(q[i])]

ASSUME TLCSet(2, Meanings)
M == TLCGet(2)
ASSUME Cardinality({e.t : e \in Meanings}) = Cardinality(Meanings)       \* no text has two meanings
\* The text now, and which texts this world is for.
LGhost0(wo) == [t |-> "", on |-> TextOf(<<Sub(wo.files[1].t, 3, Len(wo.files[1].t) - 1)>>)]
LAllowed(s, gh, i) == HasPrefix(Table[i][1].text, Upto(gh.on, Len(gh.on) - 1)) \/ (i = 1 /\ w = 1) \/ (i # 1 /\ w = 2 /\ HasPrefix(Table[i][1].text, "@from reject \n"))
LGhost(gh, ev, r, wo) == IF ev.ev = "file" THEN [gh EXCEPT !.t = ev.text] ELSE gh
Position(v) == CHOOSE i \in DOMAIN Senders : Senders[i] = v
Vectors == [DOMAIN Senders -> BOOLEAN]
LClaims(gh, ev, r, wo) ==
  LET v == {u \in Vectors : [t |-> gh.t, v |-> u] \in M} IN
  CASE ev.ev = "cmd" /\ ev.verb = "EHLO" -> If(r.out.cls # (IF v # {} THEN "2" ELSE "4"), "C02 refused exactly if not of the language: " \o gh.t)
    [] ev.ev = "cmd" /\ ev.verb = "MAIL" /\ v # {} ->
         If((r.out.cls = "5") # (CHOOSE u \in v : TRUE)[Position(ev.arg)], "C02 means what it says: " \o gh.t)
    [] OTHER -> {}
LCore(s) == s.up
=============================================================================

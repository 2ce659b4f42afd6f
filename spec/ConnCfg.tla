------------------------------- MODULE ConnCfg -------------------------------
(* Per-connection parameters: the -conncfg file.                               *)
EXTENDS Rules

\* Certificate material that exists and belongs together: certN.pem, keyN.pem.
GoodPairs == {<<"cert1.pem", "key1.pem">>, <<"cert2.pem", "key2.pem">>, <<"cert3.pem", "key3.pem">>}

LoadCerts(c, k) ==      \* [ok, certs]
  LET cs == Split(c, ",")  ks == Split(k, ",")
  IN IF Len(cs) = Len(ks) /\ \A i \in DOMAIN cs : <<cs[i], ks[i]>> \in GoodPairs
     THEN [ok |-> TRUE, certs |-> cs] ELSE [ok |-> FALSE, certs |-> <<>>]

NoEntry == [ok |-> FALSE, local |-> "", name |-> "", certs |-> <<>>]

\* The value of key k in the fields f (the last one counts), "" if there is none.
RECURSIVE KeyVal(_, _, _)
KeyVal(f, i, k) ==
  IF i < 2 THEN ""
  ELSE IF HasPrefix(f[i], k \o "=") THEN From(f[i], Len(k) + 2) ELSE KeyVal(f, i - 1, k)

ConnLine(l) ==
  LET f == Fields(l)
      keys == {Upto(f[i], Index(f[i], "=") - 1) : i \in {j \in 2..Len(f) : Has(f[j], "=")}}
      c == KeyVal(f, Len(f), "cert")
      k == KeyVal(f, Len(f), "key")
      e == [ok |-> TRUE, local |-> f[1], name |-> KeyVal(f, Len(f), "hostname"), certs |-> <<>>]
  IN IF \/ Len(f) > 4
        \/ \E i \in 2..Len(f) : ~Has(f[i], "=")
        \/ ~(keys \subseteq {"hostname", "cert", "key"})
        \/ (c = "") # (k = "")
     THEN NoEntry
     ELSE IF c = "" THEN e
     ELSE IF LoadCerts(c, k).ok THEN [e EXCEPT !.certs = LoadCerts(c, k).certs] ELSE NoEntry

\* [ok, entries]
LoadConnCfg(fs, n) ==
  IF ~FileExists(fs, n) THEN [ok |-> FALSE, entries |-> <<>>]
  ELSE LET q == Lines(FileText(fs, n))
           t == [i \in DOMAIN q |-> Trim(q[i])]
           Real(l) == l # "" /\ ~HasPrefix(l, "#")
           r == SelectSeq(t, Real)
           e == [i \in DOMAIN r |-> ConnLine(r[i])]
       IN IF \A i \in DOMAIN e : e[i].ok THEN [ok |-> TRUE, entries |-> e]
          ELSE [ok |-> FALSE, entries |-> <<>>]

LocalMatches(local, lip, laddr) == local = "*" \/ local = laddr \/ IPMatches(lip, local)

\* The index of the first entry for this local address, 0 if there is none.
RECURSIVE FindConn(_, _, _, _)
FindConn(e, i, lip, laddr) ==
  IF i > Len(e) THEN 0
  ELSE IF LocalMatches(e[i].local, lip, laddr) THEN i ELSE FindConn(e, i + 1, lip, laddr)
=============================================================================

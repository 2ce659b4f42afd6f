#!/usr/bin/env python3
"""Rewrites the table of properties in DESIGN.md (run by hand, after the quick checks)."""
import json,glob,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
how={
'C01':("Rules!Verdict, Sink!Decide: first rule, in file order, whose phase admits the command and whose condition holds", "rules texts over all phases x conditions x null/ordinary/odd addresses; McPhase: every written phase x every condition's own phase x every command; McSession: conversations of 8 (9) moves under 11 rule sets"),
'C02':("RuleLang: lexer+parser as a total function of the text (rules, or refused); phases computed from conditions; includes", "about 110 fixed texts (every grammar error, quoting, escapes, continuation, include shapes) plus texts derived from the grammar and damaged; McLang: every small expression over or/not/all/parens, every set of with-options, against an independent reading"),
'C03':("the deferred refusal of MAIL FROM:<> in Sink!Decide (def)", "null senders with refusals of every kind and options, several recipients, RSET, new MAIL, EHLO, TLS in between"),
'C04':("gathering of set-with and deciding options (Verdict, Decide), their effects: message, note, savedir, tls-opt, make-yakker", "rules with overlapping options, phases, several transactions; text, notes in the SMTP log, place of the saved file, TLS offers"),
'C05':("RuleLang!LoadAll, Sink!Connect: rules are those of all files at the connection or StallAll", "rules files broken/repaired/removed/included between and during sessions; McReload"),
'C06':("sess.rules/sess.lists frozen at connection / at first use", "files changed in the middle of sessions, interleaved sessions; McReload"),
'C07':("Step is total: every event has an answer; st.up never becomes FALSE except by a kill", "odd clients, hostile DNS data, every kind of file content, binary lines, pipelines, simultaneous aborts; a server that dies or leaves a client unanswered is the divergence 'dead'; McOdd: the other client and whoever comes next are served as if the odd one had never been"),
'C08':("Patterns!AddrMatches", "all pairs of patterns and addresses over short alphabets + pools of odd ones; McPat_addr compares with an independent statement of doc.go"),
'C09':("Patterns!HostMatches for helo, host, source", "as C08 with names, verified and unverified reverse names; McPat_host"),
'C10':("IPAddr: addresses as numbers, netblocks", "addresses at both ends of netblocks of every prefix length class, IPv4, IPv6, zones, ranges given as lists; McPat_ip"),
'C11':("Rules!AddrAttrs", "address forms from an alphabet of separators; McPat_form"),
'C12':("Rules!HeloAttrs", "HELO name forms, bracketed and not, own/remote addresses; McPat_helo"),
'C13':("Dns!Rdns: PTR names that resolve back, not at all, to others", "zones with every combination of PTR/A/AAAA; temporary and permanent failures; McDns_rdns"),
'C14':("Dns!DomainStatus", "zones with MX/A combinations incl. '.', localhost, unroutable addresses, several MXes; McDns_mx"),
'C15':("Dns!DnsblName, InDnsbl, Rules!DblNames", "blocklist zones with hits at, above and below the right name; every source; McDns_dbl"),
'C16':("Rules!ListOf: lines, comments, trimming, absent and empty files", "files of every line shape, absence and reappearance; McReload"),
'C17':("Sink!Msg: 250 only if the record was created, written, synced, closed and linked; else 4xx and nothing left", "every file operation of the save fails (each errno, after n bytes) or the directory goes away; sync tracked by the overlay; McSave"),
'C18':("Sink!Envelope: header lines, body bytes", "bodies with dots, bare CR/LF, 8-bit, very long lines; many recipients; TLS; repeated transactions"),
'C19':("Sink!SaveKey, Msg: names as hash of the recorded bytes, message or envelope+message; no overwriting; reported id", "all -save-hash modes, resent messages, planted files (same/other content), collisions by planting; McSave"),
'C20':("Sink!LogLine", "log files, several messages, failures to save, log line compared byte by byte except the time, which must be the clock's"),
'C21':("Sink!EndSess counting, Expire, -dncount/-dndur", "histories of do-nothing and other sessions of several clients over time; McDn"),
'C22':("stalled sessions; make-yakker", "as C21 with rules; McDn"),
'C23':("TLS offered: certificates, tls-opt, failures in the last 72 h (3 days), client certificates asked", "failed and good handshakes of several clients over time, rules with tls-opt, SNI, client certificates, protocol versions; McTls"),
'C24':("ConnCfg: first entry; greeting name, certificates, fallback", "-conncfg files of every shape, several local addresses; McConn"),
'C25':("Step for interleavings: every client's replies, files and log lines are those of its own session", "2-4 clients truly in parallel against the real server (with yields injected at file and log operations), each validated against the specification with commuting shared state; McPar: all interleavings of two sessions' steps, replayed in that order"),
'C26':("smtplog lines of Sink!Step, Trace!SlogOk: lines of every session: connection line, commands, replies, remarks", "logs of sequential and parallel sessions read back, by session id, in order"),
'C27':("Sink!Published: all counters, tables, blocklist hits, connections by local address, last times", "sessions of every kind; the page is read at quiet points and compared key by key; McCount"),
'C28':("Sink!BaseText: the rules the options stand for", "combinations of options with rules files that would decide otherwise; McOpts: options x one conversation"),
'C29':("Sink!CanStart", "command lines with every option, missing/unreadable/unwritable files and directories, certificates that do not fit; McStart"),
'C30':("rcpts in conditions after RCPT TO", "several accepted and refused recipients, rules at DATA and message; McSession"),
'C31':("kill at any file operation, then restart: every 250'd message there whole, nothing else under a record's name", "server killed before/after every file operation of the save, restarted, message resent; planted leftovers; McSave"),
}
import re
src=''.join(open(f).read() for f in sorted(glob.glob(V+'/harness/props_*.go')))
asp=dict(re.findall(r'props\["(C\d\d)"\] = &prop\{aspects: "([^"]*)"',src))
bugs={}
for d in sorted(glob.glob(V+'/seeded/*/meta.json')):
    m=json.load(open(d)); bugs.setdefault(m['property'],[]).append(d.split('/')[-2])
rows=[]
for i in sorted(how):
    e=json.load(open(V+'/evidence/%s.json'%i)); c=e['coverage']
    ms='; '.join('%s %d st'%(m['model'],m['distinct_states']) for m in c.get('models') or [])
    rows.append('| %s | %s | %s | %s | %s | %d sc, %d ev%s |'%(i,how[i][0],how[i][1],asp[i].replace(',',', '),', '.join(bugs.get(i,[])),c['traces_validated_against_impl'],c['events_validated'],'; '+ms if ms else ''))
p = V + '/DESIGN.md'
t = open(p).read()
a, b = t.index('<!-- table -->'), t.index('<!-- end of table -->')
head = '<!-- table -->\n| id | specified by | explored | judged by (aspects) | planted bugs, each caught by this check | quick run |\n| --- | --- | --- | --- | --- | --- |\n'
open(p, 'w').write(t[:a] + head + '\n'.join(rows) + '\n' + t[b:])

From 419c084c737384698f0c0e6cc339c735bebc2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:20 +0000
Subject: [PATCH 01/13] fix: do not accept messages that could not be written
 completely

The error from writing the message file was overwritten by the (usually
nil) error from closing it, so a message that had not been saved was
accepted. The partial file was left behind under the final name, so that
a resent copy of the message was taken for an already saved duplicate.
---
 sinksmtp.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index c5a7c29..4e2fac9 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -668,9 +668,18 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 			warnf("error writing message file: %s\n", err)
 		}
 		_ = fp.Sync()
-		err = fp.Close()
+		cerr := fp.Close()
+		if cerr != nil {
+			warnf("error closing message file: %s\n", cerr)
+			if err == nil {
+				err = cerr
+			}
+		}
+		// Don't leave an incomplete file behind; besides not being
+		// the message, it would make us believe that the message has
+		// already been saved when the client resends it.
 		if err != nil {
-			warnf("error closing message file: %s\n", err)
+			_ = os.Remove(tgt)
 		}
 	} else if !os.IsExist(err) {
 		warnf("error writing message file: %v\n", err)
-- 
2.43.0


From 8be8de75c5a7a00f9c91767f374089bdcbd843a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:21 +0000
Subject: [PATCH 02/13] fix: do not share rules between connections through
 append()

accumRules() appended each connection's rules to the global base rules.
If that slice had spare capacity, all connections wrote their rules to
the same backing array and a new connection replaced the rules of the
ones that were already running.
---
 sinksmtp.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index 4e2fac9..e8a98a5 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -155,7 +155,9 @@ func accumRules(baserules []*Rule, fname string) ([]*Rule, error) {
 		return baserules, nil
 	}
 	rules, err := loadRules(fname)
-	return append(baserules, rules...), err
+	// baserules is shared between all connections, so we must never
+	// append into its backing array.
+	return append(baserules[:len(baserules):len(baserules)], rules...), err
 }
 
 // Accumulate the set of rules for this connection from our base rules
-- 
2.43.0


From afc79ce117d2d0b46eb633b236008bab51673d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:23 +0000
Subject: [PATCH 03/13] fix: do not crash on a rule note without an SMTP log

There is no logger without -smtplog, and none for stalled do-nothing
clients.
---
 sinksmtp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index e8a98a5..c60df4e 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -798,7 +798,7 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
 	if note := c.withprops["note"]; note != "" {
-		c.trans.log.Write([]byte(fmt.Sprintf("! rule note: %s\n", note)))
+		writeLog(c.trans.log, "! rule note: %s\n", note)
 	}
 	// Disable TLS if desired, or just disable asking for client certs.
 	switch c.withprops["tls-opt"] {
-- 
2.43.0


From c296f4ac7149777f3d27232e078078b42f164bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:24 +0000
Subject: [PATCH 04/13] fix: do not crash on empty host names and empty
 patterns

A bare EHLO/HELO with a helo or source rule, or a rule with an empty
quoted pattern, made the server panic.
---
 rules.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rules.go b/rules.go
index e3f9f72..2d786e9 100644
--- a/rules.go
+++ b/rules.go
@@ -132,7 +132,7 @@ func newContext(trans *smtpTransaction, rules []*Rule) *Context {
 func (c *Context) getMatchList(a string) []string {
 	var fname string
 	switch {
-	case a[0] == '/' || strings.HasPrefix(a, "./"):
+	case strings.HasPrefix(a, "/") || strings.HasPrefix(a, "./"):
 		fname = a
 	case strings.HasPrefix(a, "file:"):
 		fname = a[len("file:"):]
@@ -349,6 +349,9 @@ func matchAddress(addr string, pat string) bool {
 // This stripping is suppressed if the pattern ends in a '.' itself.
 func matchHost(host string, pat string) bool {
 	host = strings.ToLower(host)
+	if host == "" || pat == "" {
+		return false
+	}
 	if host[len(host)-1] == '.' && pat[len(pat)-1] != '.' {
 		host = host[:len(host)-1]
 	}
-- 
2.43.0


From d7f36b6b225cfcd880194e2a330980c67be4ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:26 +0000
Subject: [PATCH 05/13] fix: do not ignore a last line without a newline

Pattern files and -conncfg files lost their last line if it was not
terminated with a newline.
---
 conncfg.go  |  5 +++--
 sinksmtp.go | 16 +++++++---------
 2 files changed, 10 insertions(+), 11 deletions(-)

diff --git a/conncfg.go b/conncfg.go
index 84bbecb..debe32c 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -60,10 +60,11 @@ func readConnFile(rdr *bufio.Reader) (*destMap, error) {
 		var host, cert, key string
 
 		line, err := rdr.ReadString('\n')
-		if err == io.EOF {
+		if err == io.EOF && line == "" {
 			break
 		}
-		if err != nil {
+		// At EOF we may still have a last, unterminated line.
+		if err != nil && err != io.EOF {
 			return nil, err
 		}
 		lnum++
diff --git a/sinksmtp.go b/sinksmtp.go
index c60df4e..dc9d173 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -89,19 +89,17 @@ func readList(rdr *bufio.Reader) ([]string, error) {
 	var a []string
 	for {
 		line, err := rdr.ReadString('\n')
-		if err != nil {
-			if err == io.EOF {
-				return a, nil
-			}
+		if err != nil && err != io.EOF {
 			return a, err
 		}
+		// At EOF line may still have a last, unterminated line.
 		line = strings.TrimSpace(line)
-		if line == "" || line[0] == '#' {
-			continue
+		if line != "" && line[0] != '#' {
+			a = append(a, strings.ToLower(line))
+		}
+		if err == io.EOF {
+			return a, nil
 		}
-
-		line = strings.ToLower(line)
-		a = append(a, line)
 	}
 	// Cannot be reached; for loop has no breaks.
 }
-- 
2.43.0


From 0ff441a21cbd78914b6d9b30a9235b14c82819b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:29 +0000
Subject: [PATCH 06/13] fix: make make-yakker stick for the session

The option was only acted on if the very last rules decision of the
session had it, so a client avoided it simply by sending another command,
although it is documented to apply regardless of what additional progress
is made in the session.
---
 rules.go    | 3 +++
 sinksmtp.go | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/rules.go b/rules.go
index 2d786e9..2b6208d 100644
--- a/rules.go
+++ b/rules.go
@@ -39,6 +39,9 @@ type Context struct {
 	// accumulated properties set through matching
 	withprops map[string]string
 
+	// set once any rule has had make-yakker in this session
+	forceyakker bool
+
 	// if we defer an action due to handling MAIL FROM:<>, this is
 	// the deferred information
 	defresult   Action
diff --git a/sinksmtp.go b/sinksmtp.go
index dc9d173..98f48e5 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -792,6 +792,10 @@ func decider(ph Phase, evt smtpd.EventInfo, c *Context, convo *smtpd.Conn, id st
 	if sd := c.withprops["savedir"]; sd != "" {
 		c.trans.savedir = sd
 	}
+	// So does make-yakker; the end of the session is what acts on it.
+	if _, ok := c.withprops["make-yakker"]; ok {
+		c.forceyakker = true
+	}
 	// rule notes are deliberately logged every time they hit.
 	// this may be a mistake given EHLO retrying as HELO, but
 	// I'll see.
@@ -1196,9 +1200,8 @@ func process(cid int, nc net.Conn, certs []tls.Certificate, logf io.Writer, smtp
 	// Once people are yakkers we don't count their continued failure
 	// to do anything against them.
 	// And we have to have good rules to start with because duh.
-	_, forceyakker := c.withprops["make-yakker"]
 	switch {
-	case forceyakker:
+	case c.forceyakker:
 		// It's a lot simpler if forced yakking takes priority
 		// over everything else.
 		cnt = yakkers.Set(trans.rip, yakTimeout, yakCount)
-- 
2.43.0


From b19b843a1c0956607df4a3dda3304865983dc331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:31 +0000
Subject: [PATCH 07/13] fix: make address attribute 'bad' what it is documented
 to be

bad is documented to be 'noat,quoted,unqualified,garbage', everything
except route, but it included route and left out quoted.
---
 rnodes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rnodes.go b/rnodes.go
index bd0c865..3d893f7 100644
--- a/rnodes.go
+++ b/rnodes.go
@@ -97,7 +97,7 @@ const (
 	oFrom
 
 	// merged bitmaps
-	oBad = oUnqualified | oRoute | oNoat | oGarbage
+	oBad = oUnqualified | oQuoted | oNoat | oGarbage
 	oIp  = oBareip | oProperip
 	oAny = oHost | oEhlo | oFrom
 )
-- 
2.43.0


From 483ee7a57f1818ad9040abae86fa6a42b5247d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:32 +0000
Subject: [PATCH 08/13] fix: never match addresses that start or end with an
 '@'

Such addresses are documented not to match anything, but 'MAIL
FROM:<@domain>' or '<local@>' matched the identical pattern, which is
meant to match all addresses of the domain or with the local part. An
empty address also matched an empty pattern.
---
 rules.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/rules.go b/rules.go
index 2b6208d..9182f32 100644
--- a/rules.go
+++ b/rules.go
@@ -312,13 +312,16 @@ func (s *sDotIter) Next() string {
 // the @ at the end.
 func matchAddress(addr string, pat string) bool {
 	addr = strings.ToLower(addr)
-	if (addr == "" && pat == "<>") || addr == pat {
-		return true
+	if addr == "" {
+		return pat == "<>"
 	}
 	idx := strings.IndexByte(addr, '@')
-	if addr == "" || idx == 0 || idx == len(addr)-1 {
+	if idx == 0 || idx == len(addr)-1 {
 		return false
 	}
+	if addr == pat {
+		return true
+	}
 	// local name only technically matches 'local@' patterns.
 	if idx == -1 {
 		return (addr + "@") == pat
-- 
2.43.0


From 9977b460676ae22c040e550275632ef2d1042a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:34 +0000
Subject: [PATCH 09/13] fix: do not match unparseable IP addresses with
 everything unparseable

A nil net.IP is .Equal() to another one, so a client or local address
with an IPv6 zone matched every pattern that is not a plain IP address,
for example any CIDR netblock.
---
 conncfg.go | 2 +-
 rules.go   | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/conncfg.go b/conncfg.go
index debe32c..001450d 100644
--- a/conncfg.go
+++ b/conncfg.go
@@ -37,7 +37,7 @@ func (d *destMap) find(nc net.Conn) *perDest {
 		if de.local == "*" || de.local == las {
 			return de
 		}
-		if ip.Equal(net.ParseIP(de.local)) {
+		if ip != nil && ip.Equal(net.ParseIP(de.local)) {
 			return de
 		}
 		_, ipn, err := net.ParseCIDR(de.local)
diff --git a/rules.go b/rules.go
index 9182f32..dafc5e3 100644
--- a/rules.go
+++ b/rules.go
@@ -385,6 +385,11 @@ func matchIp(rip string, cidr string) bool {
 	// of canonicalizing all of that for us.
 	ip := net.ParseIP(rip)
 	ip2 := net.ParseIP(cidr)
+	if ip == nil {
+		// IPv6 addresses with zones can't be parsed. A nil IP is
+		// equal to every other thing that does not parse.
+		return false
+	}
 	if ip.Equal(ip2) {
 		return true
 	}
-- 
2.43.0


From f21d347d41e83daf9c7847792444eae4d415aa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:35 +0000
Subject: [PATCH 10/13] fix: refuse rules files that include themselves

Such a file made the server recurse until it ran out of file descriptors
or memory. It is now an error in the rules file like any other.
---
 rparse.go   | 17 +++++++++++++++--
 sinksmtp.go |  6 +++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/rparse.go b/rparse.go
index 17c626c..d9735c4 100644
--- a/rparse.go
+++ b/rparse.go
@@ -54,8 +54,13 @@ type parser struct {
 	l       *lexer
 	curtok  item
 	currule *Rule
+	depth   int // how deep we are in includes
 }
 
+// maxInclude is the maximum depth of nested includes. It is here to stop
+// files that include themselves, directly or indirectly.
+const maxInclude = 20
+
 // consume the current token and advance to the next one
 func (p *parser) consume() {
 	// EOF is sticky because we pretend that it is an end of line
@@ -658,7 +663,10 @@ func (p *parser) pInclude() ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rules, err := loadRules(fname)
+	if p.depth >= maxInclude {
+		return nil, p.lineError(fmt.Sprintf("includes nested too deeply at '%s'", fname))
+	}
+	rules, err := loadRulesAt(fname, p.depth+1)
 	if err != nil {
 		return rules, p.lineError(fmt.Sprintf("while including '%s': %s", fname, err))
 	}
@@ -697,8 +705,13 @@ func (p *parser) pFile() (rules []*Rule, err error) {
 // Parse an input string into a set of rules and a possible error.
 // If there is an error, you must ignore the rules.
 func Parse(input string) (rules []*Rule, err error) {
+	return parseAt(input, 0)
+}
+
+// parseAt parses an input string that is at the given include depth.
+func parseAt(input string, depth int) (rules []*Rule, err error) {
 	l := lex(input)
-	p := &parser{l: l}
+	p := &parser{l: l, depth: depth}
 	// we must prime the current token with the first token in the
 	// file.
 	p.curtok = l.nextItem()
diff --git a/sinksmtp.go b/sinksmtp.go
index 98f48e5..66a24f7 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -131,6 +131,10 @@ func loadList(fname string) []string {
 // ----
 // Load a|the rule file. We assume filename is non-empty.
 func loadRules(fname string) ([]*Rule, error) {
+	return loadRulesAt(fname, 0)
+}
+
+func loadRulesAt(fname string, depth int) ([]*Rule, error) {
 	fp, err := os.Open(fname)
 	if err != nil {
 		return nil, err
@@ -140,7 +144,7 @@ func loadRules(fname string) ([]*Rule, error) {
 	if err != nil {
 		return nil, err
 	}
-	rl, err := Parse(string(b))
+	rl, err := parseAt(string(b), depth)
 	if err != nil {
 		return nil, fmt.Errorf("rules parsing error %v", err)
 	}
-- 
2.43.0


From 01600e1f27eeb90a6480799ce544170ec65e1afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:32 +0000
Subject: [PATCH 11/13] fix: do not crash on 'dbl ... sbl.spamhaus.org' hits of
 IPv6 clients

getSBLHits() expects an IPv4 client address, which it is for a dnsbl hit,
but dbl rules can name that domain too.
---
 sinksmtp.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinksmtp.go b/sinksmtp.go
index 66a24f7..baded5d 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -698,6 +698,10 @@ func getSBLHits(t *smtpTransaction) []string {
 	var sbls []string
 	// since we know this hit, we can omit a lot of checks.
 	s := strings.Split(t.rip, ".")
+	if len(s) != 4 {
+		// a domain that is listed, not the (IPv6) IP.
+		return sbls
+	}
 	ln := fmt.Sprintf("%s.%s.%s.%s.sbl.spamhaus.org.", s[3], s[2], s[1], s[0])
 	txts, err := net.LookupTXT(ln)
 	if err != nil {
-- 
2.43.0


From 2136e4f5767e1e2730d1039081b76d8c6e08473e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:05 +0000
Subject: [PATCH 12/13] fix: do not accept messages that could not be synced to
 disk

A failing fsync() was ignored, so a message could be accepted although
its file was not known to be safely on disk.
---
 sinksmtp.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index baded5d..ddc8cbb 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -671,7 +671,13 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 		if err != nil {
 			warnf("error writing message file: %s\n", err)
 		}
-		_ = fp.Sync()
+		serr := fp.Sync()
+		if serr != nil {
+			warnf("error syncing message file: %s\n", serr)
+			if err == nil {
+				err = serr
+			}
+		}
 		cerr := fp.Close()
 		if cerr != nil {
 			warnf("error closing message file: %s\n", cerr)
-- 
2.43.0


From 8b97dc799141f39c7f6c584c5e7a697949a319ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:37 +0000
Subject: [PATCH 13/13] fix: give message files their real name only once they
 are complete

If the server was killed while it wrote a message file, the incomplete
file kept the real name. With -save-hash full or msg, a resent copy of
the message was then taken to be already saved and accepted. The same
happened when one session found the file of another one that was still
being written and then failed.
---
 sinksmtp.go | 67 ++++++++++++++++++++++++++++++-----------------------
 1 file changed, 38 insertions(+), 29 deletions(-)

diff --git a/sinksmtp.go b/sinksmtp.go
index ddc8cbb..89b1026 100644
--- a/sinksmtp.go
+++ b/sinksmtp.go
@@ -663,39 +663,48 @@ func handleMessage(prefix string, trans *smtpTransaction, logf io.Writer) (strin
 	}
 
 	tgt := trans.savedir + "/" + hash
-	// O_CREATE|O_EXCL will fail if the file already exists, which
-	// is okay with us.
-	fp, err := os.OpenFile(tgt, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
-	if err == nil {
-		_, err = fp.Write(m)
-		if err != nil {
-			warnf("error writing message file: %s\n", err)
-		}
-		serr := fp.Sync()
-		if serr != nil {
-			warnf("error syncing message file: %s\n", serr)
-			if err == nil {
-				err = serr
-			}
+	// It's okay with us if the file already exists.
+	if _, err := os.Lstat(tgt); err == nil {
+		return hash, nil
+	}
+	// The file gets its real name only once it is complete. If we
+	// wrote it under that name and died half way through, we would
+	// take the incomplete file for the message when the client
+	// resends it.
+	tmp := fmt.Sprintf("%s/.%s.%s", trans.savedir, hash, strings.Replace(prefix, "/", "-", -1))
+	fp, err := os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0666)
+	if err != nil {
+		warnf("error writing message file: %v\n", err)
+		return hash, err
+	}
+	_, err = fp.Write(m)
+	if err != nil {
+		warnf("error writing message file: %s\n", err)
+	}
+	serr := fp.Sync()
+	if serr != nil {
+		warnf("error syncing message file: %s\n", serr)
+		if err == nil {
+			err = serr
 		}
-		cerr := fp.Close()
-		if cerr != nil {
-			warnf("error closing message file: %s\n", cerr)
-			if err == nil {
-				err = cerr
-			}
+	}
+	cerr := fp.Close()
+	if cerr != nil {
+		warnf("error closing message file: %s\n", cerr)
+		if err == nil {
+			err = cerr
 		}
-		// Don't leave an incomplete file behind; besides not being
-		// the message, it would make us believe that the message has
-		// already been saved when the client resends it.
-		if err != nil {
-			_ = os.Remove(tgt)
+	}
+	if err == nil {
+		// Unlike a rename, this never replaces an existing file.
+		err = os.Link(tmp, tgt)
+		if os.IsExist(err) {
+			err = nil
+		} else if err != nil {
+			warnf("error naming message file: %v\n", err)
 		}
-	} else if !os.IsExist(err) {
-		warnf("error writing message file: %v\n", err)
-	} else {
-		err = nil
 	}
+	_ = os.Remove(tmp)
 	return hash, err
 }
 
-- 
2.43.0


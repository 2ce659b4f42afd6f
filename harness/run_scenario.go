package main

// Running a scenario: performing its steps on the real server and recording
// what is observed.

import (
	"crypto/sha1"
	"errors"
	"fmt"
	"io"
	"net"
	"net/mail"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/siebenmann/smtpd"
)

type runner struct {
	sc     *Scenario
	s      *server
	cl     map[string]*client
	evs    []Obj
	now    int
	nconn  int
	offs   map[string]int64
	slog   map[string][]string // session id -> lines, without the id
	ids    map[string]string   // remote address -> session id
	files  map[string]string   // saved files
	failed error
	mu     sync.Mutex
	wasUp  bool
	hung   atomic.Bool
	par    bool
	hadPar bool
}

func sha(b []byte) string { return fmt.Sprintf("%x", sha1.Sum(b)) }

// newLines are the lines that a log has got since the last look. A line
// counts once it has its end: a write which crosses a page can be seen
// half-way from here, and the rest is left for the next look.
func (r *runner) newLines(name string) []string {
	b, err := os.ReadFile(filepath.Join(r.s.dir, name))
	if err != nil {
		return nil
	}
	off := r.offs[name]
	if off > int64(len(b)) {
		off = 0
	}
	t := string(b[off:])
	t = t[:strings.LastIndexByte(t, '\n')+1]
	r.offs[name] = off + int64(len(t))
	if t == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(t, "\n"), "\n")
}

var slogRE = regexp.MustCompile(`^(\d+/\d+)([#rw!]) ?(.*)$`)

func (r *runner) pullSlog() {
	for _, l := range r.newLines("smtplog.out") {
		m := slogRE.FindStringSubmatch(l)
		if m == nil {
			r.slog["?"] = append(r.slog["?"], l)
			continue
		}
		r.slog[m[1]] = append(r.slog[m[1]], m[2]+" "+m[3])
		if m[2] == "#" && strings.HasPrefix(m[3], "remote ") {
			if f := strings.Fields(m[3]); len(f) > 1 {
				r.ids[f[1]] = m[1]
			}
		}
	}
}

var (
	droppedRE = regexp.MustCompile(`^(\S+) dropped on connect due to rule at `)
	addedRE   = regexp.MustCompile(`^(\S+) added as a yakker at hit (\d+)`)
	forcedRE  = regexp.MustCompile(`^(\S+) forced to be a yakker`)
	dnRE      = regexp.MustCompile(`^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d \[([^\]]*)\] (\S+) (\S+) -> (\S+)$`)
	hexRE     = regexp.MustCompile(`[0-9a-f]{40}`)
	tlsLineRE = regexp.MustCompile(`^(tls on cipher 0x[0-9a-f]{4}) name \S+`)
)

// bangs are the remarks that the server made in the log of a session.
func (r *runner) bangs(raddr string) []Obj {
	r.pullSlog()
	out := []Obj{}
	for _, l := range r.slog[r.ids[raddr]] {
		if !strings.HasPrefix(l, "! ") {
			continue
		}
		t := l[2:]
		switch {
		case strings.HasPrefix(t, "rule note: "):
			out = append(out, Obj{"k": "note", "v": t[len("rule note: "):]})
		case strings.HasPrefix(t, "SBL records: "):
			out = append(out, Obj{"k": "sbl", "hits": strings.Fields(t[len("SBL records: "):])})
		case strings.HasPrefix(t, "dnsbl hit: "):
			out = append(out, Obj{"k": "dnsbl", "hits": strings.Fields(t[len("dnsbl hit: "):])})
		default:
			if m := droppedRE.FindStringSubmatch(t); m != nil {
				out = append(out, Obj{"k": "dropped", "v": m[1]})
			} else if m := addedRE.FindStringSubmatch(t); m != nil {
				out = append(out, Obj{"k": "added", "v": m[1]})
			} else if m := forcedRE.FindStringSubmatch(t); m != nil {
				out = append(out, Obj{"k": "forced", "v": m[1]})
			}
		}
	}
	return out
}

// logConv is the conversation of a session as the SMTP log has it.
func (r *runner) logConv(raddr string) []string {
	out := []string{}
	for _, l := range r.slog[r.ids[raddr]] {
		if l[0] == 'r' || l[0] == 'w' {
			out = append(out, l)
		}
	}
	return out
}

func (r *runner) dnLines() []Obj {
	out := []Obj{}
	for _, l := range r.newLines("dnlog.out") {
		m := dnRE.FindStringSubmatch(l)
		if m == nil {
			out = append(out, Obj{"what": "?" + l, "id": "", "rip": "", "laddr": ""})
			continue
		}
		out = append(out, Obj{"what": m[2], "id": m[1], "rip": m[3], "laddr": m[4]})
	}
	return out
}

// scan looks for new and for changed saved messages.
func (r *runner) scan() (fresh []Obj, changed bool) {
	fresh = []Obj{}
	seen := map[string]bool{}
	for _, d := range r.sc.Cfg.Dirs {
		ents, _ := os.ReadDir(r.s.path(d))
		for _, e := range ents {
			if e.IsDir() || e.Name() == ".wecanmake" {
				continue
			}
			p := d + "/" + e.Name()
			b, err := os.ReadFile(r.s.path(p))
			if err != nil {
				continue
			}
			seen[p] = true
			h := sha(b)
			old, ok := r.files[p]
			if ok {
				if old != h {
					changed = true
					r.files[p] = h
				}
				continue
			}
			r.files[p] = h
			fresh = append(fresh, r.describe(d, e.Name(), b))
		}
	}
	for p := range r.files {
		if !seen[p] {
			changed = true
			delete(r.files, p)
		}
	}
	return
}

func (r *runner) describe(dir, name string, b []byte) Obj {
	t := string(b)
	lines, data := []string{}, ""
	i := strings.Index(t, "\nbody\n")
	if i >= 0 {
		lines = strings.Split(t[:i+5], "\n")
		data = t[i+6:]
	} else {
		lines = []string{"(no body line)", t}
	}
	for k := range lines {
		lines[k] = tlsLineRE.ReplaceAllString(lines[k], "$1")
	}
	rest := ""
	if j := strings.IndexByte(t, '\n'); j >= 0 {
		rest = t[j+1:]
	}
	return Obj{"dir": dir, "name": name, "lines": lines, "data": sha([]byte(data)), "data_": data,
		"hashes": Obj{"msg": sha([]byte(data)), "full": sha([]byte(rest)), "all": sha(b)}}
}

// durable says whether the file was synced before the acceptance was sent.
func durable(recs []ctlRec, dir, name, raddr string) bool {
	names := map[string]bool{dir + "/" + name: true}
	for i := len(recs) - 1; i >= 0; i-- {
		if (recs[i].Kind == "rename" || recs[i].Kind == "link") && names[clean(recs[i].Path)] {
			names[clean(recs[i].Text)] = true
		}
	}
	synced, wrote := false, false
	for _, x := range recs {
		if x.Kind == "reply" && x.Remote == raddr && wrote {
			return synced
		}
		if !names[clean(x.Path)] {
			continue
		}
		switch x.Kind {
		case "write":
			wrote, synced = true, false
		case "sync":
			synced = wrote
		}
	}
	return synced || !wrote
}

func clean(p string) string {
	return strings.TrimPrefix(filepath.Clean(p), "./")
}

func (r *runner) ts() string {
	return time.Unix(clockT0+int64(r.now), 0).UTC().Format("2006-01-02 15:04:05")
}

func (r *runner) emit(e Obj) { r.evs = append(r.evs, e) }

func nn(q []string) []string {
	if q == nil {
		return []string{}
	}
	return q
}

// dead says that the server has died without being asked to.
func (r *runner) dead() bool {
	if !r.wasUp || r.s.killed {
		return false
	}
	if !r.s.alive() {
		return true
	}
	return false
}

func replyObs(cls string, lines []string) Obj {
	return Obj{"cls": cls, "text": nn(lines), "starttls": false, "closed": false, "certreq": false, "cert": "",
		"log": []string{}, "new": []Obj{}, "changed": false, "unsynced": false, "id": "", "idfile": false,
		"bang": []Obj{}, "dn": []Obj{}, "conv": []string{}, "slog": []string{}}
}

// finish fills in what is known once a session has ended.
func (r *runner) finish(c *client, o Obj) {
	r.quiet()
	o["closed"] = !c.open
	o["bang"] = r.bangs(c.raddr)
	o["dn"] = r.dnLines()
	o["conv"] = nn(c.conv)
	o["slog"] = r.logConv(c.raddr)
	delete(r.cl, c.name)
}

func (r *runner) noteDead(o Obj) Obj {
	if o["cls"] == "drop" || o["cls"] == "" || o["up"] == false {
		// give a dying process the time to be gone
		if r.wasUp && !r.s.killed {
			for i := 0; i < 40 && r.s.alive(); i++ {
				if i > 3 && !strings.Contains(r.s.out.String(), "panic") && !strings.Contains(r.s.out.String(), "fatal error") {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
		}
	}
	o["dead"] = r.dead() || o["dead"] == true
	return o
}

// quiet waits until the server has nothing left to do.
func (r *runner) quiet() {
	if !r.par && r.s.alive() && !r.s.killed {
		r.s.call(Obj{"op": "quiet"})
	}
}

// mark notes that the server does not answer this client any more, which ends
// the scenario.
func (r *runner) mark(c *client, o Obj) {
	if c.bad {
		o["dead"] = true
		r.hung.Store(true)
		c.shut()
	}
}

func (r *runner) step(st *Step) error {
	s := r.s
	switch st.Ev {
	case "start":
		if s.alive() { // a restart
			s.kill()
			r.cl = map[string]*client{}
			r.emit(Obj{"ev": "kill", "obs": Obj{"dead": false, "changed": false}})
		}
		up, err := s.start()
		if err != nil {
			return err
		}
		r.wasUp = up
		if up {
			s.call(Obj{"op": "record", "on": true})
			if r.now > 0 {
				s.call(Obj{"op": "clock", "ns": int64(r.now) * 1e9})
			}
		}
		r.offs["smtplog.out"], r.offs["dnlog.out"], r.offs["log.out"] = 0, 0, 0
		r.skipLogs()
		r.emit(Obj{"ev": "start", "pid": itoa(s.pid), "obs": Obj{"up": up, "dead": s.stuck}})
		if s.stuck {
			r.hung.Store(true)
		}
	case "file":
		p := s.path(st.Path)
		if fi, err := os.Lstat(p); st.Gone || err == nil && fi.IsDir() {
			os.Remove(p)
		}
		if st.Gone && st.Junk == "dir" {
			os.Mkdir(p, 0755)
		}
		if !st.Gone {
			// replaced in one go, as a careful administrator would
			os.WriteFile(p+".new", []byte(strings.ReplaceAll(st.Text, "/DIR/", s.dir+"/")), 0644)
			os.Rename(p+".new", p)
		}
		r.emit(Obj{"ev": "file", "path": st.Path, "text": st.Text, "gone": st.Gone, "obs": Obj{"dead": r.dead()}})
	case "accfail":
		// the server fails to accept a connection
		if c, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", s.ip, smtpPort+st.Via), patience); err == nil {
			fmt.Fprintf(c, "VFAIL %s\n", st.FErr)
			c.SetReadDeadline(time.Now().Add(patience))
			c.Read(make([]byte, 1))
			c.Close()
		}
		r.emit(Obj{"ev": "accfail", "obs": Obj{"dead": r.dead()}})
	case "zone":
		s.dns.set(*st.Zone)
		r.emit(Obj{"ev": "zone", "zone": st.Zone.norm(), "obs": Obj{"dead": r.dead()}})
	case "clock":
		r.quiet() // what was done before is over
		r.now = st.Now
		if s.alive() {
			s.call(Obj{"op": "clock", "ns": int64(st.Now) * 1e9})
		}
		r.emit(Obj{"ev": "clock", "now": st.Now, "obs": Obj{"dead": r.dead()}})
	case "plant":
		h := sha([]byte(bodyText(st.Body)))
		os.WriteFile(s.path(st.Dir+"/"+h), []byte(st.Junk), 0644)
		r.scan()
		r.emit(Obj{"ev": "plant", "dir": st.Dir, "hash": h, "obs": Obj{"dead": false}})
	case "kill":
		s.kill()
		r.cl = map[string]*client{}
		_, changed := r.scan()
		r.emit(Obj{"ev": "kill", "obs": Obj{"dead": false, "changed": changed}})
	case "stats":
		r.quiet()
		m, err := s.counters()
		hung := false
		if err != nil && s.alive() {
			var ne net.Error
			if !errors.As(err, &ne) || !ne.Timeout() {
				return fmt.Errorf("%w: counters: %v", errHarness, err)
			}
			hung = true
			r.hung.Store(true)
		}
		if m == nil {
			m = map[string]int{"none": 0}
		}
		fresh, changed := r.scan()
		logs := nn(r.newLines("log.out"))
		if fi, err := os.Stat(filepath.Join(s.dir, "log.out")); err == nil && fi.Size() > r.offs["log.out"] {
			logs = append(logs, "a line without an end")
		}
		r.emit(Obj{"ev": "stats", "obs": Obj{"stats": m, "dead": r.dead() || hung, "leftfiles": len(fresh), "leftlogs": logs,
			"changed": changed, "dn": r.dnLines(), "par": r.hadPar}})
	case "par":
		r.hadPar = true
		return r.parallel(st)
	case "conn":
		return r.connect(st)
	default:
		c := r.cl[st.C]
		if c == nil || !c.open {
			return nil // the session has ended already
		}
		e := r.talk(c, st)
		if e != nil {
			r.emit(e)
		}
	}
	return nil
}

func (r *runner) skipLogs() {
	for _, n := range []string{"smtplog.out", "dnlog.out", "log.out"} {
		if fi, err := os.Stat(filepath.Join(r.s.dir, n)); err == nil {
			r.offs[n] = fi.Size()
		}
	}
}

func (r *runner) connEvent(st *Step, c *client) Obj {
	return Obj{"ev": "conn", "c": st.C, "rip": c.rip, "lip": c.lip, "raddr": c.raddr, "laddr": c.laddr, "cid": ""}
}

func (r *runner) open(st *Step) (*client, Obj, error) {
	r.mu.Lock()
	r.nconn++
	n := r.nconn
	r.mu.Unlock()
	if st.Lip == "" {
		st.Lip = "192.0.2.25"
	}
	rport, lport := st.Rport, st.Lport
	if rport == 0 {
		rport = 30000 + n
	}
	if lport == 0 {
		lport = 25
	}
	c, err := dial(r.s, st, rport, lport)
	if err != nil {
		return nil, nil, err
	}
	o := Obj{"cls": "drop", "name": "", "slow": false, "logged": false, "dn": []Obj{}, "bang": []Obj{}, "closed": true}
	if c.open {
		cls, lines := c.reply()
		o["cls"] = cls
		o["closed"] = !c.open
		if cls == "2" {
			if f := strings.Fields(lines[0]); len(f) > 0 {
				o["name"] = f[0]
			}
		}
		if resp, err := r.s.call(Obj{"op": "conn", "remote": c.raddr}); err == nil && resp.OK {
			o["slow"] = resp.Conn.Delay > 0
		}
		r.mark(c, o)
	}
	return c, o, nil
}

func (r *runner) connect(st *Step) error {
	c, o, err := r.open(st)
	if err != nil {
		return err
	}
	r.cl[st.C] = c
	r.quiet()
	r.pullSlog()
	o["logged"] = r.ids[c.raddr] != ""
	o["dn"] = r.dnLines()
	if !c.open {
		o["bang"] = r.bangs(c.raddr)
		delete(r.cl, st.C)
	}
	e := r.connEvent(st, c)
	e["obs"] = r.noteDead(o)
	r.emit(e)
	return nil
}

func verbLine(st *Step) string {
	if st.Line != "" {
		return st.Line
	}
	switch st.Verb {
	case "MAIL":
		return "MAIL FROM:<" + st.Arg + ">"
	case "RCPT":
		return "RCPT TO:<" + st.Arg + ">"
	case "EHLO", "HELO", "NOOP":
		if st.Arg == "" {
			return st.Verb
		}
		return st.Verb + " " + st.Arg
	case "BAD":
		return "XYZZY " + st.Arg
	}
	return st.Verb
}

var verbOf = map[smtpd.Command]string{smtpd.HELO: "HELO", smtpd.EHLO: "EHLO", smtpd.MAILFROM: "MAIL",
	smtpd.RCPTTO: "RCPT", smtpd.DATA: "DATA", smtpd.RSET: "RSET", smtpd.NOOP: "NOOP", smtpd.QUIT: "QUIT",
	smtpd.BadCmd: "BAD", smtpd.HELP: "HELP", smtpd.VRFY: "VRFY", smtpd.EXPN: "VRFY", smtpd.AUTH: "VRFY"}

func bodyText(lines []string) string { return strings.Join(lines, "\n") + "\n" }

func bodyHash(data string) string {
	m, err := mail.ReadMessage(strings.NewReader(data))
	if err != nil {
		return "<cannot-parse-message>"
	}
	b, err := io.ReadAll(m.Body)
	if err != nil {
		return "<cannot-read-body?>"
	}
	return sha(b)
}

// talk performs a step of an open session and returns the event.
func (r *runner) talk(c *client, st *Step) Obj {
	switch st.Ev {
	case "cmd":
		if c.indata {
			return nil
		}
		line := verbLine(st)
		p := smtpd.ParseCmd(line)
		if p.Cmd == smtpd.STARTTLS {
			return nil
		}
		e := Obj{"ev": "cmd", "c": c.name, "verb": verbOf[p.Cmd], "arg": p.Arg, "garbled": p.Err != "" && p.Cmd != smtpd.BadCmd}
		cls, lines := c.command(line)
		o := replyObs(cls, lines)
		ended := cls == "drop"
		switch {
		case p.Cmd == smtpd.EHLO:
			for _, l := range lines {
				if l == "STARTTLS" {
					o["starttls"] = true
				}
			}
		case p.Cmd == smtpd.DATA && cls == "3":
			c.indata = true
		case p.Cmd == smtpd.QUIT && cls == "2":
			c.eof()
			ended = true
		}
		var extra Obj
		if (p.Cmd == smtpd.MAILFROM && cls == "4") || p.Cmd == smtpd.BadCmd {
			// is this the end of it?
			n := len(c.conv)
			cl2, l2 := c.command("NOOP")
			if cl2 == "2" {
				extra = Obj{"ev": "cmd", "c": c.name, "verb": "NOOP", "arg": "", "garbled": false, "obs": r.noteDead(replyObs(cl2, l2))}
			} else {
				c.eof()
				c.conv = append(append([]string{}, c.conv[:n]...), c.conv[n+1:]...)
				ended = true
			}
		}
		e["obs"] = o
		r.mark(c, o)
		if ended || c.bad {
			r.mu.Lock()
			r.finish(c, o)
			r.mu.Unlock()
		}
		r.noteDead(o)
		if extra != nil {
			e["then"] = extra
		}
		return e
	case "flood":
		// a line without end
		if c.indata {
			return nil
		}
		c.conn.SetWriteDeadline(time.Now().Add(patience))
		io.WriteString(c.conn, strings.Repeat("EHLO "+strings.Repeat("x", 1019), 8))
		c.eof()
		return r.ended(c)
	case "abort":
		if st.Text != "" { // part of a command or of a message
			c.conn.SetWriteDeadline(time.Now().Add(patience))
			io.WriteString(c.conn, st.Text)
		}
		c.halfClose()
		c.eof()
		e := r.ended(c)
		if st.Text != "" { // what the server made of it is not in the client's books
			e["obs"].(Obj)["conv"], e["obs"].(Obj)["slog"] = []string{}, []string{}
		}
		return e
	case "starttls":
		if c.indata {
			return nil
		}
		cls, lines := c.command("STARTTLS")
		o := replyObs(cls, lines)
		e := Obj{"ev": "starttls", "c": c.name, "works": st.Works, "sni": st.Sni, "obs": o}
		if cls == "2" {
			if st.Works {
				if err := c.startTLS(st); err != nil {
					o["cls"] = "drop"
					c.shut()
					r.mu.Lock()
					r.finish(c, o)
					r.mu.Unlock()
				} else {
					o["certreq"] = c.creq
					o["cert"] = c.tls.PeerCertificates[0].Subject.CommonName + ".pem"
				}
			} else {
				c.conn.SetWriteDeadline(time.Now().Add(patience))
				switch st.Text {
				case "close":
				case "alert":
					c.conn.Write([]byte{21, 3, 1, 0, 2, 2, 40})
				default:
					io.WriteString(c.conn, "this is not a TLS handshake at all\r\n")
				}
				c.raw.CloseWrite()
				n := len(c.conv)
				c.eof()
				c.conv = c.conv[:n]
				r.mu.Lock()
				r.finish(c, o)
				r.mu.Unlock()
			}
		}
		r.mark(c, o)
		r.noteDead(o)
		return e
	case "msg":
		if !c.indata {
			return nil
		}
		return r.message(c, st)
	}
	return nil
}

func (r *runner) ended(c *client) Obj {
	o := replyObs("", nil)
	r.mu.Lock()
	r.finish(c, o)
	r.mu.Unlock()
	r.mark(c, o)
	r.noteDead(o)
	return Obj{"ev": "abort", "c": c.name, "obs": o}
}

// sendBody transmits a message.
func (c *client) sendBody(lines []string) {
	var b strings.Builder
	for _, l := range lines {
		if strings.HasPrefix(l, ".") {
			b.WriteByte('.')
		}
		b.WriteString(l + "\r\n")
	}
	b.WriteString(".\r\n")
	c.conn.SetWriteDeadline(time.Now().Add(patience))
	io.WriteString(c.conn, b.String())
	c.conv = append(c.conv, "r . <end of data>")
	c.indata = false
}

func (r *runner) msgEvent(c *client, st *Step) Obj {
	data := bodyText(st.Body)
	info, tlog := c.tlsInfo()
	return Obj{"ev": "msg", "c": c.name, "hash": sha([]byte(data)), "bodyhash": bodyHash(data), "bytes": len(data),
		"ts": r.ts(), "tlsinfo": info, "tlslog": tlog, "fault": st.Fault}
}

func (r *runner) message(c *client, st *Step) Obj {
	e := r.msgEvent(c, st)
	if st.Fault != "" {
		fe := st.FErr
		if fe == "" {
			fe = "ENOSPC"
		}
		var fs []Obj
		for _, d := range r.sc.Cfg.Dirs {
			op := st.Fault
			if op == "kill" {
				op = st.Text
			}
			f := Obj{"op": op, "match": d + "/", "n": st.FaultN, "err": fe, "count": 1}
			fs = append(fs, f)
		}
		r.s.call(Obj{"op": "faults", "faults": fs})
	}
	r.s.call(Obj{"op": "drain"})
	c.sendBody(st.Body)
	cls, lines := c.reply()
	o := replyObs(cls, lines)
	e["obs"] = o
	if cls == "drop" && st.Fault == "kill" {
		select {
		case <-r.s.done:
			r.s.killed = true
		case <-time.After(2 * time.Second):
		}
	}
	r.quiet()
	r.fillMsg(c, o)
	o["log"] = nn(r.newLines("log.out"))
	if st.Fault != "" && r.s.alive() {
		r.s.call(Obj{"op": "faults", "faults": []Obj{}})
	}
	fresh, changed := r.scan()
	o["new"], o["changed"] = fresh, changed
	resp, err := r.s.call(Obj{"op": "drain"})
	if err == nil {
		if cls == "2" {
			for _, f := range fresh {
				if !durable(resp.Recs, f["dir"].(string), f["name"].(string), c.raddr) {
					o["unsynced"] = true
				}
			}
		}
		// a fault that did not happen is none
		fired := false
		for _, x := range resp.Recs {
			fired = fired || x.Err != ""
		}
		if !fired {
			e["fault"] = ""
		}
	}
	e["left"] = "none"
	for _, f := range fresh {
		if st.Fault == "kill" {
			if f["data_"].(string) == bodyText(st.Body) && f["name"] == f["hashes"].(Obj)[r.sc.Cfg.Hash] {
				e["left"] = "whole"
			}
		}
		delete(f, "data_")
	}
	o["idfile"] = r.idFile(o["id"].(string), c)
	r.mark(c, o)
	if cls == "drop" || c.bad {
		r.finish(c, o)
	}
	r.noteDead(o)
	return e
}

// fillMsg finds the id in a reply.
func (r *runner) fillMsg(c *client, o Obj) {
	lines := o["text"].([]string)
	if len(lines) == 0 {
		return
	}
	q := append([]string{}, lines...)
	last := q[len(q)-1]
	if m := hexRE.FindAllString(last, -1); len(m) > 0 {
		id := m[len(m)-1]
		o["id"] = id
		q[len(q)-1] = strings.Replace(last, id, "@ID@", 1)
		o["text"] = q
	}
}

// idFile says that the record with this id is on disk in some directory.
func (r *runner) idFile(id string, c *client) bool {
	if id == "" {
		return false
	}
	for _, d := range r.sc.Cfg.Dirs {
		if _, err := os.Stat(r.s.path(d + "/" + id)); err == nil {
			return true
		}
	}
	return false
}

// ----- sessions at the same time

type parSess struct {
	c    *client
	ev0  Obj
	evs  []Obj
	msgs []Obj
	data []string
	made bool
	cid  int
}

func (r *runner) parallel(st *Step) error {
	sess := make([]*parSess, len(st.Par))
	var wg sync.WaitGroup
	gate := make(chan struct{})
	var ferr error
	if st.Yld > 0 {
		r.s.call(Obj{"op": "yield", "n": st.Yld})
	}
	r.s.call(Obj{"op": "drain"})
	for i := range st.Par {
		sess[i] = &parSess{}
		wg.Add(1)
		go func(p *parSess, steps []Step) {
			defer wg.Done()
			<-gate
			c, o, err := r.open(&steps[0])
			if err != nil {
				ferr = err
				return
			}
			p.c = c
			p.ev0 = r.connEvent(&steps[0], c)
			p.ev0["obs"] = o
			for k := 1; k < len(steps) && c.open; k++ {
				s2 := &steps[k]
				var e Obj
				if s2.Ev == "msg" {
					if !c.indata {
						continue
					}
					e = r.msgEvent(c, s2)
					c.sendBody(s2.Body)
					cls, lines := c.reply()
					o := replyObs(cls, lines)
					r.fillMsg(c, o)
					e["obs"] = o
					p.msgs = append(p.msgs, e)
					p.data = append(p.data, bodyText(s2.Body))
					r.mark(c, o)
					if cls == "drop" || c.bad {
						r.mu.Lock()
						r.finish(c, o)
						r.mu.Unlock()
					}
				} else if s2.Ev == "sleep" {
					time.Sleep(time.Duration(s2.Now) * time.Millisecond)
					continue
				} else {
					e = r.talk(c, s2)
				}
				if e != nil {
					p.evs = append(p.evs, e)
				}
			}
		}(sess[i], st.Par[i])
	}
	r.par = true
	close(gate)
	wg.Wait()
	r.par = false
	if ferr != nil {
		return ferr
	}
	if st.Yld > 0 {
		r.s.call(Obj{"op": "yield", "n": 0})
	}
	r.quiet()
	r.pullSlog()
	fresh, changed := r.scan()
	resp, _ := r.s.call(Obj{"op": "drain"})
	logs := r.newLines("log.out")
	dn := r.dnLines()
	for _, p := range sess {
		if p.c == nil {
			continue
		}
		id := r.ids[p.c.raddr]
		o := p.ev0["obs"].(Obj)
		o["logged"] = id != ""
		if id != "" {
			fmt.Sscanf(id[strings.IndexByte(id, '/')+1:], "%d", &p.cid)
			p.ev0["cid"] = id[strings.IndexByte(id, '/')+1:]
		}
		if !p.c.open && o["cls"] == "drop" {
			o["bang"] = r.bangs(p.c.raddr)
		}
		r.noteDead(o)
		// what the session left behind
		for k, m := range p.msgs {
			mo := m["obs"].(Obj)
			mine := []Obj{}
			for fi, f := range fresh {
				if f == nil {
					continue
				}
				l0 := f["lines"].([]string)[0]
				if strings.Contains(l0, " "+p.c.raddr+" ") && f["data_"].(string) == p.data[k] {
					mine = append(mine, f)
					fresh[fi] = nil
					p.made = true
					if mo["cls"] == "2" && !durable(resp.Recs, f["dir"].(string), f["name"].(string), p.c.raddr) {
						mo["unsynced"] = true
					}
					break
				}
			}
			for _, f := range mine {
				delete(f, "data_")
			}
			mo["new"] = mine
			mo["idfile"] = r.idFile(mo["id"].(string), p.c)
			lg := []string{}
			for li, l := range logs {
				if strings.Contains(l, "] from "+p.c.raddr+" / ") && strings.Contains(l, " hash "+m["hash"].(string)+" ") {
					lg = append(lg, l)
					logs = append(append([]string{}, logs[:li]...), logs[li+1:]...)
					break
				}
			}
			mo["log"] = lg
		}
		// the log of the session is complete only now
		for _, e := range p.evs {
			o := e["obs"].(Obj)
			if o["closed"] == true {
				o["bang"] = r.bangs(p.c.raddr)
				o["slog"] = r.logConv(p.c.raddr)
				o["dn"] = []Obj{}
			}
			if _, ok := o["dead"]; !ok {
				r.noteDead(o)
			}
		}
	}
	sort.SliceStable(sess, func(i, j int) bool {
		if sess[i].made != sess[j].made {
			return sess[i].made
		}
		return sess[i].cid < sess[j].cid
	})
	left := 0
	for _, f := range fresh {
		if f != nil {
			left++
		}
	}
	for _, p := range sess {
		if p.c == nil {
			continue
		}
		r.emit(p.ev0)
		for _, e := range p.evs {
			r.emitThen(e)
		}
		if p.c.open {
			r.cl[p.c.name] = p.c
		}
	}
	ids := []string{}
	for _, p := range sess {
		if p.c != nil && r.ids[p.c.raddr] != "" {
			ids = append(ids, r.ids[p.c.raddr])
		}
	}
	r.emit(Obj{"ev": "quiet", "obs": Obj{"dead": r.dead(), "ids": ids, "leftfiles": left, "leftlogs": nn(logs),
		"stray": nn(r.slog["?"]), "changed": changed, "dn": dn}})
	return nil
}

func (r *runner) emitThen(e Obj) {
	if t, ok := e["then"]; ok {
		delete(e, "then")
		r.emit(e)
		r.emit(t.(Obj))
		return
	}
	r.emit(e)
}

// norm puts the PTR names in the order in which the specification wants them.
func (z Zone) norm() Zone {
	out := Zone{Names: []NameEnt{}, Ptr: []PtrEnt{}}
	for _, n := range z.Names {
		n.N = strings.ToLower(n.N)
		if n.A == nil {
			n.A = []string{}
		}
		if n.Mx == nil {
			n.Mx = []MX{}
		}
		if n.Txt == nil {
			n.Txt = []string{}
		}
		if n.St == "" {
			n.St = "ok"
		}
		if n.MxSt == "" {
			n.MxSt = "ok"
		}
		out.Names = append(out.Names, n)
	}
	for _, p := range z.Ptr {
		q := append([]string{}, p.Names...)
		sort.Strings(q)
		out.Ptr = append(out.Ptr, PtrEnt{p.N, q})
	}
	return out
}

// hungRuns counts the scenarios in which the server stopped answering.
var hungRuns atomic.Int64

// runScenario performs sc; err is a failure of the harness, not of the server.
func runScenario(sc *Scenario) (rec *Recorded, out string, err error) {
	s, err := newServer(sc)
	if err != nil {
		return nil, "", fmt.Errorf("%w: %v", errHarness, err)
	}
	defer s.close()
	for _, f := range sc.Files {
		if strings.Contains(f.T, "/DIR/") {
			os.WriteFile(s.path(f.N), []byte(strings.ReplaceAll(f.T, "/DIR/", s.dir+"/")), 0644)
		}
	}
	r := &runner{sc: sc, s: s, cl: map[string]*client{}, offs: map[string]int64{}, slog: map[string][]string{},
		ids: map[string]string{}, files: map[string]string{}}
	steps := sc.Steps
	if len(steps) == 0 || steps[0].Ev != "start" {
		steps = append([]Step{{Ev: "start"}}, steps...)
	}
	if !sc.NoStats {
		steps = append(append([]Step{}, steps...), Step{Ev: "stats"})
	}
	for i := range steps {
		if i > 0 && !r.wasUp && steps[i].Ev != "start" && steps[i].Ev != "file" && steps[i].Ev != "kill" {
			continue
		}
		n := len(r.evs)
		if err := r.step(&steps[i]); err != nil {
			return nil, s.out.String(), err
		}
		if len(r.evs) > n {
			last := r.evs[len(r.evs)-1]
			if t, ok := last["then"]; ok {
				delete(last, "then")
				r.emit(t.(Obj))
			}
		}
		if r.hung.Load() {
			hungRuns.Add(1)
			break
		}
		if r.dead() {
			break
		}
	}
	for _, c := range r.cl {
		c.shut()
	}
	rec = &Recorded{ID: sc.ID, Cfg: sc.Cfg, Fs: sc.Files, Zone: sc.Zone.norm(), Evs: r.evs, Hung: r.hung.Load()}
	if rec.Fs == nil {
		rec.Fs = []FileEnt{}
	}
	if rec.Cfg.RFiles == nil {
		rec.Cfg.RFiles = []string{}
	}
	if rec.Cfg.Dirs == nil {
		rec.Cfg.Dirs = []string{}
	}
	return rec, s.out.String(), nil
}

package main

// Running the program under test.

import (
	"bufio"
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/json"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func itoa(n int) string { return strconv.Itoa(n) }

const (
	smtpPort = 2525
	httpPort = 8081
	clockT0  = 1700000000
)

// patience is how long an answer may take before it counts as none.
var patience = func() time.Duration {
	if d, err := time.ParseDuration(os.Getenv("VERIF_PATIENCE")); err == nil {
		return d
	}
	return 20 * time.Second
}()

var home = os.Getenv("VERIF_HOME")
var binary_ = func() string {
	if b := os.Getenv("VERIF_BIN"); b != "" {
		return b
	}
	return filepath.Join(home, ".build", "sinksmtp")
}()

var addrCount atomic.Int64

// addrBlock is a part of the loopback network that no other run uses.
var addrBlock = sync.OnceValue(func() int {
	for b := 1; b < 250; b++ {
		l, err := net.Listen("tcp", fmt.Sprintf("127.%d.254.254:5999", b))
		if err == nil {
			addrLock = l
			return b
		}
	}
	return 250
})
var addrLock net.Listener

// nextIP hands out loopback addresses.
func nextIP() string {
	n := int(addrCount.Add(1))
	return fmt.Sprintf("127.%d.%d.%d", addrBlock(), 1+(n/250)%250, 1+n%250)
}

// ----- certificates

type certPair struct {
	pemCert, pemKey []byte
	tls             tls.Certificate
	leaf            *x509.Certificate
	key             *ecdsa.PrivateKey
}

var (
	srvCerts   [4]certPair // 1..3
	clientSelf certPair
	clientCA   certPair
	rootCA     certPair
)

func mkCert(serial int64, cn string, dns []string, ca bool, usage x509.ExtKeyUsage, parent *certPair) certPair {
	key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
	check(err)
	t := &x509.Certificate{SerialNumber: big.NewInt(serial), Subject: pkix.Name{CommonName: cn}, DNSNames: dns,
		NotBefore: time.Unix(clockT0-86400*365, 0), NotAfter: time.Unix(clockT0+86400*3650*2, 0),
		IsCA: ca, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	if !ca {
		t.ExtKeyUsage = []x509.ExtKeyUsage{usage}
	}
	p, pk := t, key
	if parent != nil {
		p, pk = parent.leaf, parent.key
	}
	der, err := x509.CreateCertificate(rand.Reader, t, p, &key.PublicKey, pk)
	check(err)
	kb, err := x509.MarshalECPrivateKey(key)
	check(err)
	c := certPair{key: key}
	c.pemCert = pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der})
	c.pemKey = pem.EncodeToMemory(&pem.Block{Type: "EC PRIVATE KEY", Bytes: kb})
	c.leaf, err = x509.ParseCertificate(der)
	check(err)
	c.tls = tls.Certificate{Certificate: [][]byte{der}, PrivateKey: key}
	return c
}

// clientCert is a certificate of a client, the name that the server should make
// of it, and whether it verifies.
type clientCert struct {
	certPair
	name     string
	verifies bool
}

var clientCerts map[string]clientCert

func makeCerts() {
	for i := 1; i <= 3; i++ {
		srvCerts[i] = mkCert(int64(i), fmt.Sprintf("cert%d", i), []string{fmt.Sprintf("mail%d.example.org", i)},
			false, x509.ExtKeyUsageServerAuth, nil)
	}
	rootCA = mkCert(100, "root", nil, true, 0, nil)
	clientSelf = mkCert(101, "self.client.test", []string{"self.client.test"}, false, x509.ExtKeyUsageClientAuth, nil)
	clientCA = mkCert(102, "", []string{"good.client.test"}, false, x509.ExtKeyUsageClientAuth, &rootCA)
	mid := mkCert(103, "intermediate", nil, true, 0, &rootCA)
	lost := mkCert(104, "elsewhere", nil, true, 0, nil)
	clientCerts = map[string]clientCert{
		"self":  {clientSelf, "self.client.test", false},
		"ca":    {clientCA, "good.client.test", true},
		"bare":  {mkCert(105, "", nil, false, x509.ExtKeyUsageClientAuth, nil), "<no CN or DNS Names>", false},
		"cn":    {mkCert(106, "cn.client.test", []string{"a.client.test", "b.client.test"}, false, x509.ExtKeyUsageClientAuth, &rootCA), "cn.client.test", true},
		"many":  {mkCert(107, "", []string{"first.client.test", "second.client.test"}, false, x509.ExtKeyUsageClientAuth, &rootCA), "first.client.test", true},
		"chain": {mkCert(108, "chain.client.test", nil, false, x509.ExtKeyUsageClientAuth, &mid), "chain.client.test", true},
		"short": {mkCert(109, "short.client.test", nil, false, x509.ExtKeyUsageClientAuth, &mid), "short.client.test", false},
		"other": {mkCert(110, "other.client.test", nil, false, x509.ExtKeyUsageClientAuth, &lost), "other.client.test", false},
		"usage": {mkCert(111, "usage.client.test", nil, false, x509.ExtKeyUsageServerAuth, &rootCA), "usage.client.test", false},
	}
	c := clientCerts["chain"]
	c.tls.Certificate = append(c.tls.Certificate, mid.tls.Certificate[0])
	clientCerts["chain"] = c
	c = clientCerts["other"]
	c.tls.Certificate = append(c.tls.Certificate, lost.tls.Certificate[0])
	clientCerts["other"] = c
}

func check(err error) {
	if err != nil {
		panic(err)
	}
}

// ----- the process

type server struct {
	sc     *Scenario
	ip     string
	dir    string
	dns    *dnsServer
	cmd    *exec.Cmd
	pid    int
	done   chan struct{}
	state  string
	ctl    net.Conn
	ctlEnc *json.Encoder
	ctlDec *json.Decoder
	ctlMu  sync.Mutex
	ctlN   int
	out    *bytes.Buffer
	stuck  bool
	killed bool
}

var scratch string

func newServer(sc *Scenario) (*server, error) {
	s := &server{sc: sc, ip: nextIP()}
	var err error
	if s.dir, err = os.MkdirTemp(scratch, "s"); err != nil {
		return nil, err
	}
	if s.dns, err = newDNS(s.ip); err != nil {
		return nil, err
	}
	s.dns.set(sc.Zone)
	for i := 1; i <= 3; i++ {
		os.WriteFile(filepath.Join(s.dir, fmt.Sprintf("cert%d.pem", i)), srvCerts[i].pemCert, 0644)
		os.WriteFile(filepath.Join(s.dir, fmt.Sprintf("key%d.pem", i)), srvCerts[i].pemKey, 0644)
	}
	os.WriteFile(filepath.Join(s.dir, "ca.pem"), rootCA.pemCert, 0644)
	for _, d := range sc.Cfg.Dirs {
		if err := os.MkdirAll(s.path(d), 0755); err != nil {
			return nil, err
		}
	}
	for _, f := range sc.Files {
		os.MkdirAll(filepath.Dir(s.path(f.N)), 0755)
		if err := os.WriteFile(s.path(f.N), []byte(f.T), 0644); err != nil {
			return nil, err
		}
	}
	return s, nil
}

// path is where the file that the scenario names n really is.
func (s *server) path(n string) string { return filepath.Join(s.dir, strings.TrimPrefix(n, "/")) }

func (s *server) args() []string {
	c := s.sc.Cfg
	a := []string{"-pprof", fmt.Sprintf("%s:%d", s.ip, httpPort)}
	flag := func(n, v string) {
		if v != "" {
			a = append(a, "-"+n, v)
		}
	}
	boolf := func(n string, v bool) {
		if v {
			a = append(a, "-"+n)
		}
	}
	boolf("nostdrules", !c.StdRules)
	boolf("M", c.RejectMsgs)
	boolf("S", c.Slow)
	boolf("force-receive", c.Force)
	boolf("statsperip", c.PerIP)
	flag("fromreject", c.FromReject)
	flag("toaccept", c.ToAccept)
	flag("heloreject", c.HeloReject)
	if len(c.RFiles) > 0 {
		flag("r", strings.Join(c.RFiles, ","))
	}
	logf := func(on bool, n, f string) {
		if c.LogBad == n {
			f = "nosuch/" + f
		}
		if c.StdLog == n {
			f = "-"
		}
		if on {
			flag(n, f)
		}
	}
	logf(c.SmtpLog, "smtplog", "smtplog.out")
	logf(c.Log, "l", "log.out")
	logf(c.DnLog, "dnlog", "dnlog.out")
	if c.DnCount != 0 {
		flag("dncount", itoa(c.DnCount))
	}
	if c.DurText != "" {
		flag("dndur", c.DurText)
	} else if c.DnDur != 28800 {
		flag("dndur", itoa(c.DnDur)+"s")
	}
	if c.MinPhase != "helo" {
		a = append(a, "-minphase", c.MinPhase)
	}
	flag("d", c.SaveDir)
	if c.Hash != "all" {
		a = append(a, "-save-hash", c.Hash)
	}
	flag("helo", c.Helo)
	flag("c", c.Cert)
	flag("k", c.Key)
	flag("conncfg", c.ConnCfg)
	for i := 0; i <= c.More; i++ {
		if c.Listen != "none" {
			a = append(a, fmt.Sprintf("%s:%d", s.ip, smtpPort+i))
		}
	}
	switch c.Listen {
	case "twice":
		a = append(a, a[len(a)-1])
	case "port":
		a = append(a, s.ip+":nosuchport")
	case "foreign":
		a = append(a, "192.0.2.250:2525")
	}
	return a
}

var errHarness = errors.New("harness failure")

// start starts the process; up says whether it came up (as opposed to giving
// up of its own accord).
func (s *server) start() (up bool, err error) {
	s.ctlN++
	sock := filepath.Join(s.dir, fmt.Sprintf("ctl%d", s.ctlN))
	s.cmd = exec.Command(binary_, s.args()...)
	s.cmd.Dir = s.dir
	procs := s.sc.Procs
	if procs == 0 {
		procs = 2
	}
	s.cmd.Env = append(os.Environ(), "TZ=UTC", "VERIF_DNS="+s.ip+":5353", "VERIF_CTL="+sock,
		"VERIF_CLOCK=virtual", "VERIF_NOPROXY="+itoa(httpPort), "SSL_CERT_FILE="+filepath.Join(s.dir, "ca.pem"),
		"SSL_CERT_DIR=/nonexistent", "GOMAXPROCS="+itoa(procs), "GOTRACEBACK=single")
	s.out = &bytes.Buffer{}
	lw := &limitWriter{w: s.out, n: 1 << 18}
	s.cmd.Stdout, s.cmd.Stderr = lw, lw
	if n := s.sc.Cfg.StdLog; n != "" {
		f, err := os.OpenFile(filepath.Join(s.dir, map[string]string{"l": "log.out", "smtplog": "smtplog.out", "dnlog": "dnlog.out"}[n]), os.O_WRONLY|os.O_CREATE|os.O_APPEND, 0644)
		check(err)
		defer f.Close()
		s.cmd.Stdout = f
	}
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		return false, fmt.Errorf("%w: %v", errHarness, err)
	}
	s.pid = s.cmd.Process.Pid
	s.killed = false
	s.done = make(chan struct{})
	done, cmd := s.done, s.cmd
	go func() { cmd.Wait(); close(done) }()
	limit := time.Now().Add(60 * time.Second)
	for i := 0; i <= s.sc.Cfg.More; {
		select {
		case <-s.done:
			return false, nil
		default:
		}
		c, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", s.ip, smtpPort+i), time.Second)
		if err == nil {
			c.Close()
			i++
			continue
		}
		if time.Now().After(limit) {
			s.kill() // it neither listens nor exits
			s.stuck = true
			return false, nil
		}
		time.Sleep(3 * time.Millisecond)
	}
	for {
		s.ctl, err = net.Dial("unix", sock)
		if err == nil {
			break
		}
		if !s.alive() {
			return false, nil
		}
		if time.Now().After(limit) {
			return false, fmt.Errorf("%w: control socket: %v", errHarness, err)
		}
		time.Sleep(2 * time.Millisecond)
	}
	if s.sc.Cfg.Listen != "" { // it may have listened on the first
		select {
		case <-s.done:
			return false, nil
		case <-time.After(2 * time.Second):
		}
	}
	s.ctlEnc, s.ctlDec = json.NewEncoder(s.ctl), json.NewDecoder(bufio.NewReader(s.ctl))
	return true, nil
}

type limitWriter struct {
	mu sync.Mutex
	w  *bytes.Buffer
	n  int
}

func (l *limitWriter) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.n > 0 {
		k := len(b)
		if k > l.n {
			k = l.n
		}
		l.w.Write(b[:k])
		l.n -= k
	}
	return len(b), nil
}

func (s *server) alive() bool {
	if s.done == nil {
		return false
	}
	select {
	case <-s.done:
		return false
	default:
		return true
	}
}

func (s *server) kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.killed = true
		s.cmd.Process.Kill()
		<-s.done
	}
	if s.ctl != nil {
		s.ctl.Close()
		s.ctl = nil
	}
}

func (s *server) close() {
	s.kill()
	s.dns.pc.Close()
	os.RemoveAll(s.dir)
}

type ctlRec struct {
	Seq    int    `json:"seq"`
	Kind   string `json:"kind"`
	Remote string `json:"remote"`
	Path   string `json:"path"`
	Text   string `json:"text"`
	N      int    `json:"n"`
	Err    string `json:"err"`
}
type ctlResp struct {
	OK   bool     `json:"ok"`
	Recs []ctlRec `json:"recs"`
	Conn *struct {
		Delay     int64  `json:"delay"`
		LocalName string `json:"localname"`
		TLS       bool   `json:"tls"`
		Logged    bool   `json:"logged"`
	} `json:"conn"`
	Goroutines int    `json:"goroutines"`
	Stacks     string `json:"stacks"`
}

func (s *server) call(req Obj) (r ctlResp, err error) {
	s.ctlMu.Lock()
	defer s.ctlMu.Unlock()
	if s.ctl == nil {
		return r, fmt.Errorf("no control connection")
	}
	s.ctl.SetDeadline(time.Now().Add(patience))
	if err = s.ctlEnc.Encode(req); err != nil {
		return
	}
	err = s.ctlDec.Decode(&r)
	return
}

// counters fetches the expvars.
func (s *server) counters() (map[string]int, error) {
	cl := http.Client{Timeout: patience, Transport: &http.Transport{DisableKeepAlives: true}}
	resp, err := cl.Get(fmt.Sprintf("http://%s:%d/debug/vars", s.ip, httpPort))
	if err != nil {
		return nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
	var v struct {
		S struct {
			Events map[string]int `json:"events"`
			Counts struct {
				Commands map[string]int `json:"commands"`
				Accepted map[string]int `json:"accepted"`
				TLSOn    int            `json:"ehlo_tlson"`
				Quits    int            `json:"quits"`
				Aborts   int            `json:"aborts"`
				Rsets    int            `json:"rsets"`
			} `json:"smtpcounts"`
			Sizes      map[string]map[string]int    `json:"sizes"`
			DnsblHits  map[string]int               `json:"dnsbl_hits"`
			SblHits    map[string]int               `json:"sbl_hits"`
			ConnectsTo map[string]int               `json:"connects_to"`
			Last       map[string]string            `json:"last"`
			LastsTo    map[string]map[string]string `json:"lasts_to"`
		} `json:"sinksmtp"`
	}
	if err := json.Unmarshal(b, &v); err != nil {
		return nil, err
	}
	m := map[string]int{"ehlo_tlson": v.S.Counts.TLSOn, "quits": v.S.Counts.Quits,
		"aborts": v.S.Counts.Aborts, "rsets": v.S.Counts.Rsets}
	for k, n := range v.S.Events {
		m[k] = n
	}
	for k, n := range v.S.Counts.Commands {
		m[k] = n
	}
	for k, n := range v.S.Counts.Accepted {
		if k != "messages" {
			k = "ok_" + k
		}
		m[k] = n
	}
	for t, q := range v.S.Sizes {
		for k, n := range q {
			if k != "Lookup" { // how often it looks where there is nothing is its own affair
				m[t+"."+k] = n
			}
		}
	}
	group := func(name string, q map[string]int) {
		for k, n := range q {
			m[name+"."+k] = n
		}
	}
	group("dnsbl", v.S.DnsblHits)
	group("sbl", v.S.SblHits)
	group("connects_to", v.S.ConnectsTo)
	when := func(k, s string) {
		if s == "" {
			return
		}
		t, err := time.Parse("2006-01-02 15:04:05", s)
		if err != nil {
			m[k] = -1
			return
		}
		m[k] = int(t.Unix()-clockT0) + 1
	}
	for k, s := range v.S.Last {
		when("last."+k, s)
	}
	for a, q := range v.S.LastsTo {
		for k, s := range q {
			when("lasts_to."+a+"."+k, s)
		}
	}
	return m, nil
}

package smtpd

// The environment half of the stand-in: a virtual clock, spoofed connection
// addresses, a private DNS resolver, file operation recording and fault
// injection, and a control socket through which the harness drives them. The
// hooks are the variables that tools/overlay.go adds to the standard library's
// time, net and os packages; sinksmtp itself is built unchanged.

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"io"
	"net"
	"net/netip"
	"net/textproto"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Rec is one recorded occurrence.
type Rec struct {
	Seq    int    `json:"seq"`
	Kind   string `json:"kind"` // conn, reply, open, write, sync, close, remove, rename, link
	Remote string `json:"remote,omitempty"`
	Path   string `json:"path,omitempty"`
	Text   string `json:"text,omitempty"`
	N      int    `json:"n"`
	Err    string `json:"err,omitempty"`
}

// ConnRec is what the program configured for one conversation.
type ConnRec struct {
	Delay     int64  `json:"delay"`
	LocalName string `json:"localname"`
	TLS       bool   `json:"tls"`
	Logged    bool   `json:"logged"`
}

// Fault is one injected fault.
type Fault struct {
	Op    string `json:"op"`    // open, write, sync, close
	Match string `json:"match"` // substring of the path
	N     int    `json:"n"`     // for write: bytes really written first
	Err   string `json:"err"`   // ENOSPC, EIO, EACCES, KILL
	After int    `json:"after"` // skip this many matching operations first
	Count int    `json:"count"` // how many times (0: forever)
}

var (
	mu        sync.Mutex
	recording bool
	recs      []Rec
	conns     = map[string]ConnRec{}
	faults    []*Fault
	seq       int
	yield     atomic.Int64
)

func record(r Rec) {
	if !recording {
		return
	}
	seq++
	r.Seq = seq
	recs = append(recs, r)
}

func noteConn(c *Conn) {
	mu.Lock()
	defer mu.Unlock()
	conns[c.remote] = ConnRec{Delay: int64(c.Config.Delay), LocalName: c.Config.LocalName,
		TLS: c.Config.TLSConfig != nil, Logged: c.logger != nil}
	record(Rec{Kind: "conn", Remote: c.remote})
}

func noteReply(c *Conn, s string) {
	mu.Lock()
	defer mu.Unlock()
	record(Rec{Kind: "reply", Remote: c.remote, Text: s})
}

var errnos = map[string]syscall.Errno{"ENOSPC": syscall.ENOSPC, "EIO": syscall.EIO,
	"EACCES": syscall.EACCES, "EDQUOT": syscall.EDQUOT, "EEXIST": syscall.EEXIST}

// fileHook is called by the os package. For op "write" n is how many bytes are
// to be written before failing.
func fileHook(op, name, arg string) (n int, err error, handled bool) {
	mu.Lock()
	defer mu.Unlock()
	for i, f := range faults {
		if f.Op != op || !strings.Contains(name, f.Match) {
			continue
		}
		if f.After > 0 {
			f.After--
			continue
		}
		if f.Count > 0 {
			f.Count--
			if f.Count == 0 {
				faults = append(append([]*Fault{}, faults[:i]...), faults[i+1:]...)
			}
		}
		record(Rec{Kind: op, Path: name, Text: arg, N: f.N, Err: f.Err})
		if f.Err == "KILL" {
			return f.N, errKill, true
		}
		return f.N, errnos[f.Err], true
	}
	record(Rec{Kind: op, Path: name, Text: arg, N: len(arg)})
	return 0, nil, false
}

var errKill = errors.New("kill")

func killSelf() {
	syscall.Kill(syscall.Getpid(), syscall.SIGKILL)
	select {}
}

// spoofed is a connection with the addresses that the test wants it to have.
type spoofed struct {
	net.Conn
	remote, local net.Addr
	closed        atomic.Bool
}

// busy is the number of connections that are neither waiting for input nor
// closed: while it is not 0 there is work under way.
var busy atomic.Int64

func (s *spoofed) Read(b []byte) (int, error) {
	busy.Add(-1)
	n, err := s.Conn.Read(b)
	busy.Add(1)
	return n, err
}

func (s *spoofed) Close() error {
	if s.closed.CompareAndSwap(false, true) {
		busy.Add(-1)
	}
	return s.Conn.Close()
}

// quiet waits until nothing is under way: no connection is being served, and
// no goroutine but this one can run.
func quiet(limit time.Duration) bool {
	buf := make([]byte, 1<<18)
	for n := 0; ; n++ {
		if busy.Load() == 0 {
			idle := true
			t := string(buf[:runtime.Stack(buf, true)])
			for i, g := range strings.Split(t, "\n\n") {
				h, _, _ := strings.Cut(g, "\n")
				if i > 0 && (strings.Contains(h, "[running") || strings.Contains(h, "[runnable") || strings.Contains(h, "[syscall")) && !strings.Contains(g, "os/signal.") {
					idle = false
					break
				}
			}
			if idle && busy.Load() == 0 {
				return true
			}
		}
		if time.Duration(n)*200*time.Microsecond > limit {
			return false
		}
		realSleep(200 * time.Microsecond)
	}
}

func realSleep(d time.Duration) {
	ts := syscall.NsecToTimespec(int64(d))
	syscall.Nanosleep(&ts, nil)
}

func (s *spoofed) RemoteAddr() net.Addr { return s.remote }
func (s *spoofed) LocalAddr() net.Addr  { return s.local }

func readPreface(c net.Conn) (string, error) {
	var line []byte
	b := make([]byte, 1)
	for len(line) < 300 {
		if _, err := io.ReadFull(c, b); err != nil {
			return "", err
		}
		if b[0] == '\n' {
			return string(line), nil
		}
		line = append(line, b[0])
	}
	return "", errors.New("preface too long")
}

func acceptHook(c net.Conn) (net.Conn, error) {
	line, err := readPreface(c)
	f := strings.Fields(line)
	if err == nil && len(f) == 2 && f[0] == "VFAIL" {
		// accepting the connection fails, as when the client has already gone
		// or there are no more file descriptors
		return nil, os.NewSyscallError("accept4", acceptErrs[f[1]])
	}
	if err != nil || len(f) != 3 || f[0] != "VPROXY" {
		return nil, nil // a probe, not a client
	}
	r, err1 := netip.ParseAddrPort(f[1])
	l, err2 := netip.ParseAddrPort(f[2])
	if err1 != nil || err2 != nil {
		return nil, nil
	}
	busy.Add(1)
	return &spoofed{Conn: c, remote: net.TCPAddrFromAddrPort(r), local: net.TCPAddrFromAddrPort(l)}, nil
}

var acceptErrs = map[string]syscall.Errno{"gone": syscall.ECONNABORTED, "full": syscall.EMFILE, "memory": syscall.ENOBUFS, "odd": syscall.EPROTO}

type ctlReq struct {
	Op     string  `json:"op"`
	Ns     int64   `json:"ns"`
	On     bool    `json:"on"`
	Remote string  `json:"remote"`
	Faults []Fault `json:"faults"`
	N      int64   `json:"n"`
}

type ctlResp struct {
	OK         bool     `json:"ok"`
	Recs       []Rec    `json:"recs,omitempty"`
	Conn       *ConnRec `json:"conn,omitempty"`
	Goroutines int      `json:"goroutines,omitempty"`
	Stacks     string   `json:"stacks,omitempty"`
}

func handle(r ctlReq) (resp ctlResp) {
	resp.OK = true
	switch r.Op {
	case "ping":
	case "clock":
		setClock(r.Ns)
	case "quiet":
		resp.OK = quiet(2 * time.Second)
	case "yield":
		yield.Store(r.N)
	case "record":
		mu.Lock()
		recording = r.On
		recs = nil
		mu.Unlock()
	case "drain":
		mu.Lock()
		resp.Recs = recs
		recs = nil
		mu.Unlock()
	case "faults":
		mu.Lock()
		faults = nil
		for i := range r.Faults {
			f := r.Faults[i]
			faults = append(faults, &f)
		}
		mu.Unlock()
	case "conn":
		mu.Lock()
		cr, ok := conns[r.Remote]
		delete(conns, r.Remote)
		mu.Unlock()
		resp.OK = ok
		if ok {
			resp.Conn = &cr
		}
	case "goroutines":
		resp.Goroutines = runtime.NumGoroutine()
		b := make([]byte, 1<<20)
		resp.Stacks = string(b[:runtime.Stack(b, true)])
	default:
		resp.OK = false
	}
	return
}

func serveCtl(path string) {
	l, err := net.Listen("unix", path)
	if err != nil {
		os.Stderr.WriteString("verif: control socket: " + err.Error() + "\n")
		os.Exit(99)
	}
	for {
		c, err := l.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			dec := json.NewDecoder(bufio.NewReader(c))
			enc := json.NewEncoder(c)
			for {
				var r ctlReq
				if dec.Decode(&r) != nil {
					return
				}
				if enc.Encode(handle(r)) != nil {
					return
				}
			}
		}()
	}
}

func newReader(r io.Reader) *textproto.Reader {
	return textproto.NewReader(bufio.NewReader(r))
}

func init() {
	if dns := os.Getenv("VERIF_DNS"); dns != "" {
		net.DefaultResolver = &net.Resolver{
			PreferGo: true,
			Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
				var d net.Dialer
				return d.DialContext(ctx, "udp", dns)
			},
		}
	}
	if p := os.Getenv("VERIF_CTL"); p != "" {
		installHooks(os.Getenv("VERIF_NOPROXY"))
		if os.Getenv("VERIF_CLOCK") == "virtual" {
			setClock(0)
		}
		go serveCtl(p)
	}
	_ = time.Now
}

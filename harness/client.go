package main

// SMTP clients.

import (
	"bufio"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"net/netip"
	"strings"
	"time"
)

type client struct {
	name   string
	raw    *net.TCPConn
	conn   net.Conn
	rd     *bufio.Reader
	raddr  string
	laddr  string
	rip    string
	lip    string
	open   bool
	indata bool
	tls    *tls.ConnectionState
	sni    string
	ccert  string
	creq   bool
	conv   []string // the conversation as the client saw it
	bad    bool     // an answer did not come in time
}

func tcpAddr(ip string, port int) (*net.TCPAddr, string, error) {
	a, err := netip.ParseAddr(ip)
	if err != nil {
		return nil, "", err
	}
	ta := net.TCPAddrFromAddrPort(netip.AddrPortFrom(a, uint16(port)))
	host, _, err := net.SplitHostPort(ta.String())
	return ta, host, err
}

func dial(s *server, st *Step, rport, lport int) (*client, error) {
	ra, rip, err := tcpAddr(st.Rip, rport)
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errHarness, err)
	}
	la, lip, err := tcpAddr(st.Lip, lport)
	if err != nil {
		return nil, fmt.Errorf("%w: %v", errHarness, err)
	}
	c := &client{name: st.C, raddr: ra.String(), laddr: la.String(), rip: rip, lip: lip}
	conn, err := net.DialTimeout("tcp", fmt.Sprintf("%s:%d", s.ip, smtpPort+st.Via), patience)
	if err != nil {
		return c, nil // not open: the server is gone
	}
	c.raw = conn.(*net.TCPConn)
	c.conn = conn
	c.rd = bufio.NewReader(conn)
	r := netip.AddrPortFrom(netip.MustParseAddr(st.Rip), uint16(rport))
	l := netip.AddrPortFrom(netip.MustParseAddr(st.Lip), uint16(lport))
	fmt.Fprintf(conn, "VPROXY %s %s\n", r, l)
	c.open = true
	return c, nil
}

// reply reads one reply: its lines, or cls "drop" (the connection is closed) or
// "none" (no answer in time).
func (c *client) reply() (cls string, lines []string) {
	c.conn.SetReadDeadline(time.Now().Add(patience))
	for {
		l, err := c.rd.ReadString('\n')
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				c.bad = true
				return "none", nil
			}
			c.shut()
			return "drop", nil
		}
		l = strings.TrimRight(l, "\r\n")
		c.conv = append(c.conv, "w "+l)
		if len(l) < 3 {
			lines = append(lines, l)
			return "?", lines
		}
		t := ""
		if len(l) > 4 {
			t = l[4:]
		}
		lines = append(lines, t)
		if len(l) == 3 || l[3] != '-' {
			return l[:1], lines
		}
	}
}

func (c *client) send(line string) {
	c.conn.SetWriteDeadline(time.Now().Add(patience))
	io.WriteString(c.conn, line+"\r\n")
}

func (c *client) command(line string) (string, []string) {
	c.conv = append(c.conv, "r "+line)
	c.send(line)
	return c.reply()
}

// eof waits for the server to close the connection.
func (c *client) eof() bool {
	if !c.open {
		return true
	}
	c.conn.SetReadDeadline(time.Now().Add(patience))
	for {
		l, err := c.rd.ReadString('\n')
		if err != nil {
			var ne net.Error
			if errors.As(err, &ne) && ne.Timeout() {
				c.bad = true
				return false
			}
			c.shut()
			return true
		}
		c.conv = append(c.conv, "w "+strings.TrimRight(l, "\r\n"))
	}
}

func (c *client) halfClose() {
	if t, ok := c.conn.(*tls.Conn); ok {
		t.CloseWrite()
	}
	c.raw.CloseWrite()
}

func (c *client) shut() {
	if c.open {
		c.open = false
		c.raw.Close()
	}
}

// startTLS does the client half of a handshake.
func (c *client) startTLS(st *Step) error {
	cfg := &tls.Config{InsecureSkipVerify: true, ServerName: st.Sni}
	switch st.TLSVer {
	case "1.2":
		cfg.MaxVersion = tls.VersionTLS12
	case "1.3":
		cfg.MinVersion = tls.VersionTLS13
	}
	c.creq = false
	cfg.GetClientCertificate = func(*tls.CertificateRequestInfo) (*tls.Certificate, error) {
		c.creq = true
		if cc, ok := clientCerts[st.CCert]; ok {
			return &cc.tls, nil
		}
		return &tls.Certificate{}, nil
	}
	t := tls.Client(c.conn, cfg)
	t.SetDeadline(time.Now().Add(patience))
	if err := t.Handshake(); err != nil {
		return err
	}
	t.SetDeadline(time.Time{})
	cs := t.ConnectionState()
	c.tls = &cs
	c.sni, c.ccert = st.Sni, st.CCert
	c.conn = t
	c.rd = bufio.NewReader(t)
	return nil
}

func protoName(v uint16) string {
	switch v {
	case tls.VersionTLS10:
		return "TLSv1.0"
	case tls.VersionTLS11:
		return "TLSv1.1"
	case tls.VersionTLS12:
		return "TLSv1.2"
	case tls.VersionTLS13:
		return "TLSv1.3"
	}
	return "?"
}

// tlsInfo is the tls line of a saved message and the tls part of a log line.
func (c *client) tlsInfo() (string, string) {
	if c.tls == nil {
		return "", ""
	}
	s := fmt.Sprintf("tls on cipher 0x%04x proto %s", c.tls.CipherSuite, protoName(c.tls.Version))
	if c.sni != "" {
		s += fmt.Sprintf(" server-name '%s'", c.sni)
	}
	if c.creq {
		if cc, ok := clientCerts[c.ccert]; ok {
			s += " client-name '" + cc.name + "'"
			if cc.verifies {
				s += " client-name-verified"
			}
		}
	}
	return s, fmt.Sprintf(" tls:cipher 0x%04x tls:proto 0x%04x", c.tls.CipherSuite, c.tls.Version)
}

// Package smtpd is the verification stand-in for github.com/siebenmann/smtpd,
// which is not available in this sandbox.
//
// It implements the part of that package's API that a server such as sinksmtp
// uses, with the semantics of the original: a Conn wraps one net.Conn, Next()
// delivers only valid, in-sequence commands (and whole DATA blocks), RSET, NOOP,
// QUIT, HELP and STARTTLS are handled internally, and a command that the
// caller has not replied to when it calls Next() again is accepted.
//
// It belongs to the environment of the verified program (see DESIGN.md), not to
// the program; spec/Sink.tla specifies the same state machine.
package smtpd

import (
	"bytes"
	"crypto/tls"
	"fmt"
	"io"
	"net"
	"net/textproto"
	"strings"
	"time"
)

// TimeFmt is the time format of log messages.
const TimeFmt = "2006-01-02 15:04:05 -0700"

// Command is an SMTP command.
type Command int

// The recognized commands.
const (
	noCmd Command = iota
	BadCmd
	HELO
	EHLO
	MAILFROM
	RCPTTO
	DATA
	QUIT
	RSET
	NOOP
	VRFY
	EXPN
	HELP
	AUTH
	STARTTLS
)

var cmdNames = map[Command]string{
	HELO: "HELO", EHLO: "EHLO", MAILFROM: "MAIL FROM", RCPTTO: "RCPT TO",
	DATA: "DATA", QUIT: "QUIT", RSET: "RSET", NOOP: "NOOP", VRFY: "VRFY",
	EXPN: "EXPN", HELP: "HELP", AUTH: "AUTH", STARTTLS: "STARTTLS",
}

func (c Command) String() string {
	if s, ok := cmdNames[c]; ok {
		return s
	}
	return fmt.Sprintf("<cmd %d>", int(c))
}

// ParsedLine is the result of parsing one command line.
type ParsedLine struct {
	Cmd    Command
	Arg    string
	Params string
	Err    string
}

type argKind int

const (
	noArg argKind = iota
	canArg
	mustArg
	colonAddress
)

var smtpCommand = []struct {
	cmd  Command
	text string
	kind argKind
}{
	{HELO, "HELO", canArg},
	{EHLO, "EHLO", canArg},
	{MAILFROM, "MAIL FROM", colonAddress},
	{RCPTTO, "RCPT TO", colonAddress},
	{DATA, "DATA", noArg},
	{QUIT, "QUIT", noArg},
	{RSET, "RSET", noArg},
	{NOOP, "NOOP", canArg},
	{VRFY, "VRFY", mustArg},
	{EXPN, "EXPN", mustArg},
	{HELP, "HELP", canArg},
	{STARTTLS, "STARTTLS", noArg},
	{AUTH, "AUTH", mustArg},
}

func isall7bit(b []byte) bool {
	for _, c := range b {
		if c > 127 {
			return false
		}
	}
	return true
}

// ParseCmd parses one line.
func ParseCmd(line string) ParsedLine {
	var res ParsedLine
	res.Cmd = BadCmd
	if !isall7bit([]byte(line)) {
		res.Err = "command contains non 7-bit ASCII"
		return res
	}
	upper := strings.ToUpper(line)
	found := -1
	for i := range smtpCommand {
		if strings.HasPrefix(upper, smtpCommand[i].text) {
			found = i
			break
		}
	}
	if found == -1 {
		res.Err = "unrecognized command"
		return res
	}
	cmd := smtpCommand[found]
	llen, clen := len(line), len(cmd.text)
	if !(llen == clen || line[clen] == ' ' || line[clen] == ':') {
		res.Err = "unrecognized command"
		return res
	}
	res.Cmd = cmd.cmd
	switch cmd.kind {
	case noArg:
		if llen != clen && strings.TrimSpace(line[clen:]) != "" {
			res.Err = "SMTP command does not take an argument"
		}
	case mustArg:
		if llen <= clen+1 {
			res.Err = "SMTP command requires an argument"
			return res
		}
		res.Arg = strings.TrimSpace(line[clen+1:])
	case canArg:
		if llen > clen+1 {
			res.Arg = strings.TrimSpace(line[clen+1:])
		}
	case colonAddress:
		idx := clen
		if llen == clen || line[idx] != ':' {
			res.Err = "improper command formatting"
			return res
		}
		idx++
		for idx < llen && line[idx] == ' ' {
			idx++
		}
		if idx >= llen || line[idx] != '<' {
			res.Err = "improper command formatting"
			return res
		}
		end := -1
		inq := false
		for i := idx + 1; i < llen; i++ {
			if line[i] == '"' {
				inq = !inq
			}
			if line[i] == '>' && !inq {
				end = i
				// an address may itself end in '>'; take the last of a run.
				for end+1 < llen && line[end+1] == '>' {
					end++
				}
				break
			}
		}
		if end == -1 {
			end = strings.LastIndexByte(line, '>')
			if end <= idx {
				res.Err = "improper argument formatting"
				return res
			}
		}
		if end+1 < llen && line[end+1] != ' ' {
			res.Err = "improper argument formatting"
			return res
		}
		res.Arg = line[idx+1 : end]
		if end+1 < llen {
			res.Params = strings.TrimSpace(line[end+1:])
		}
		if res.Arg == "" && cmd.cmd == RCPTTO {
			res.Err = "null RCPT TO address"
		}
	}
	return res
}

type conState int

const (
	sStartup conState = 1 << iota
	sInitial
	sHelo
	sMail
	sRcpt
	sData
	sPostData
	sQuit
	sAbort
)

var states = map[Command]struct{ validin, next conState }{
	HELO:     {sInitial | sHelo, sHelo},
	EHLO:     {sInitial | sHelo, sHelo},
	MAILFROM: {sHelo, sMail},
	RCPTTO:   {sMail | sRcpt, sRcpt},
	DATA:     {sRcpt, sData},
}

// Event is the sort of event that Next returns.
type Event int

// The events.
const (
	_ Event = iota
	COMMAND
	AUTHRESP
	AUTHABORT
	GOTDATA
	DONE
	ABORT
	TLSERROR
)

func (e Event) String() string { return fmt.Sprintf("<event %d>", int(e)) }

// EventInfo is what Next returns.
type EventInfo struct {
	What Event
	Cmd  Command
	Arg  string
}

// Limits has the time and message limits for a Conn.
type Limits struct {
	CmdInput, MsgInput, ReplyOut, TLSSetup time.Duration
	MsgSize                                int64
	BadCmds                                int
	NoParams                               bool
}

// DefaultLimits are the default limits.
var DefaultLimits = Limits{
	CmdInput: 2 * time.Minute,
	MsgInput: 10 * time.Minute,
	ReplyOut: 2 * time.Minute,
	TLSSetup: 4 * time.Minute,
	MsgSize:  5 * 1024 * 1024,
	BadCmds:  5,
	NoParams: true,
}

// AuthConfig is not used by sinksmtp.
type AuthConfig struct{ Mechanisms []string }

// Config is the configuration of one Conn.
type Config struct {
	TLSConfig *tls.Config
	Limits    *Limits
	Auth      *AuthConfig
	Delay     time.Duration
	SayTime   bool
	LocalName string
	SftName   string
	Announce  string
}

// Conn is an ongoing SMTP connection.
type Conn struct {
	conn    net.Conn
	lr      *io.LimitedReader
	rdr     *textproto.Reader
	logger  io.Writer
	Config  Config
	state   conState
	badcmds int

	TLSOn    bool
	TLSState tls.ConnectionState

	curcmd  Command
	replied bool
	nstate  conState

	remote string
}

// NewConn creates a new SMTP conversation.
func NewConn(conn net.Conn, cfg Config, log io.Writer) *Conn {
	c := &Conn{state: sStartup, Config: cfg, logger: log}
	c.remote = conn.RemoteAddr().String()
	c.setupConn(conn)
	if c.Config.Limits == nil {
		c.Config.Limits = &DefaultLimits
	}
	if c.Config.SftName == "" {
		c.Config.SftName = "go-smtpd"
	}
	if c.Config.LocalName == "" {
		c.Config.LocalName = "localhost"
	}
	noteConn(c)
	c.log("#", "remote %v at %s", conn.RemoteAddr(), time.Now().Format(TimeFmt))
	return c
}

func (c *Conn) setupConn(conn net.Conn) {
	c.conn = conn
	c.lr = &io.LimitedReader{R: conn, N: 4096}
	c.rdr = newReader(c.lr)
}

func (c *Conn) log(dir string, format string, elems ...interface{}) {
	if c.logger == nil {
		return
	}
	msg := fmt.Sprintf(format, elems...)
	c.logger.Write([]byte(fmt.Sprintf("%s %s\n", dir, msg)))
}

// slowWrite is a plain write here: the stand-in does not spend real time on
// Delay. What delay was asked for is recorded by noteConn.
func (c *Conn) slowWrite(b []byte) (n int, err error) {
	return c.conn.Write(b)
}

func (c *Conn) reply(format string, elems ...interface{}) {
	s := fmt.Sprintf(format, elems...)
	c.log("w", "%s", s)
	noteReply(c, s)
	c.conn.SetWriteDeadline(time.Now().Add(c.Config.Limits.ReplyOut))
	_, err := c.slowWrite([]byte(s + "\r\n"))
	if err != nil {
		c.log("!", "reply abort: %v", err)
		c.state = sAbort
	}
}

func (c *Conn) replyMulti(code int, format string, elems ...interface{}) {
	s := strings.Trim(fmt.Sprintf(format, elems...), " \t\n")
	sl := strings.Split(s, "\n")
	var b bytes.Buffer
	for i := range sl {
		l := strings.TrimRight(sl[i], " \t\r")
		cont := byte('-')
		if i == len(sl)-1 {
			cont = ' '
		}
		line := fmt.Sprintf("%d%c%s", code, cont, l)
		c.log("w", "%s", line)
		b.WriteString(line + "\r\n")
	}
	noteReply(c, b.String())
	c.conn.SetWriteDeadline(time.Now().Add(c.Config.Limits.ReplyOut))
	if _, err := c.slowWrite(b.Bytes()); err != nil {
		c.log("!", "reply abort: %v", err)
		c.state = sAbort
	}
}

func (c *Conn) readCmd() string {
	c.conn.SetReadDeadline(time.Now().Add(c.Config.Limits.CmdInput))
	c.lr.N = 2048
	line, err := c.rdr.ReadLine()
	if err != nil || c.lr.N == 0 {
		c.state = sAbort
		line = ""
		if err != nil {
			c.log("!", "command abort: %v", err)
		} else {
			c.log("!", "command abort: line too long")
		}
	} else {
		c.log("r", "%s", line)
	}
	return line
}

func (c *Conn) readData() string {
	c.conn.SetReadDeadline(time.Now().Add(c.Config.Limits.MsgInput))
	c.lr.N = c.Config.Limits.MsgSize
	b, err := c.rdr.ReadDotBytes()
	if err != nil || c.lr.N == 0 {
		c.state = sAbort
		b = nil
		if err != nil {
			c.log("!", "DATA abort: %v", err)
		} else {
			c.log("!", "DATA abort: too big")
		}
	} else {
		c.log("r", ". <end of data>")
	}
	return string(b)
}

func (c *Conn) stopme() bool {
	return c.state == sAbort || c.badcmds > c.Config.Limits.BadCmds || c.state == sQuit
}

// Accept accepts the current command with a default message.
func (c *Conn) Accept() {
	if c.replied {
		return
	}
	oldstate := c.state
	c.state = c.nstate
	switch c.curcmd {
	case HELO:
		c.reply("250 %s Hello %v", c.Config.LocalName, c.conn.RemoteAddr())
	case EHLO:
		exts := []string{
			fmt.Sprintf("%s Hello %v", c.Config.LocalName, c.conn.RemoteAddr()),
			"8BITMIME", "PIPELINING",
		}
		if c.Config.TLSConfig != nil && !c.TLSOn {
			exts = append(exts, "STARTTLS")
		}
		exts = append(exts, "HELP")
		c.replyMulti(250, "%s", strings.Join(exts, "\n"))
	case MAILFROM, RCPTTO:
		c.reply("250 Okay, I'll believe you for now")
	case DATA:
		if oldstate == sRcpt {
			c.reply("354 Send away")
		} else {
			c.reply("250 I've put it in a can")
		}
	}
	c.replied = true
}

// AcceptMsg accepts the current command with the given message.
func (c *Conn) AcceptMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	oldstate := c.state
	switch c.curcmd {
	case MAILFROM, RCPTTO:
		c.state = c.nstate
		c.replyMulti(250, format, elems...)
	case DATA:
		c.state = c.nstate
		if oldstate == sRcpt {
			c.replyMulti(354, format, elems...)
		} else {
			c.replyMulti(250, format, elems...)
		}
	default:
		// EHLO and HELO replies cannot carry a message.
		c.Accept()
		return
	}
	c.replied = true
}

// AcceptData accepts a message and reports its id.
func (c *Conn) AcceptData(id string) {
	if c.replied || c.curcmd != DATA || c.state != sPostData {
		return
	}
	c.state = c.nstate
	c.reply("250 I've put it in a can called %s", id)
	c.replied = true
}

// RejectData rejects a message and reports its id.
func (c *Conn) RejectData(id string) {
	if c.replied || c.curcmd != DATA || c.state != sPostData {
		return
	}
	c.reply("554 Not put in a can called %s", id)
	c.replied = true
}

// Reject rejects the current command with a default message.
func (c *Conn) Reject() {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.reply("550 Not accepted")
	case MAILFROM, RCPTTO:
		c.reply("550 Bad address")
	case DATA:
		c.reply("554 Not accepted")
	}
	c.replied = true
}

// RejectMsg rejects the current command with the given message.
func (c *Conn) RejectMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO, MAILFROM, RCPTTO:
		c.replyMulti(550, format, elems...)
	case DATA:
		c.replyMulti(554, format, elems...)
	}
	c.replied = true
}

// Tempfail temporarily rejects the current command.
func (c *Conn) Tempfail() {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.reply("421 Not available now")
	case MAILFROM, RCPTTO, DATA:
		c.reply("450 Not available")
	}
	c.replied = true
}

// TempfailMsg temporarily rejects the current command with a message.
func (c *Conn) TempfailMsg(format string, elems ...interface{}) {
	if c.replied {
		return
	}
	switch c.curcmd {
	case HELO, EHLO:
		c.replyMulti(421, format, elems...)
	case MAILFROM, RCPTTO, DATA:
		c.replyMulti(450, format, elems...)
	}
	c.replied = true
}

// Next returns the next event of the conversation.
func (c *Conn) Next() EventInfo {
	var evt EventInfo

	if !c.replied && c.curcmd != noCmd {
		c.Accept()
	}
	if c.state == sStartup {
		c.state = sInitial
		announce := ""
		if c.Config.Announce != "" {
			announce = "\n" + c.Config.Announce
		}
		if c.Config.SayTime {
			c.replyMulti(220, "%s %s %s%s", c.Config.LocalName, c.Config.SftName,
				time.Now().Format(time.RFC1123Z), announce)
		} else {
			c.replyMulti(220, "%s %s%s", c.Config.LocalName, c.Config.SftName, announce)
		}
	}

	if c.state == sData {
		data := c.readData()
		if len(data) > 0 {
			evt.What = GOTDATA
			evt.Arg = data
			c.replied = false
			c.state = sPostData
			c.nstate = sHelo
			return evt
		}
	}

	for !c.stopme() {
		line := c.readCmd()
		if line == "" && c.state == sAbort {
			break
		}
		res := ParseCmd(line)
		if res.Cmd == BadCmd {
			c.badcmds++
			c.reply("501 Bad: %s", res.Err)
			continue
		}
		t := states[res.Cmd]
		if t.validin != 0 && (t.validin&c.state) == 0 {
			c.reply("503 Out of sequence command")
			continue
		}
		if len(res.Err) > 0 {
			c.reply("553 Garbled command: %s", res.Err)
			continue
		}
		if t.validin == 0 {
			switch res.Cmd {
			case NOOP:
				c.reply("250 Okay")
			case RSET:
				if c.state != sInitial {
					c.state = sHelo
				}
				c.reply("250 Okay")
			case QUIT:
				c.state = sQuit
				c.reply("221 Goodbye")
			case HELP:
				c.reply("214 No help here")
			case STARTTLS:
				if c.Config.TLSConfig == nil || c.TLSOn {
					c.reply("502 Not supported")
					continue
				}
				c.reply("220 Ready to start TLS")
				if c.state == sAbort {
					continue
				}
				c.conn.SetDeadline(time.Now().Add(c.Config.Limits.TLSSetup))
				tlsConn := tls.Server(c.conn, c.Config.TLSConfig)
				if err := tlsConn.Handshake(); err != nil {
					c.log("!", "TLS setup failed: %v", err)
					c.state = sAbort
					evt.What = TLSERROR
					evt.Arg = fmt.Sprintf("%v", err)
					return evt
				}
				c.conn.SetDeadline(time.Time{})
				c.setupConn(tlsConn)
				c.TLSOn = true
				c.TLSState = tlsConn.ConnectionState()
				c.log("!", "TLS negotiated with cipher 0x%04x protocol 0x%04x", c.TLSState.CipherSuite, c.TLSState.Version)
				c.state = sInitial
			default:
				c.reply("502 Not supported")
			}
			continue
		}

		c.nstate = t.next
		c.replied = false
		c.curcmd = res.Cmd
		evt.What = COMMAND
		evt.Cmd = res.Cmd
		evt.Arg = res.Arg
		return evt
	}

	if c.badcmds > c.Config.Limits.BadCmds {
		c.reply("554 Too many bad commands")
		c.state = sAbort
		evt.Arg = "too many bad commands"
	}
	if c.state == sQuit {
		evt.What = DONE
		c.log("#", "finished at %v", time.Now().Format(TimeFmt))
	} else {
		evt.What = ABORT
		c.log("#", "abort at %v", time.Now().Format(TimeFmt))
	}
	return evt
}

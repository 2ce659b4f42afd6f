package smtpd

import (
	"bufio"
	"context"
	"io"
	"net"
	"net/textproto"
	"os"
)

func noteConn(c *Conn)            {}
func noteReply(c *Conn, s string) {}

func newReader(r io.Reader) *textproto.Reader {
	return textproto.NewReader(bufio.NewReader(r))
}

func init() {
	if dns := os.Getenv("DEMO_DNS"); dns != "" {
		net.DefaultResolver = &net.Resolver{
			PreferGo: true,
			Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
				var d net.Dialer
				return d.DialContext(ctx, "udp", dns)
			},
		}
	}
}

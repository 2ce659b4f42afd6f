package smtpd

import (
	"net"
	"os"
	"runtime"
	"time"
)

func setClock(ns int64) { time.VerifFreeze(ns) }

func installHooks(noproxy string) {
	net.VerifAccept = func(c net.Conn) (net.Conn, error) {
		_, port, _ := net.SplitHostPort(c.LocalAddr().String())
		if port == noproxy {
			return c, nil
		}
		return acceptHook(c)
	}
	os.VerifFile = fileHook
	os.VerifKill = killSelf
	os.VerifErrKill = errKill
	time.VerifYield = func() {
		if n := yield.Load(); n > 0 {
			for i := int64(0); i < n; i++ {
				runtime.Gosched()
			}
		}
	}
}

package main

// A DNS server that answers from a Zone.

import (
	"encoding/binary"
	"net"
	"net/netip"
	"strings"
	"sync"
)

type dnsServer struct {
	pc   *net.UDPConn
	mu   sync.Mutex
	name map[string]NameEnt
	ptr  map[string][]string // reverse name -> names
	txt  map[string][]string
	asks int
}

func newDNS(ip string) (*dnsServer, error) {
	a, err := net.ResolveUDPAddr("udp", ip+":5353")
	if err != nil {
		return nil, err
	}
	pc, err := net.ListenUDP("udp", a)
	if err != nil {
		return nil, err
	}
	d := &dnsServer{pc: pc}
	d.set(Zone{})
	go d.serve()
	return d, nil
}

func reverseName(ip string) string {
	a, err := netip.ParseAddr(ip)
	if err != nil {
		return ""
	}
	a = a.WithZone("")
	var b strings.Builder
	if a.Is4() {
		q := a.As4()
		for i := 3; i >= 0; i-- {
			b.WriteString(itoa(int(q[i])) + ".")
		}
		return b.String() + "in-addr.arpa."
	}
	q := a.As16()
	const hex = "0123456789abcdef"
	for i := 15; i >= 0; i-- {
		b.WriteByte(hex[q[i]&15])
		b.WriteByte('.')
		b.WriteByte(hex[q[i]>>4])
		b.WriteByte('.')
	}
	return b.String() + "ip6.arpa."
}

func (d *dnsServer) set(z Zone) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.name = map[string]NameEnt{}
	d.ptr = map[string][]string{}
	for _, n := range z.Names {
		d.name[strings.ToLower(n.N)] = n
	}
	for _, p := range z.Ptr {
		// served in another order than the recorded (alphabetical) one
		var q []string
		for i := range p.Names {
			q = append(q, p.Names[(i+1)%len(p.Names)])
		}
		d.ptr[reverseName(p.N)] = q
	}
}

func putName(b []byte, n string) []byte {
	for _, l := range strings.Split(strings.TrimSuffix(n, "."), ".") {
		if l == "" {
			continue
		}
		b = append(b, byte(len(l)))
		b = append(b, l...)
	}
	return append(b, 0)
}

func (d *dnsServer) serve() {
	buf := make([]byte, 4096)
	for {
		n, from, err := d.pc.ReadFromUDP(buf)
		if err != nil {
			return
		}
		if r := d.answer(buf[:n]); r != nil {
			d.pc.WriteToUDP(r, from)
		}
	}
}

func (d *dnsServer) answer(q []byte) []byte {
	if len(q) < 17 {
		return nil
	}
	i := 12
	var labels []string
	for i < len(q) && q[i] != 0 {
		l := int(q[i])
		if l > 63 || i+1+l > len(q) {
			return nil
		}
		labels = append(labels, string(q[i+1:i+1+l]))
		i += 1 + l
	}
	if i+5 > len(q) {
		return nil
	}
	qend := i + 5
	qtype := binary.BigEndian.Uint16(q[i+1:])
	name := strings.ToLower(strings.Join(labels, ".") + ".")
	d.mu.Lock()
	defer d.mu.Unlock()
	d.asks++
	rcode := byte(0)
	var rrs [][]byte
	rr := func(typ uint16, data []byte) {
		b := []byte{0xc0, 12}
		b = binary.BigEndian.AppendUint16(b, typ)
		b = binary.BigEndian.AppendUint16(b, 1)
		b = binary.BigEndian.AppendUint32(b, 60)
		b = binary.BigEndian.AppendUint16(b, uint16(len(data)))
		rrs = append(rrs, append(b, data...))
	}
	if ns, ok := d.ptr[name]; ok {
		if qtype == 12 {
			for _, n := range ns {
				rr(12, putName(nil, n))
			}
		}
	} else if e, ok := d.name[name]; ok {
		switch qtype {
		case 1, 28:
			if e.St == "fail" {
				rcode = 2
				break
			}
			for _, s := range e.A {
				a, err := netip.ParseAddr(s)
				if err != nil {
					continue
				}
				if a.Is4() && qtype == 1 {
					b := a.As4()
					rr(1, b[:])
				}
				if a.Is6() && qtype == 28 {
					b := a.As16()
					rr(28, b[:])
				}
			}
		case 16:
			for _, t := range e.Txt {
				rr(16, append([]byte{byte(len(t))}, t...))
			}
		case 15:
			if e.MxSt == "fail" {
				rcode = 2
				break
			}
			for _, m := range e.Mx {
				b := binary.BigEndian.AppendUint16(nil, uint16(m.Pref))
				rr(15, putName(b, m.Host))
			}
		}
	} else {
		rcode = 3
	}
	r := append([]byte{}, q[:qend]...)
	r[2] = 0x84 | q[2]&1
	r[3] = 0x80 | rcode
	binary.BigEndian.PutUint16(r[4:], 1)
	binary.BigEndian.PutUint16(r[6:], uint16(len(rrs)))
	binary.BigEndian.PutUint16(r[8:], 0)
	binary.BigEndian.PutUint16(r[10:], 0)
	for _, x := range rrs {
		r = append(r, x...)
	}
	return r
}

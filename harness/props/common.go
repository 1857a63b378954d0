// Package props holds the executable properties.
package props

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

type T = pbt.T

var registry = map[string]*pbt.Property{}

func register(p *pbt.Property) {
	if registry[p.ID] != nil {
		panic("duplicate " + p.ID)
	}
	registry[p.ID] = p
}

// Get returns a property or dies.
func Get(id string) *pbt.Property {
	p := registry[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no property", id)
		os.Exit(2)
	}
	return p
}

// All lists the properties in order.
func All() []*pbt.Property {
	var l []*pbt.Property
	for _, p := range registry {
		l = append(l, p)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].ID < l[j].ID })
	return l
}

func wait(t *T, d time.Duration) time.Duration { return d * time.Duration(t.Scale) }

const replyBudget = 8 * time.Second

func hx(b []byte) string {
	if len(b) > 64 {
		return hex.EncodeToString(b[:64]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

func u16b(v ...int) []byte {
	var b []byte
	for _, x := range v {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

// ---- layouts and registers ----

func genBank(t *T, big bool) (start, n int) {
	switch t.Freq(4, 6, 6, 2, 1) {
	case 0:
		n = t.Range(0, 10)
	case 1:
		n = t.Range(1, 40)
	case 2:
		n = t.OneOf(8, 16, 17, 1, 9, 24, 33, 125, 126, 123, 121)
	case 3:
		n = t.Range(100, 300)
	case 4:
		if big {
			n = t.OneOf(2000, 2001, 1968, 1969, 4000, 32768, 40000, 65535)
		} else {
			n = t.OneOf(2000, 2001, 1968, 1969, 2500)
		}
	}
	max := 65536 - n
	if max > 65535 {
		max = 65535
	}
	switch t.Freq(4, 4, 3, 2) {
	case 0:
		start = 0
	case 1:
		start = t.OneOf(1, 3, 7, 8, 9, 10, 100, 255, 256, 1000)
	case 2:
		start = max - t.Range(0, 3)
	case 3:
		start = t.Intn(max + 1)
	}
	if start > max {
		start = max
	}
	if start < 0 {
		start = 0
	}
	return start, n
}

func genLayout(t *T, big bool) model.Layout {
	var l model.Layout
	l.CS, l.CN = genBank(t, big)
	l.DS, l.DN = genBank(t, big)
	l.IS, l.IN = genBank(t, big)
	l.HS, l.HN = genBank(t, big)
	return l
}

func newNode(id byte, l model.Layout) *modbus.NodeRegister {
	return modbus.NewNodeRegister(id, uint16(l.CS), uint16(l.CN), uint16(l.DS), uint16(l.DN),
		uint16(l.IS), uint16(l.IN), uint16(l.HS), uint16(l.HN))
}

// fill gives both the node and the model the same random contents.
func fill(t *T, nd *modbus.NodeRegister, m *model.Node) {
	// one seed choice expands deterministically: contents are data, not structure
	s := uint32(t.U16()) | 1
	rnd := func() uint32 { s ^= s << 13; s ^= s >> 17; s ^= s << 5; return s }
	for i := range m.Coil {
		m.Coil[i] = rnd()&8 != 0
	}
	for i := range m.Disc {
		m.Disc[i] = rnd()&8 != 0
	}
	for i := range m.In {
		m.In[i] = uint16(rnd())
	}
	for i := range m.Hold {
		m.Hold[i] = uint16(rnd())
	}
	load(t, nd, m)
}

// load writes the model's contents into the node in small pieces.
func load(t *T, nd *modbus.NodeRegister, m *model.Node) {
	chk := func(what string, err error) {
		if err != nil {
			t.Failf("loading %s into the node: %v", what, err)
		}
	}
	for i := 0; i < len(m.Coil); i += 800 {
		e := min(i+800, len(m.Coil))
		chk("coils", nd.WriteCoils(uint16(m.CoilStart+i), uint16(e-i), model.PackBits(m.Coil[i:e])))
	}
	for i := 0; i < len(m.Disc); i += 800 {
		e := min(i+800, len(m.Disc))
		chk("discretes", nd.WriteDiscretes(uint16(m.DiscStart+i), uint16(e-i), model.PackBits(m.Disc[i:e])))
	}
	for i := 0; i < len(m.In); i += 500 {
		e := min(i+500, len(m.In))
		chk("inputs", nd.WriteInputs(uint16(m.InStart+i), m.In[i:e]))
	}
	for i := 0; i < len(m.Hold); i += 500 {
		e := min(i+500, len(m.Hold))
		chk("holdings", nd.WriteHoldings(uint16(m.HoldStart+i), m.Hold[i:e]))
	}
}

// diffNode compares the whole contents of a node with the model; "" if equal.
func diffNode(nd *modbus.NodeRegister, m *model.Node) string {
	for i := 0; i < len(m.Coil); i += 800 {
		e := min(i+800, len(m.Coil))
		got, err := nd.ReadCoils(uint16(m.CoilStart+i), uint16(e-i))
		if want := model.PackBits(m.Coil[i:e]); err != nil || !bytes.Equal(got, want) {
			return fmt.Sprintf("coils %d..%d: node has %s (%v), model %s", m.CoilStart+i, m.CoilStart+e-1, hx(got), err, hx(want))
		}
	}
	for i := 0; i < len(m.Disc); i += 800 {
		e := min(i+800, len(m.Disc))
		got, err := nd.ReadDiscretes(uint16(m.DiscStart+i), uint16(e-i))
		if want := model.PackBits(m.Disc[i:e]); err != nil || !bytes.Equal(got, want) {
			return fmt.Sprintf("discretes %d..%d: node has %s (%v), model %s", m.DiscStart+i, m.DiscStart+e-1, hx(got), err, hx(want))
		}
	}
	words := func(name string, start int, vals []uint16, rd func(a, q uint16) ([]uint16, error)) string {
		for i := 0; i < len(vals); i += 500 {
			e := min(i+500, len(vals))
			got, err := rd(uint16(start+i), uint16(e-i))
			if err != nil || len(got) != e-i {
				return fmt.Sprintf("%s %d..%d: %d values, error %v", name, start+i, start+e-1, len(got), err)
			}
			for k := range got {
				if got[k] != vals[i+k] {
					return fmt.Sprintf("%s %d: node has %#04x, model %#04x", name, start+i+k, got[k], vals[i+k])
				}
			}
		}
		return ""
	}
	if s := words("inputs", m.InStart, m.In, nd.ReadInputs); s != "" {
		return s
	}
	return words("holdings", m.HoldStart, m.Hold, nd.ReadHoldings)
}

// ---- requests ----

// genRange draws an address and quantity that fit into the bank (q <= max);
// ok is false for an empty bank.
func genRange(t *T, start, n, max int) (a, q int, ok bool) {
	if n == 0 {
		return start, 1, false
	}
	lim := min(max, n)
	switch t.Freq(4, 3, 2, 3) {
	case 0:
		q = t.Range(1, min(lim, 20))
	case 1:
		q = t.Range(1, lim)
	case 2:
		q = lim
	case 3:
		q = min(lim, t.OneOf(8, 16, 1, 7, 9, 15, 17, 24, 64))
	}
	switch t.Freq(3, 2, 2) {
	case 0:
		a = start + t.Intn(n-q+1)
	case 1:
		a = start
	case 2:
		a = start + n - q
	}
	return a, q, true
}

// genWild draws an address and quantity biased to every boundary.
func genWild(t *T, start, n, max int) (a, q int) {
	switch t.Freq(4, 3, 3) {
	case 0:
		a = start + t.Range(-2, n+2)
	case 1:
		a = t.OneOf(0, 1, 65535, 65534, 65528, 32767, 32768, start, start+n, start+n-1, start-1)
	case 2:
		a = int(t.U16())
	}
	switch t.Freq(4, 3, 3, 2) {
	case 0:
		q = t.OneOf(0, 1, 2, max, max+1, max-1, 0xffff, 0x8000, 0x8001, 0x100, 0x101, 2040, 2041, 2048, 65536-(a&0xffff), 65537-(a&0xffff))
	case 1:
		q = start + n - a + t.Range(-1, 1)
	case 2:
		q = t.Range(0, max+3)
	case 3:
		q = int(t.U16())
	}
	return a & 0xffff, q & 0xffff
}

type req struct {
	fc   byte
	data []byte
}

func (r req) pdu() []byte { return append([]byte{r.fc}, r.data...) }

func cut(b []byte, max int) []byte {
	if len(b) > max {
		return b[:max]
	}
	return b
}

var validFC = []byte{3, 16, 1, 15, 6, 5, 22, 23, 2, 4}

// genValid draws a well-formed in-range request; ok is false if the bank is empty.
func genValid(t *T, m *model.Node, fc byte) (req, bool) {
	switch fc {
	case 1, 2:
		st, n := m.CoilStart, len(m.Coil)
		if fc == 2 {
			st, n = m.DiscStart, len(m.Disc)
		}
		a, q, ok := genRange(t, st, n, 2000)
		return req{fc, u16b(a, q)}, ok
	case 3, 4:
		st, n := m.HoldStart, len(m.Hold)
		if fc == 4 {
			st, n = m.InStart, len(m.In)
		}
		a, q, ok := genRange(t, st, n, 125)
		return req{fc, u16b(a, q)}, ok
	case 5:
		a, _, ok := genRange(t, m.CoilStart, len(m.Coil), 1)
		return req{fc, u16b(a, t.OneOf(0xff00, 0))}, ok
	case 6:
		a, _, ok := genRange(t, m.HoldStart, len(m.Hold), 1)
		return req{fc, u16b(a, int(t.U16()))}, ok
	case 15:
		a, q, ok := genRange(t, m.CoilStart, len(m.Coil), 1968)
		return req{fc, append(append(u16b(a, q), byte((q+7)/8)), t.Bytes((q+7)/8)...)}, ok
	case 16:
		a, q, ok := genRange(t, m.HoldStart, len(m.Hold), 123)
		return req{fc, append(append(u16b(a, q), byte(2*q)), t.Bytes(2*q)...)}, ok
	case 22:
		a, _, ok := genRange(t, m.HoldStart, len(m.Hold), 1)
		return req{fc, u16b(a, int(t.U16()), int(t.U16()))}, ok
	case 23:
		ra, rq, ok := genRange(t, m.HoldStart, len(m.Hold), 125)
		wa, wq, _ := genRange(t, m.HoldStart, len(m.Hold), 121)
		return req{fc, append(append(u16b(ra, rq, wa, wq), byte(2*wq)), t.Bytes(2*wq)...)}, ok
	}
	panic("fc")
}

// genWildReq draws a request of well-formed shape with wild numbers.
func genWildReq(t *T, m *model.Node) req {
	fc := validFC[t.Intn(len(validFC))]
	switch fc {
	case 1:
		a, q := genWild(t, m.CoilStart, len(m.Coil), 2000)
		return req{fc, u16b(a, q)}
	case 2:
		a, q := genWild(t, m.DiscStart, len(m.Disc), 2000)
		return req{fc, u16b(a, q)}
	case 3:
		a, q := genWild(t, m.HoldStart, len(m.Hold), 125)
		return req{fc, u16b(a, q)}
	case 4:
		a, q := genWild(t, m.InStart, len(m.In), 125)
		return req{fc, u16b(a, q)}
	case 5:
		a, _ := genWild(t, m.CoilStart, len(m.Coil), 1)
		return req{fc, u16b(a, t.OneOf(0xff00, 0, 1, 0xff, 0xffff, 0xff01, 0x100))}
	case 6:
		a, _ := genWild(t, m.HoldStart, len(m.Hold), 1)
		return req{fc, u16b(a, int(t.U16()))}
	case 15:
		a, q := genWild(t, m.CoilStart, len(m.Coil), 1968)
		return req{fc, append(append(u16b(a, q), byte((q+7)/8)), t.Bytes(min((q+7)/8, 247))...)}
	case 16:
		a, q := genWild(t, m.HoldStart, len(m.Hold), 123)
		return req{fc, append(append(u16b(a, q), byte(2*q)), t.Bytes(min(2*q, 247))...)}
	case 22:
		a, _ := genWild(t, m.HoldStart, len(m.Hold), 1)
		return req{fc, u16b(a, int(t.U16()), int(t.U16()))}
	default:
		ra, rq, _ := genRange(t, m.HoldStart, len(m.Hold), 125)
		wa, wq, _ := genRange(t, m.HoldStart, len(m.Hold), 121)
		k := t.Intn(3)
		if k != 0 {
			ra, rq = genWild(t, m.HoldStart, len(m.Hold), 125)
		}
		if k != 1 {
			wa, wq = genWild(t, m.HoldStart, len(m.Hold), 121)
		}
		return req{fc, append(append(u16b(ra, rq, wa, wq), byte(2*wq)), t.Bytes(min(2*wq, 243))...)}
	}
}

// genRequest draws any request: valid, out of range, malformed, unsupported.
func genRequest(t *T, m *model.Node) req {
	for {
		switch t.Freq(5, 5, 2, 2, 1) {
		case 0:
			r, ok := genValid(t, m, validFC[t.Intn(len(validFC))])
			if !ok {
				t.Class("req:valid-bank-empty")
			}
			return r
		case 1: // well-formed shape, wild numbers
			return genWildReq(t, m)
		case 2: // valid request, then damaged: length, byte count
			r, _ := genValid(t, m, validFC[t.Intn(len(validFC))])
			d := append([]byte(nil), r.data...)
			switch t.Intn(4) {
			case 0:
				d = d[:t.Intn(len(d))]
			case 1:
				d = append(d, t.Bytes(t.Range(1, 5))...)
			case 2: // byte count field
				i := map[byte]int{15: 4, 16: 4, 23: 8}[r.fc]
				if i == 0 {
					d = append(d, 0)
				} else {
					d[i] += byte(t.OneOf(1, -1, 2, -2, 128, 64))
				}
			case 3:
				d[t.Intn(len(d))] ^= 1 << uint(t.Intn(8))
			}
			return req{r.fc, cut(d, 252)}
		case 3: // unsupported function
			fc := byte(t.OneOf(0, 7, 8, 11, 12, 17, 20, 21, 24, 43, 14, 13, 25, 127, 128, 129, 131, 143, 151, 255, 100))
			if t.Bool() {
				for {
					fc = t.Byte()
					sup := false
					for _, s := range model.Supported {
						sup = sup || s == fc
					}
					if !sup {
						break
					}
					fc = 0
					break
				}
			}
			return req{fc, t.Bytes(t.OneOf(4, 0, 1, 5, 6, 252, 100))}
		case 4: // supported function, arbitrary payload
			return req{validFC[t.Intn(len(validFC))], t.Bytes(t.OneOf(4, 5, 0, 1, 2, 3, 6, 7, 9, 11, 252))}
		}
	}
}

// ---- TCP plumbing ----

var addrCtr uint32

// freshAddr returns a loopback address no other case of this process uses. The
// whole of 127/8 is loopback and the port is below the ephemeral range.
func freshAddr() string {
	n := atomic.AddUint32(&addrCtr, 1)
	pid := uint32(os.Getpid())
	a := 2 + pid%250
	return fmt.Sprintf("127.%d.%d.%d:%d", a, (n/250)%250+1, n%250+1, 15000+(pid/250)%8000)
}

type server struct {
	*modbus.TCPServer
	addr string
	done chan error
}

// startServer runs a TCPServer on a fresh address and waits until it accepts.
func startServer(t *T, srv *modbus.TCPServer) *server {
	s := &server{TCPServer: srv, addr: freshAddr(), done: make(chan error, 1)}
	s.listen(t)
	t.Cleanup(func() { s.stop() })
	return s
}

// startServerAt is startServer on an address of one of the usual forms. It
// returns the address for clients.
func startServerAt(t *T, srv *modbus.TCPServer) (*server, string) {
	k := t.Freq(8, 1, 1)
	if k == 2 && !haveIPv6() {
		k = 0
	}
	if k == 0 {
		s := startServer(t, srv)
		return s, s.addr
	}
	s := &server{TCPServer: srv, done: make(chan error, 1)}
	at := ""
	for i := 0; ; i++ { // a port nobody has
		n := atomic.AddUint32(&addrCtr, 1)
		port := 24000 + (uint32(os.Getpid())*131+n)%8000
		s.addr = []string{"", ":", "[::1]:"}[k] + fmt.Sprint(port)
		at = []string{"", "127.0.0.1:", "[::1]:"}[k] + fmt.Sprint(port)
		ln, err := net.Listen("tcp", s.addr)
		if err == nil {
			ln.Close()
			break
		}
		if i > 100 {
			t.Envf("listen %s: %v", s.addr, err)
		}
	}
	t.Note("server on %s", map[int]string{1: ":PORT", 2: "[::1]:PORT"}[k])
	t.Class(map[int]string{1: "all interfaces", 2: "IPv6"}[k])
	s.listen(t)
	t.Cleanup(func() { s.stop() })
	return s, at
}

func (s *server) listen(t *T) {
	go func() { s.done <- s.TCPServer.ListenAndServe(s.addr) }()
	deadline := time.Now().Add(wait(t, 10*time.Second))
	for {
		c, err := net.DialTimeout("tcp", s.addr, time.Second)
		if err == nil {
			rst(c)
			return
		}
		select {
		case e := <-s.done:
			t.Envf("ListenAndServe(%s) returned %v", s.addr, e)
		default:
		}
		if time.Now().After(deadline) {
			t.Envf("server does not accept on %s: %v", s.addr, err)
		}
		time.Sleep(300 * time.Microsecond)
	}
}

// stop closes the server without waiting for it for ever.
func (s *server) stop() {
	c := make(chan struct{})
	go func() { _ = s.TCPServer.Close(); close(c) }()
	select {
	case <-c:
	case <-time.After(20 * time.Second):
	}
}

func rst(c net.Conn) {
	if tc, ok := c.(*net.TCPConn); ok {
		_ = tc.SetLinger(0)
	}
	_ = c.Close()
}

type conn struct {
	net.Conn
	tid  uint16
	soft bool // the server has a short read timeout: a lost connection needs confirmation
}

func (c *conn) broken(t *T, format string, a ...any) {
	if c.soft {
		t.FailTimeoutf(format, a...)
	}
	t.Failf(format, a...)
}

func dial(t *T, addr string) *conn {
	c, err := net.DialTimeout("tcp", addr, wait(t, 5*time.Second))
	if err != nil {
		t.FailTimeoutf("cannot connect to the server at %s: %v", addr, err)
	}
	t.Cleanup(func() { rst(c) })
	return &conn{Conn: c}
}

// frame is a received MBAP frame.
type frame struct {
	tid, pid uint16
	unit     byte
	pdu      []byte
	raw      []byte
}

// recv reads one frame; err is io/timeout trouble.
func (c *conn) recv(d time.Duration) (frame, error) {
	_ = c.SetReadDeadline(time.Now().Add(d))
	h := make([]byte, 7)
	if _, err := io.ReadFull(c, h); err != nil {
		return frame{}, err
	}
	f := frame{tid: uint16(be(h, 0)), pid: uint16(be(h, 2)), unit: h[6]}
	l := be(h, 4)
	if l < 1 {
		return f, fmt.Errorf("length field %d in reply header % x", l, h)
	}
	f.pdu = make([]byte, l-1)
	if _, err := io.ReadFull(c, f.pdu); err != nil {
		return f, err
	}
	f.raw = append(h, f.pdu...)
	return f, nil
}

func be(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }

// exchange sends one request and demands its reply.
func (c *conn) exchange(t *T, unit byte, r req) []byte {
	c.tid++
	tid := c.tid
	_ = c.SetWriteDeadline(time.Now().Add(wait(t, replyBudget)))
	if _, err := c.Write(model.TCP(tid, unit, r.pdu())); err != nil {
		c.broken(t, "request fc=%d data=%s: connection broke on send: %v", r.fc, hx(r.data), err)
	}
	f, err := c.recv(wait(t, replyBudget))
	if err != nil {
		if ne, ok := err.(net.Error); ok && ne.Timeout() {
			if mute(c) {
				t.Failf("request fc=%d data=%s: no reply within %v and %d s more", r.fc, hx(r.data), wait(t, replyBudget), patience)
			}
			t.FailTimeoutf("request fc=%d data=%s: no reply", r.fc, hx(r.data))
		}
		c.broken(t, "request fc=%d data=%s: no reply: %v", r.fc, hx(r.data), err)
	}
	if f.tid != tid || f.pid != 0 || f.unit != unit {
		t.Failf("request fc=%d data=%s tid=%d unit=%d: reply has tid=%d protocol=%d unit=%d (%s)",
			r.fc, hx(r.data), tid, unit, f.tid, f.pid, f.unit, hx(f.raw))
	}
	return f.pdu
}

// judge matches a reply against the acceptable outcomes and applies the effect.
func judge(t *T, m *model.Node, r req, pdu []byte) model.Outcome {
	outs := m.Outcomes(r.fc, r.data)
	for _, o := range outs {
		if bytes.Equal(o.PDU, pdu) {
			if o.Effect != nil {
				o.Effect(m)
			}
			return o
		}
	}
	t.Failf("request fc=%d data=%s: reply %s, acceptable: %s", r.fc, hx(r.data), hx(pdu), outcomesText(outs))
	panic("unreachable")
}

func outcomesText(o []model.Outcome) string {
	s := ""
	for i, x := range o {
		if i > 0 {
			s += " or "
		}
		s += hx(x.PDU) + " (" + x.What + ")"
	}
	return s
}

// within runs f under a watchdog: library calls that may hang on a leaked lock.
func within(t *T, d time.Duration, what string, f func()) {
	var mu sync.Mutex
	var pan any
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				switch r.(type) {
				case pbt.Failure, pbt.Inconclusive:
				default:
					st := string(debug.Stack())
					if !pbt.MentionsLib(st) {
						fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, st)
						os.Exit(3)
					}
				}
				mu.Lock()
				pan = r
				mu.Unlock()
			}
		}()
		f()
	}()
	tm := time.NewTimer(wait(t, d))
	defer tm.Stop()
	select {
	case <-done:
		mu.Lock()
		p := pan
		mu.Unlock()
		if p != nil {
			switch p.(type) {
			case pbt.Failure, pbt.Inconclusive:
				panic(p)
			}
			t.Failf("%s: panic: %v", what, p)
		}
	case <-tm.C:
		if never(done) {
			t.Failf("%s: still blocked after %v and %d s more", what, wait(t, d), patience)
		}
		t.FailTimeoutf("%s: still blocked after %v", what, wait(t, d))
	}
}

// patience is the number of further seconds after which what is overdue is
// believed to hang, also if it does not do so again when the case is repeated.
const patience = 30

// never gives an overdue event this time. It counts ticks: a machine that stands
// still does not count.
func never[T any](ch <-chan T) bool {
	for i := 0; i < patience; i++ {
		select {
		case <-ch:
			return false
		case <-time.After(time.Second):
		}
	}
	return true
}

// mute is never for the next byte of a connection.
func mute(c net.Conn) bool {
	for i := 0; i < patience; i++ {
		_ = c.SetReadDeadline(time.Now().Add(time.Second))
		if _, err := c.Read(make([]byte, 1)); err == nil || !isTimeout(err) {
			return false
		}
	}
	return true
}

func modelNode(l model.Layout) *model.Node { return model.New(l) }

package props

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"sync/atomic"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C31: instances do not know each other ----

// host is one of several servers of a process.
type host struct {
	n       int
	srv     *modbus.TCPServer
	sp      *modbus.TCPServerSpecial // or this
	m       *master
	s       *server
	up      bool
	units   map[byte]*unit
	own     map[byte]bool // functions with a handler of its own
	c       *conn
	started int
}

func (h *host) reg() registrar {
	if h.sp != nil {
		return h.sp
	}
	return h.srv
}

func (h *host) start(t *T) {
	if h.sp != nil {
		if err := h.sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		c := h.m.next(wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("reverse server %d does not connect", h.n)
		}
		t.Cleanup(func() { rst(c) })
		h.c = &conn{Conn: c}
	} else {
		h.s = &server{TCPServer: h.srv, addr: freshAddr(), done: make(chan error, 1)}
		h.s.listen(t)
		h.c = nil
	}
	h.up = true
	h.started++
}

func (h *host) stop(t *T) {
	if h.sp != nil {
		_ = h.sp.Close()
		eventually(t, promptly, "IsClosed", h.sp.IsClosed)
	} else {
		within(t, promptly, "Close", func() { _ = h.srv.Close() })
	}
	h.up = false
	h.c = nil
}

func (h *host) line(t *T) *conn {
	if h.c == nil || h.sp == nil && t.Chance(1, 6) {
		h.c = dial(t, h.s.addr)
	}
	return h.c
}

func independentServers(t *T) {
	n := t.Range(2, 4)
	ids := []byte{1, 2, 3, 40}
	tags := []byte{65, 66, 100, 3, 6}
	var hosts []*host
	for k := 0; k < n; k++ {
		h := &host{n: k, units: map[byte]*unit{}, own: map[byte]bool{}}
		if t.Chance(1, 4) {
			h.sp = modbus.NewTCPServerSpecial()
			h.sp.SetReconnectInterval(5 * time.Millisecond)
			h.m = newMaster(t, freshAddr())
			h.m.up(t)
			if err := h.sp.AddRemoteServer(h.m.addr); err != nil {
				t.Failf("AddRemoteServer: %v", err)
			}
			t.Cleanup(func() { _ = h.sp.Close() })
		} else {
			h.srv = modbus.NewTCPServer()
			t.Cleanup(func() { within(t, 20*time.Second, "Close", func() { _ = h.srv.Close() }) })
		}
		hosts = append(hosts, h)
	}
	configure := func(h *host) {
		for _, fc := range tags {
			if t.Chance(2, 5) && h.started == 0 {
				h.own[fc] = true
				tag := byte(h.n)
				h.reg().RegisterFunctionHandler(fc, func(nd *modbus.NodeRegister, d []byte) ([]byte, error) {
					if len(d) == 1 {
						return nil, &modbus.ExceptionError{ExceptionCode: tag + 20}
					}
					return []byte{tag, nd.SlaveID(), byte(len(d))}, nil
				})
			}
		}
		for _, id := range ids {
			switch t.Freq(3, 2, 1) {
			case 0:
				u := smallUnit(t, id)
				h.units[id] = u
				h.reg().AddNodes(u.nd)
			case 2: // a unit of another server as well
				if o := hosts[t.Intn(n)]; o != h && o.units[id] != nil {
					h.units[id] = o.units[id]
					h.reg().AddNodes(o.units[id].nd)
					t.Class("unit of two servers")
				}
			}
		}
	}
	for _, h := range hosts {
		configure(h)
		if t.Chance(3, 4) {
			h.start(t)
		}
	}
	asked := map[int]bool{}
	closes := 0
	t.Repeat(5, 40, func(int) {
		h := hosts[t.Intn(n)]
		id := ids[t.Intn(len(ids))]
		u := h.units[id]
		t.Sub(1)
		switch t.Freq(12, 3, 2, 2, 2) {
		case 0:
			if !h.up {
				return
			}
			c := h.line(t)
			if u == nil { // nobody there: no answer, and nobody else's
				for _, x := range ids {
					if v := h.units[x]; v != nil {
						c.tid++
						_, _ = c.Write(model.TCP(c.tid, id, u16bPDU(4, 0, 1)))
						r := req{4, u16b(v.m.InStart, 1)}
						judge(t, v.m, r, c.exchange(t, x, r))
						t.Class("absent unit")
						break
					}
				}
				return
			}
			var r req
			if t.Bool() {
				r = req{tags[t.Intn(len(tags))], t.Bytes(t.Range(0, 6))}
			} else {
				r = genRequest(t, u.m)
			}
			if h.own[r.fc] {
				want := []byte{r.fc, byte(h.n), id, byte(len(r.data))}
				if len(r.data) == 1 {
					want = []byte{r.fc | 0x80, byte(h.n) + 20}
				}
				if p := c.exchange(t, id, r); !bytes.Equal(p, want) {
					t.Failf("server %d of %d, which has a handler of its own for %d, answered %s, expected %s", h.n, n, r.fc, hx(p), hx(want))
				}
				t.Class("own handler")
			} else {
				judge(t, u.m, r, c.exchange(t, id, r))
			}
			asked[h.n] = true
		case 1:
			if u != nil {
				within(t, promptly, "access to a unit's registers", func() { nodeOp(t, u.nd, u.m) })
			}
		case 2:
			if u != nil && t.Bool() {
				h.reg().DeleteNode(id)
				delete(h.units, id)
				t.Note("server %d loses unit %d", h.n, id)
			} else {
				u = smallUnit(t, id)
				h.reg().AddNodes(u.nd)
				h.units[id] = u
				t.Note("server %d gets a new unit %d", h.n, id)
			}
		case 3:
			if h.up {
				t.Note("server %d is closed", h.n)
				h.stop(t)
				closes++
			} else {
				t.Note("server %d is started", h.n)
				h.start(t)
			}
		case 4:
			l := h.reg().GetNodeList()
			if len(l) != len(h.units) {
				t.Failf("server %d of %d has %d units, expected %d", h.n, n, len(l), len(h.units))
			}
			for _, nd := range l {
				if h.units[nd.SlaveID()] == nil || h.units[nd.SlaveID()].nd != nd {
					t.Failf("server %d of %d has a unit %d which is not its own", h.n, n, nd.SlaveID())
				}
			}
		}
	})
	for _, h := range hosts {
		for id, u := range h.units {
			if d := diffOf(t, u); d != "" {
				t.Failf("server %d, unit %d: %s", h.n, id, d)
			}
		}
	}
	t.Class("servers")
	if len(asked) >= 2 {
		t.NonTrivial()
	}
}

// sharedProvider: clients with different limits on one provider.
func sharedProvider(t *T) {
	kind := genKind(t, 4, 1, 1)
	var p modbus.ClientProvider
	if kind == TCP {
		p = modbus.NewTCPClientProvider(newPeer(t).addr, modbus.WithTCPTimeout(wait(t, 8*time.Second)))
	} else {
		m, path := openPty(t)
		t.Cleanup(func() { m.Close() })
		slaveOn(t, m, kind, answerLife)
		cfg := modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: wait(t, 8*time.Second)})
		if kind == RTU {
			p = modbus.NewRTUClientProvider(cfg)
		} else {
			p = modbus.NewASCIIClientProvider(cfg)
		}
	}
	t.Cleanup(func() { closeQuietly(p) })
	type lim struct {
		cl     modbus.Client
		lo, hi int
	}
	var cls []lim
	for i := t.Range(2, 3); i > 0; i-- {
		l := lim{lo: 1, hi: 247}
		var o []modbus.Option
		if t.Bool() {
			l.lo = t.OneOf(0, 5, 10)
			o = append(o, modbus.WithAddressMin(byte(l.lo)))
		}
		if t.Bool() {
			l.hi = t.OneOf(10, 100, 255)
			o = append(o, modbus.WithAddressMax(byte(l.hi)))
		}
		l.cl = modbus.NewClient(p, o...)
		cls = append(cls, l)
	}
	t.Class("clients on one provider")
	t.Repeat(4, 14, func(int) {
		l := cls[t.Intn(len(cls))]
		id := t.OneOf(0, 1, 4, 5, 9, 10, 11, 100, 101, 247, 248, 255)
		a, q := t.Range(0, 30000), t.Range(1, 10)
		what := fmt.Sprintf("client with limits %d..%d on a shared %s provider, unit %d", l.lo, l.hi, kindName[kind], id)
		r := await(t, start(func() (any, error) { return nw(l.cl.ReadHoldingRegisters(byte(id), uint16(a), uint16(q))) }), promptly, what)
		if id < l.lo || id > l.hi {
			if r.err == nil {
				t.Failf("%s: not refused", what)
			}
			return
		}
		checkFn(t, what, r, a, q)
		t.Sub(1)
	})
	t.NonTrivial()
}

// independentClients: many clients, each with its own slave, at once.
func independentClients(t *T) {
	n := t.Range(3, 10)
	var fs []func() error
	serialLines := 0
	for k := 0; k < n; k++ {
		kind := genKind(t, 6, 1, 1)
		if kind != TCP {
			if serialLines++; serialLines > 3 {
				kind = TCP
			}
		}
		rec := &recorder{}
		var po []modbus.ClientProviderOption
		logs := t.Intn(3) // nothing, provider without log, log
		if logs >= 1 {
			po = append(po, modbus.WithLogProvider(rec))
		}
		if logs == 2 {
			po = append(po, modbus.WithEnableLogger())
		}
		id := byte(10 + k)
		if kind == TCP && t.Chance(1, 5) { // in vain: nobody answers
			ln := listenLoop(t)
			to := wait(t, time.Duration(t.Range(20, 60))*time.Millisecond)
			cl := modbus.NewClient(modbus.NewTCPClientProvider(ln.Addr().String(), append(po, modbus.WithTCPTimeout(to))...))
			t.Cleanup(func() { closeQuietly(cl) })
			fs = append(fs, func() error {
				for i := 0; i < 2; i++ {
					t0 := time.Now()
					_, err := cl.ReadCoils(id, 1, 1)
					if err == nil {
						return fmt.Errorf("client %d: an answer from nowhere", k)
					}
					if d := time.Since(t0); d < to*9/10 {
						return fmt.Errorf("client %d with a timeout of %v gave up after %v: %v", k, to, d, err)
					} else if d > to+wait(t, promptly) {
						return timeoutErr(fmt.Sprintf("client %d with a timeout of %v gave up after %v", k, to, d))
					}
				}
				return nil
			})
			t.Class("client in vain")
			continue
		}
		if kind == TCP && t.Bool() { // a server of the library
			srv := modbus.NewTCPServer()
			u := smallUnit(t, id)
			srv.AddNodes(u.nd)
			s := startServer(t, srv)
			cl := modbus.NewClient(modbus.NewTCPClientProvider(s.addr, append(po, modbus.WithTCPTimeout(wait(t, 8*time.Second)))...))
			t.Cleanup(func() { closeQuietly(cl) })
			var calls []*call
			for i := t.Range(5, 60); i > 0; i-- {
				r, ok := genValid(t, u.m, validFC[t.Intn(len(validFC))])
				if t.Chance(1, 4) {
					r, ok = genWildReq(t, u.m), true
				}
				if ok {
					calls = append(calls, callOf(t, id, r))
				}
			}
			fs = append(fs, func() error {
				for i, c := range calls {
					checkCall(t, cl, u, c)
					if i%20 == 19 {
						_ = cl.Close()
					}
				}
				if d := diffNode(u.nd, u.m); d != "" {
					return fmt.Errorf("client %d: unit %d: %s", k, id, d)
				}
				return logCount(k, logs, rec, len(calls))
			})
			t.Class("client and server")
			continue
		}
		// a played slave whose registers tell whose they are
		salt := uint16(k * 1111)
		answer := func(p []byte) []byte {
			if len(p) >= 3 && be(p, 1) >= aExc {
				return []byte{p[0] | 0x80, byte(k + 1)}
			}
			a := answerFn(p)
			if a != nil && (p[0] == 3 || p[0] == 4) {
				a = append([]byte(nil), a...)
				for i := 2; i+1 < len(a); i += 2 {
					v := uint16(be(a, i)) + salt
					a[i], a[i+1] = byte(v>>8), byte(v)
				}
			}
			return a
		}
		var p modbus.ClientProvider
		calls := t.Range(5, 80)
		if kind == TCP {
			p = modbus.NewTCPClientProvider(played(t, answer), append(po, modbus.WithTCPTimeout(wait(t, 8*time.Second)))...)
		} else {
			calls = t.Range(2, 5)
			m, path := openPty(t)
			t.Cleanup(func() { m.Close() })
			slaveOn(t, m, kind, answer)
			po = append(po, modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: wait(t, 8*time.Second)}))
			if kind == RTU {
				p = modbus.NewRTUClientProvider(po...)
			} else {
				p = modbus.NewASCIIClientProvider(po...)
			}
		}
		cl := modbus.NewClient(p)
		t.Cleanup(func() { closeQuietly(cl) })
		x := newXS(uint64(t.U16()))
		fs = append(fs, func() error {
			var kept [][]uint16
			var keptAt []int
			for i := 0; i < calls; i++ {
				a, q := x.n(30000), 1+x.n(120)
				if kind != TCP {
					q = 1 + x.n(20)
				}
				var err error
				switch x.n(8) {
				case 0:
					_, err = cl.ReadHoldingRegisters(id, uint16(aExc+x.n(100)), 1)
					var ee *modbus.ExceptionError
					if !errors.As(err, &ee) || ee.ExceptionCode != byte(k+1) {
						err = fmt.Errorf("error %v, expected exception %d", err, k+1)
					} else {
						err = nil
					}
				case 1:
					err = cl.WriteSingleRegister(id, uint16(a), uint16(x.next()))
				case 2:
					err = cl.WriteMultipleRegisters(id, uint16(a), uint16(q), make([]uint16, q))
				default:
					var w []uint16
					w, err = cl.ReadHoldingRegisters(id, uint16(a), uint16(q))
					if err == nil {
						if len(w) != q {
							return fmt.Errorf("%s client %d: %d registers, expected %d", kindName[kind], k, len(w), q)
						}
						kept, keptAt = append(kept, w), append(keptAt, a)
					}
				}
				if err != nil {
					e := fmt.Sprintf("%s client %d of %d: call %d: %v", kindName[kind], k, n, i, err)
					if isTimeout(err) || kind != TCP {
						return timeoutErr(e)
					}
					return errors.New(e)
				}
			}
			for i, w := range kept {
				for j, v := range w {
					if v != regFn(keptAt[i]+j)+salt {
						return fmt.Errorf("%s client %d of %d: register %d read as %#04x, its slave has %#04x", kindName[kind], k, n, keptAt[i]+j, v, regFn(keptAt[i]+j)+salt)
					}
				}
			}
			return logCount(k, logs, rec, calls)
		})
	}
	t.Note("%d clients at once", n)
	t.Class("clients at once")
	parallel(t, fs)
	t.Sub(n)
	t.NonTrivial()
}

func logCount(k, logs int, rec *recorder, calls int) error {
	switch n := rec.count(); {
	case logs == 2 && calls > 0 && n == 0:
		return fmt.Errorf("client %d logs nothing with its log on", k)
	case logs < 2 && n > 0:
		return fmt.Errorf("client %d logs %d messages with its log off", k, n)
	}
	return nil
}

// played is a server of the case that answers by the given function.
func played(t *T, answer func([]byte) []byte) string {
	ln := listenLoop(t)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				for {
					f, err := (&conn{Conn: c}).recv(longTime)
					if err != nil {
						return
					}
					if a := answer(f.pdu); a != nil {
						if _, err := c.Write(model.TCP(f.tid, f.unit, a)); err != nil {
							return
						}
					}
				}
			}()
		}
	}()
	return ln.Addr().String()
}

// independentSettings: servers with settings of their own.
func independentSettings(t *T) {
	p := getPKI(t)
	const short = 150 * time.Millisecond
	type inst struct {
		srv          *modbus.TCPServer
		sp           *modbus.TCPServerSpecial
		brief        bool // a short read timeout
		trust        int  // -1 no TLS, 0 the authority, 1 another, 2 no check, 3 no settings
		m            *master
		u            *unit
		nConn, nLost atomic.Int32
	}
	n := t.Range(2, 4)
	var all []*inst
	var todo []func()
	for k := 0; k < n; k++ {
		x := &inst{u: smallUnit(t, 1), brief: t.Chance(1, 3), trust: -1}
		d := time.Duration(longTime)
		if x.brief {
			d = short
		}
		if t.Chance(2, 3) {
			x.sp = modbus.NewTCPServerSpecial()
			x.sp.AddNodes(x.u.nd)
			x.trust = t.Freq(2, 3, 1, 1, 2) - 1
			var cfg *tls.Config
			switch x.trust {
			case 0:
				cfg = &tls.Config{RootCAs: p.pool}
			case 1:
				cfg = &tls.Config{RootCAs: p.otherPool}
			case 2:
				cfg = &tls.Config{InsecureSkipVerify: true}
			}
			x.m = newMaster(t, "127.0.0.1:0")
			x.m.up(t)
			scheme := "tcp://"
			if x.trust >= 0 {
				scheme = "ssl://"
				if cfg != nil {
					todo = append(todo, func() { x.sp.SetTLSConfig(cfg) })
				}
			}
			addr := scheme + x.m.addr
			todo = append(todo,
				func() {
					if err := x.sp.AddRemoteServer(addr); err != nil {
						t.Failf("AddRemoteServer(%q): %v", addr, err)
					}
				},
				func() { x.sp.SetReadTimeout(d) },
				func() { x.sp.SetReconnectInterval(20 * time.Millisecond) },
				func() {
					x.sp.SetOnConnectHandler(func(c *modbus.TCPServerSpecial) error {
						if c == x.sp {
							x.nConn.Add(1)
						}
						return nil
					})
				},
				func() { x.sp.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { x.nLost.Add(1) }) },
				func() { x.sp.EnableAutoReconnect(x.trust == 1 || x.trust == 3) })
			t.Cleanup(func() { _ = x.sp.Close() })
		} else {
			x.srv = modbus.NewTCPServer()
			x.srv.AddNodes(x.u.nd)
			todo = append(todo, func() { x.srv.SetReadTimeout(d) })
			t.Cleanup(func() { within(t, 20*time.Second, "Close", func() { _ = x.srv.Close() }) })
		}
		all = append(all, x)
		t.Note("instance %d: reverse %v, trust %d, short read timeout %v", k, x.sp != nil, x.trust, x.brief)
	}
	for len(todo) > 0 { // in any order
		i := t.Intn(len(todo))
		todo[i]()
		todo = append(todo[:i], todo[i+1:]...)
	}
	t.Class("settings")
	// the refused ones try again and again
	var cs []*conn
	for k, x := range all {
		if x.sp == nil {
			cs = append(cs, dial(t, startServer(t, x.srv).addr))
			continue
		}
		if err := x.sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		c := x.m.next(wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("reverse server %d does not connect", k)
		}
		t.Cleanup(func() { rst(c) })
		if x.trust < 0 {
			cs = append(cs, &conn{Conn: c})
			continue
		}
		tc := tls.Server(c, &tls.Config{Certificates: []tls.Certificate{p.server}})
		_ = tc.SetDeadline(time.Now().Add(wait(t, promptly)))
		err := tc.Handshake()
		_ = tc.SetDeadline(time.Time{})
		if good := x.trust == 0 || x.trust == 2; good {
			if isTimeout(err) {
				t.FailTimeoutf("reverse server %d of %d: TLS handshake: %v", k, n, err)
			}
			if err != nil {
				t.Failf("reverse server %d of %d, which trusts its master by its own TLS settings (%d): TLS handshake: %v", k, n, x.trust, err)
			}
			cs = append(cs, &conn{Conn: tc})
		} else {
			cs = append(cs, nil)
		}
	}
	t0 := time.Now()
	for k, x := range all {
		if cs[k] == nil {
			time.Sleep(15 * time.Millisecond)
			if x.sp.IsConnected() || x.nConn.Load() != 0 {
				t.Failf("reverse server %d of %d, which does not trust its master by its own TLS settings (%d), counts itself connected", k, n, x.trust)
			}
			continue
		}
		if x.sp != nil {
			eventually(t, promptly, "IsConnected", x.sp.IsConnected)
			if x.nConn.Load() != 1 || x.nLost.Load() != 0 {
				if x.brief { // slow machine: it may have given up already
					continue
				}
				t.Failf("reverse server %d of %d: %d connects and %d losses reported to its handlers, expected 1 and 0", k, n, x.nConn.Load(), x.nLost.Load())
			}
		}
	}
	// the patient ones wait, the brief ones do not
	for k, x := range all {
		if cs[k] != nil && x.brief {
			if _, err := drain(cs[k], wait(t, promptly)); isTimeout(err) {
				t.FailTimeoutf("server %d of %d with a read timeout of %v keeps an idle connection", k, n, short)
			}
			if x.sp != nil {
				eventually(t, promptly, "the loss is reported", func() bool { return x.nLost.Load() > 0 })
			}
		}
	}
	time.Sleep(time.Until(t0.Add(2 * short)))
	for k, x := range all {
		if cs[k] == nil || x.brief {
			continue
		}
		for i := 0; i < 3; i++ {
			r := genRequest(t, x.u.m)
			judge(t, x.u.m, r, cs[k].exchange(t, 1, r))
		}
		t.Sub(1)
		if x.sp != nil && (x.nConn.Load() != 1 || x.nLost.Load() != 0) {
			t.Failf("reverse server %d of %d: %d connects and %d losses reported to its handlers, expected 1 and 0", k, n, x.nConn.Load(), x.nLost.Load())
		}
	}
	t.NonTrivial()
}

func runIndependent(t *T) {
	switch t.Freq(5, 1, 3, 1) {
	case 3:
		independentSettings(t)
	case 0:
		independentServers(t)
	case 1:
		sharedProvider(t)
	case 2:
		independentClients(t)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C31", Quick: 8000, Thorough: 80000, Workers: 12, Race: true, CaseMax: 120 * time.Second,
		Rule: "a case is a set of servers with units of the same addresses and handlers of their own, or servers with settings of their own (TLS trust, read timeout, handlers), or clients of one provider, or clients working at once on slaves that can be told apart; non-trivial: at least two of them were asked",
		Run:  runIndependent,
	})
}

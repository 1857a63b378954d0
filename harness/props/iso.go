package props

import (
	"bytes"
	"errors"
	"fmt"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C30: one that is stuck delays no other ----

const longTime = 10 * time.Minute

// gate keeps the stuck ones stuck until the case opens it.
type gate struct {
	ch   chan struct{}
	once sync.Once
	in   atomic.Int32
}

func newGate() *gate  { return &gate{ch: make(chan struct{})} }
func (g *gate) pass() { g.in.Add(1); <-g.ch }
func (g *gate) open() { g.once.Do(func() { close(g.ch) }) }
func (g *gate) isOpen() bool {
	select {
	case <-g.ch:
		return true
	default:
		return false
	}
}

type handle func(*modbus.NodeRegister, []byte) ([]byte, error)

// registrar is what the two kinds of server have in common.
type registrar interface {
	registryAPI
	RegisterFunctionHandler(uint8, modbus.FunctionHandler)
}

// handlers registers 100 (stuck until the gate opens, then echo), 101 (uses
// the API of server and unit) and 102 (a reply of 250 bytes).
func stuckHandlers(s registrar, g *gate) {
	s.RegisterFunctionHandler(100, func(_ *modbus.NodeRegister, d []byte) ([]byte, error) {
		d = append([]byte(nil), d...)
		g.pass()
		return d, nil
	})
	s.RegisterFunctionHandler(101, func(nd *modbus.NodeRegister, d []byte) ([]byte, error) {
		// d: what to do, other unit
		if len(d) != 2 {
			return nil, errors.New("bad")
		}
		switch d[0] % 6 {
		case 0:
			if _, err := s.GetNode(d[1]); err != nil {
				return []byte{0}, nil
			}
			return []byte{1}, nil
		case 1:
			n := 0
			for _, x := range s.GetNodeList() {
				if x.SlaveID() == d[1] {
					n++
				}
			}
			return []byte{byte(n)}, nil
		case 2: // nested use within Range
			n := 0
			s.Range(func(id byte, x *modbus.NodeRegister) bool {
				if y, err := s.GetNode(id); err == nil && y == x && id == d[1] {
					n++
				}
				a, q := x.HoldingAddrParam()
				_, _ = x.ReadHoldings(a, q)
				s.DeleteNode(250)
				return true
			})
			return []byte{byte(n)}, nil
		case 3:
			a, q := nd.HoldingAddrParam()
			w, err := nd.ReadHoldings(a, q)
			return append([]byte{byte(len(w))}, model.PackRegs(w)...), err
		case 4:
			s.AddNodes(modbus.NewNodeRegister(251, 0, 1, 0, 1, 0, 1, 0, 1))
			s.DeleteNode(251)
			return []byte{7}, nil
		case 5: // a handler for another function code
			s.RegisterFunctionHandler(103, func(_ *modbus.NodeRegister, d []byte) ([]byte, error) { return d, nil })
			return []byte{9}, nil
		}
		return nil, nil
	})
	s.RegisterFunctionHandler(102, func(_ *modbus.NodeRegister, d []byte) ([]byte, error) {
		return append(append([]byte(nil), d...), make([]byte, 250-len(d))...), nil
	})
}

// soon is a step that must not be delayed.
func soon(t *T, what string, f func()) { within(t, promptly, what, f) }

func isolateServer(t *T) {
	srv := modbus.NewTCPServer()
	srv.SetReadTimeout(longTime)
	srv.SetWriteTimeout(longTime)
	g := newGate()
	stuckHandlers(srv, g)
	us := []*unit{smallUnit(t, 1), smallUnit(t, 2)}
	srv.AddNodes(us[0].nd, us[1].nd)
	s := startServer(t, srv)
	t.Cleanup(g.open)

	var ends []func() // what the stuck ones are owed afterwards
	var conns []*conn // of bystanders
	extra := map[byte]bool{}
	stuck, judged := 0, 0
	var floodErr atomic.Value
	var bg sync.WaitGroup
	stop := make(chan struct{})
	t.Cleanup(func() { g.open(); close(stop); bg.Wait() })

	occupy := func() {
		u := us[t.Intn(2)]
		stuck++
		switch k := t.Freq(4, 3, 1, 2, 1, 2, 1); k {
		case 0, 5: // a handler that does not return
			c := dial(t, s.addr)
			p := append([]byte{100}, t.Bytes(t.Range(0, 9))...)
			before := g.in.Load()
			if _, err := c.Write(model.TCP(77, u.id, p)); err != nil {
				t.Failf("send: %v", err)
			}
			eventually(t, promptly, "the handler is called", func() bool { return g.in.Load() > before })
			if k == 5 {
				t.Note("a handler is stuck, its client has gone")
				t.Class("stuck handler, client gone")
				rst(c)
				return
			}
			t.Note("a handler is stuck")
			t.Class("stuck handler")
			follow := t.Chance(1, 3)
			if follow { // its own connection has to wait
				_, _ = c.Write(model.TCP(78, u.id, u16bPDU(3, 0, 0)))
			}
			ends = append(ends, func() {
				f, err := c.recv(wait(t, promptly))
				if err != nil {
					t.FailTimeoutf("no reply from a handler that was stuck and returned: %v", err)
				}
				if want := model.TCP(77, u.id, p); !bytes.Equal(f.raw, want) {
					t.Failf("reply of a handler that was stuck: %s, expected %s", hx(f.raw), hx(want))
				}
				if !follow {
					return
				}
				f, err = c.recv(wait(t, promptly))
				if want := model.TCP(78, u.id, []byte{0x83, 3}); err != nil {
					t.FailTimeoutf("no reply to the request after one whose handler was stuck: %v", err)
				} else if !bytes.Equal(f.raw, want) {
					t.Failf("reply after one of a stuck handler: %s, expected %s", hx(f.raw), hx(want))
				}
			})
		case 1: // within a frame
			c := dial(t, s.addr)
			r := req{4, u16b(u.m.InStart, 1)}
			b := model.TCP(5, u.id, r.pdu())
			n := t.Range(1, len(b)-1)
			_, _ = c.Write(b[:n])
			t.Note("a client pauses after %d bytes of a request", n)
			t.Class("within a frame")
			ends = append(ends, func() {
				if _, err := c.Write(b[n:]); err != nil {
					t.Failf("the rest of a request: %v", err)
				}
				f, err := c.recv(wait(t, promptly))
				if err != nil {
					t.FailTimeoutf("no reply to a request completed late: %v", err)
				}
				judge(t, u.m, r, f.pdu)
			})
		case 2: // takes no replies
			c := dial(t, s.addr)
			_ = c.Conn.(*net.TCPConn).SetReadBuffer(64 << 10)
			batch := []byte{}
			for i := 0; i < 200; i++ {
				batch = append(batch, model.TCP(uint16(i), u.id, []byte{102, byte(i)})...)
			}
			sent := 0
			for sent < len(batch)*200 {
				_ = c.SetWriteDeadline(time.Now().Add(30 * time.Millisecond))
				k, err := c.Write(batch[sent%len(batch):])
				sent += k
				if err != nil && !isTimeout(err) {
					t.Failf("a client that takes no replies was disconnected at once: %v", err)
				}
				if err != nil && k == 0 {
					break
				}
			}
			n := sent / 9 // the buffers on the way hold less than half of the replies
			t.Note("a client takes no replies, %d requests sent", n)
			t.Class("deaf client")
			ends = append(ends, func() {
				_ = c.Conn.(*net.TCPConn).SetReadBuffer(4 << 20)
				for i := 0; i < n; i++ {
					f, err := c.recv(wait(t, promptly))
					if err != nil {
						t.FailTimeoutf("reply %d of %d to a client that was deaf: %v", i, n, err)
					}
					if f.tid != uint16(i%200) || len(f.pdu) != 251 || f.pdu[0] != 102 || f.pdu[1] != byte(i%200) {
						t.Failf("reply %d to a client that was deaf: %s", i, hx(f.raw))
					}
				}
				t.Sub(n)
			})
		case 3: // idle ones
			n := t.Range(1, 40)
			if n > 60-len(conns) {
				n = max(0, 60-len(conns))
			}
			for i := 0; i < n; i++ {
				conns = append(conns, dial(t, s.addr))
			}
			t.Note("%d idle connections", n)
			t.Class("idle connections")
		case 4: // a busy one
			c := dial(t, s.addr)
			id := u.id
			bg.Add(1)
			go func() {
				defer bg.Done()
				for i := 0; ; i++ {
					select {
					case <-stop:
						return
					default:
					}
					p, err := c.try(t, id, req{102, []byte{byte(i)}})
					if err != nil {
						floodErr.Store(err)
						return
					}
					if len(p) != 251 || p[1] != byte(i) {
						floodErr.Store(fmt.Errorf("reply %s to request %d of a busy client", hx(p), i))
						return
					}
				}
			}()
			t.Note("a busy client")
			t.Class("busy client")
		case 6: // the application within Range
			bg.Add(1)
			in := make(chan struct{})
			go func() {
				defer bg.Done()
				first := true
				srv.Range(func(byte, *modbus.NodeRegister) bool {
					if first {
						first = false
						close(in)
						g.pass()
					}
					return true
				})
			}()
			soon(t, "Range", func() { <-in })
			t.Note("the application stays within Range")
			t.Class("within Range")
		}
	}
	act := func() {
		u := us[t.Intn(2)]
		judged++
		switch t.Freq(4, 4, 3, 2, 3) {
		case 0: // a connection from before
			if len(conns) == 0 {
				conns = append(conns, dial(t, s.addr))
			}
			c := conns[t.Intn(len(conns))]
			r := genRequest(t, u.m)
			if r.fc >= 100 && r.fc <= 103 {
				r.fc = 99
			}
			judge(t, u.m, r, c.exchange(t, u.id, r))
		case 1: // a new one
			c := dial(t, s.addr)
			r := genRequest(t, u.m)
			if r.fc >= 100 && r.fc <= 103 {
				r.fc = 99
			}
			judge(t, u.m, r, c.exchange(t, u.id, r))
			if t.Bool() {
				rst(c)
			} else {
				conns = append(conns, c)
			}
		case 2:
			soon(t, "access to a unit's registers while others are stuck", func() { nodeOp(t, u.nd, u.m) })
		case 3:
			id := byte(t.Range(3, 5))
			soon(t, "a change of the set of units while others are stuck", func() {
				if extra[id] {
					srv.DeleteNode(id)
				} else {
					srv.AddNodes(modbus.NewNodeRegister(id, 0, 1, 0, 1, 0, 1, 0, 1))
				}
				extra[id] = !extra[id]
				_, err := srv.GetNode(id)
				if (err == nil) != extra[id] {
					t.Failf("GetNode(%d): %v, present %v", id, err, extra[id])
				}
				if n := len(srv.GetNodeList()); n != 2+count(extra) {
					t.Failf("%d units, expected %d", n, 2+count(extra))
				}
			})
		case 4: // a handler that uses the API
			c := dial(t, s.addr)
			op, id := byte(t.Intn(6)), byte(t.Range(1, 5))
			pdu := c.exchange(t, u.id, req{101, []byte{op, id}})
			want := []byte{101, 0}
			switch op {
			case 3:
				want = append([]byte{101, byte(len(u.m.Hold))}, model.PackRegs(u.m.Hold)...)
			case 4:
				want[1] = 7
			case 5:
				want[1] = 9
				if got := c.exchange(t, u.id, req{103, []byte{1, 2}}); !bytes.Equal(got, []byte{103, 1, 2}) {
					t.Failf("function code 103, registered by a handler: reply %s", hx(got))
				}
			default:
				if id <= 2 || extra[id] {
					want[1] = 1
				}
			}
			if !bytes.Equal(pdu, want) {
				t.Failf("handler that uses the API (%d, unit %d): reply %s, expected %s", op, id, hx(pdu), hx(want))
			}
			t.Class("handler uses the API")
		}
	}
	occupy()
	t.Repeat(4, 30, func(int) {
		if t.Chance(1, 5) && stuck < 8 {
			occupy()
		} else {
			act()
		}
		t.Sub(1)
	})
	if err, _ := floodErr.Load().(error); err != nil {
		t.FailTimeoutf("busy client: %v", err)
	}
	g.open()
	for _, f := range ends {
		f()
	}
	act()
	for _, u := range us {
		if d := diffOf(t, u); d != "" {
			t.Failf("unit %d: %s", u.id, d)
		}
	}
	if judged >= 3 {
		t.NonTrivial()
	}
}

func count(m map[byte]bool) (n int) {
	for _, v := range m {
		if v {
			n++
		}
	}
	return n
}

// a played server that answers only once the gate is open
func lateAnswers(t *T, g *gate) string {
	ln := listenLoop(t)
	go func() {
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer c.Close()
				for {
					f, err := (&conn{Conn: c}).recv(longTime)
					if err != nil {
						return
					}
					g.pass()
					if _, err := c.Write(model.TCP(f.tid, f.unit, answerFn(f.pdu))); err != nil {
						return
					}
				}
			}()
		}
	}()
	return ln.Addr().String()
}

// isolateClients: calls of some clients wait for their answers, the others go on.
func isolateClients(t *T) {
	g := newGate()
	t.Cleanup(g.open)
	mk := func(kind int, late bool) modbus.Client {
		var p modbus.ClientProvider
		if kind == TCP {
			addr := ""
			if late {
				addr = lateAnswers(t, g)
			} else {
				o := newGate()
				o.open()
				addr = lateAnswers(t, o)
			}
			p = modbus.NewTCPClientProvider(addr, modbus.WithTCPTimeout(longTime))
		} else {
			m, path := openPty(t)
			t.Cleanup(func() { m.Close() })
			slaveOn(t, m, kind, func(p []byte) []byte {
				if late {
					g.pass()
				}
				return answerFn(p)
			})
			cfg := modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: longTime})
			if kind == RTU {
				p = modbus.NewRTUClientProvider(cfg)
			} else {
				p = modbus.NewASCIIClientProvider(cfg)
			}
		}
		cl := modbus.NewClient(p)
		t.Cleanup(func() { closeQuietly(cl) })
		t.Cleanup(g.open) // slaves on serial lines end only once it is open
		return cl
	}
	type pend struct {
		ch   chan result
		a, q int
		what string
	}
	var pending []pend
	n := t.Range(1, 4)
	many := t.Chance(1, 6)
	if many {
		n = t.Range(5, 40)
	}
	for i := 0; i < n; i++ {
		kind := TCP
		if !many || i < 3 {
			kind = genKind(t, 3, 1, 1)
		}
		cl := mk(kind, true)
		a, q := t.Range(0, 30000), t.Range(1, 20)
		before := g.in.Load()
		ch := start(func() (any, error) { return nw(cl.ReadHoldingRegisters(1, uint16(a), uint16(q))) })
		eventually(t, promptly, kindName[kind]+" client: the request arrives", func() bool { return g.in.Load() > before })
		pending = append(pending, pend{ch, a, q, kindName[kind]})
		t.Note("a call of a %s client waits", kindName[kind])
	}
	var cls []modbus.Client
	var kinds []int
	t.Repeat(3, 12, func(i int) {
		k := t.Intn(len(cls) + 1)
		if k == len(cls) {
			if len(cls) > 4 {
				k = 0
			} else {
				kind := genKind(t, 3, 1, 1)
				cls, kinds = append(cls, mk(kind, false)), append(kinds, kind)
			}
		}
		cl := cls[k]
		a, q := t.Range(0, 30000), t.Range(1, 20)
		what := fmt.Sprintf("%s client while calls of %d others wait", kindName[kinds[k]], n)
		switch t.Freq(6, 1, 1) {
		case 0:
			r := await(t, start(func() (any, error) { return nw(cl.ReadHoldingRegisters(1, uint16(a), uint16(q))) }), promptly, what)
			checkFn(t, what, r, a, q)
		case 1:
			r := await(t, start(func() (any, error) { return nil, cl.Close() }), promptly, what+": Close")
			if r.err != nil && kinds[k] != TCP {
				t.Failf("%s: Close: %v", what, r.err)
			}
		case 2:
			r := await(t, start(func() (any, error) { return nil, cl.Connect() }), promptly, what+": Connect")
			if r.err != nil {
				t.Failf("%s: Connect: %v", what, r.err)
			}
		}
		t.Sub(1)
	})
	for _, p := range pending {
		select {
		case r := <-p.ch:
			t.Failf("%s client: a call without an answer returned %s, %v", p.what, valText(r.val), r.err)
		default:
		}
	}
	g.open()
	for _, p := range pending {
		checkFn(t, p.what+" client that waited", await(t, p.ch, promptly, p.what), p.a, p.q)
	}
	t.Class("clients")
	t.NonTrivial()
}

func checkFn(t *T, what string, r result, a, q int) {
	if r.err != nil {
		if isTimeout(r.err) {
			t.FailTimeoutf("%s: %v", what, r.err)
		}
		t.Failf("%s: %v", what, r.err)
	}
	w, _ := r.val.([]uint16)
	ok := len(w) == q
	for i := 0; ok && i < q; i++ {
		ok = w[i] == regFn(a+i)
	}
	if !ok {
		t.Failf("%s: registers %d+%d read as %v", what, a, q, w)
	}
}

// isolateReverse: callbacks and handlers of reverse servers that are stuck or
// use the API.
func isolateReverse(t *T) {
	g := newGate()
	var sps []*modbus.TCPServerSpecial
	t.Cleanup(func() {
		g.open()
		for _, sp := range sps {
			_ = sp.Close()
		}
	})
	mk := func() (*modbus.TCPServerSpecial, *master, *unit) {
		sp := modbus.NewTCPServerSpecial()
		sp.SetReadTimeout(longTime)
		sp.SetReconnectInterval(5 * time.Millisecond)
		stuckHandlers(sp, g)
		u := smallUnit(t, 1)
		sp.AddNodes(u.nd)
		m := newMaster(t, freshAddr())
		m.up(t)
		if err := sp.AddRemoteServer(m.addr); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		sps = append(sps, sp)
		return sp, m, u
	}
	take := func(m *master) *conn {
		c := m.next(wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("no connection")
		}
		t.Cleanup(func() { rst(c) })
		return &conn{Conn: c}
	}
	run := func(sp *modbus.TCPServerSpecial) {
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
	}
	// the stuck one
	sp, m, u := mk()
	before := g.in.Load()
	where := t.Intn(4)
	name := []string{"connect handler", "lost handler", "keep alive handler", "function handler"}[where]
	switch where {
	case 0:
		sp.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error { g.pass(); return nil })
	case 1:
		sp.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { g.pass() })
	case 2:
		sp.SetKeepAlive(true, time.Millisecond, func(*modbus.TCPServerSpecial) { g.pass() })
	}
	run(sp)
	c := take(m)
	switch where {
	case 1:
		r := req{3, u16b(u.m.HoldStart, 1)}
		judge(t, u.m, r, c.exchange(t, 1, r))
		rst(c)
	case 3:
		if _, err := c.Write(model.TCP(9, 1, []byte{100, 5})); err != nil {
			t.Failf("send: %v", err)
		}
	}
	eventually(t, promptly, "the "+name+" is called", func() bool { return g.in.Load() > before })
	t.Note("reverse server: the %s is stuck", name)
	t.Class("stuck " + name)
	// another one
	sp2, m2, u2 := mk()
	var apiErr atomic.Value
	var closeMu sync.RWMutex
	var closing atomic.Bool
	api := func(x *modbus.TCPServerSpecial, in string) {
		if x != sp2 {
			apiErr.Store(in + ": called with another server")
		}
		_ = x.IsConnected()
		if x.IsClosed() {
			apiErr.Store(in + ": IsClosed")
		}
		closeMu.RLock()
		if !closing.Load() { // a Start after Close counts
			if err := x.Start(); err != nil {
				apiErr.Store(in + ": Start: " + err.Error())
			}
		}
		closeMu.RUnlock()
		_ = x.UnderlyingConn().LocalAddr()
		x.AddNodes(modbus.NewNodeRegister(77, 0, 1, 0, 1, 0, 1, 0, 1))
		x.DeleteNode(77)
		if n := len(x.GetNodeList()); n < 1 {
			apiErr.Store(in + ": no units")
		}
	}
	closeIn := t.Intn(4) // where it closes itself in the end, 0: nowhere
	sp2.SetOnConnectHandler(func(x *modbus.TCPServerSpecial) error { api(x, "connect handler"); return nil })
	sp2.SetConnectionLostHandler(func(x *modbus.TCPServerSpecial) {
		api(x, "lost handler")
		if closeIn == 1 && closing.Load() {
			_ = x.Close()
		}
	})
	var beats atomic.Int32
	sp2.SetKeepAlive(true, 2*time.Millisecond, func(x *modbus.TCPServerSpecial) {
		_ = x.IsConnected()
		_ = x.GetNodeList()
		beats.Add(1)
		if closeIn == 2 && closing.Load() {
			_ = x.Close()
		}
	})
	sp2.RegisterFunctionHandler(103, func(_ *modbus.NodeRegister, d []byte) ([]byte, error) {
		api(sp2, "function handler")
		if closeIn == 3 && closing.Load() {
			_ = sp2.Close()
		}
		return []byte{1}, nil
	})
	run(sp2)
	c2 := take(m2)
	t.Repeat(2, 8, func(int) {
		soon(t, "access to a unit's registers", func() { nodeOp(t, u2.nd, u2.m) })
		r := genRequest(t, u2.m)
		if r.fc >= 100 && r.fc <= 103 {
			r.fc = 99
		}
		judge(t, u2.m, r, c2.exchange(t, 1, r))
		if p := c2.exchange(t, 1, req{103, []byte{1}}); !bytes.Equal(p, []byte{103, 1}) {
			t.Failf("handler that uses the API: reply %s", hx(p))
		}
		t.Sub(2)
	})
	b := beats.Load()
	eventually(t, promptly, "the keep alive handler is called again", func() bool { return beats.Load() > b })
	// the stuck one's units stay usable for the application
	soon(t, "access to the registers of a server that is stuck in its "+name, func() { nodeOp(t, u.nd, u.m) })
	soon(t, "use of a server that is stuck in its "+name, func() {
		if sp.IsClosed() {
			t.Failf("IsClosed while stuck in the %s", name)
		}
		if len(sp.GetNodeList()) != 1 {
			t.Failf("%d units", len(sp.GetNodeList()))
		}
		if conn := sp.IsConnected(); conn != (where >= 2) {
			t.Failf("IsConnected %v while stuck in the %s", conn, name)
		}
	})
	if where == 2 { // and it goes on serving
		r := req{3, u16b(u.m.HoldStart, 1)}
		judge(t, u.m, r, c.exchange(t, 1, r))
	}
	closeMu.Lock()
	closing.Store(true)
	closeMu.Unlock()
	t.Note("the other one is closed from within handler %d", closeIn)
	switch closeIn {
	case 0:
		soon(t, "Close", func() { _ = sp2.Close() })
	case 1:
		rst(c2)
	case 3:
		_, _ = c2.Write(model.TCP(1, 1, []byte{103}))
	}
	eventually(t, promptly, fmt.Sprintf("IsClosed after Close (%d)", closeIn), sp2.IsClosed)
	if e, _ := apiErr.Load().(string); e != "" {
		t.Failf("%s", e)
	}
	if t.Bool() { // Close does not wait for the stuck one
		soon(t, "Close of a server that is stuck in its "+name, func() { _ = sp.Close() })
		g.open()
		eventually(t, promptly, "IsClosed", sp.IsClosed)
	} else {
		g.open()
		switch where {
		case 1:
			c = take(m)
		case 3:
			f, err := c.recv(wait(t, promptly))
			if err != nil {
				t.FailTimeoutf("no reply from a handler that was stuck and returned: %v", err)
			}
			if want := model.TCP(9, 1, []byte{100, 5}); !bytes.Equal(f.raw, want) {
				t.Failf("reply of a handler that was stuck: %s, expected %s", hx(f.raw), hx(want))
			}
		}
		r := req{3, u16b(u.m.HoldStart, 1)}
		judge(t, u.m, r, c.exchange(t, 1, r))
	}
	t.NonTrivial()
}

func runIsolation(t *T) {
	switch t.Freq(6, 2, 3) {
	case 0:
		isolateServer(t)
	case 1:
		isolateClients(t)
	case 2:
		isolateReverse(t)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C30", Quick: 1200, Thorough: 20000, Workers: 16, Race: true, CaseMax: 120 * time.Second,
		Rule:   "a case is a server, a set of clients or a set of reverse servers some of whose connections, handlers, callbacks or calls are stuck until the case releases them, while others work; non-trivial: at least three steps of others were judged while something was stuck",
		Run:    runIsolation,
		Assume: []string{"not delayed means within 8 s, confirmed with three times that, while the stuck ones stay stuck for ever"},
	})
}

package props

import (
	"errors"
	"fmt"
	"net"
	"os"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C29: nothing is left behind ----

// libGoroutines counts the goroutines that run, or were started by, the library.
func libGoroutines() (int, string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	n := 0
	sample := ""
	for _, g := range strings.Split(string(buf), "\n\n") {
		if pbt.MentionsLib(g) {
			n++
			if len(g) > 700 {
				g = g[:700]
			}
			sample = g
		}
	}
	return n, sample
}

func fdCount() int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	return len(es)
}

// usage is what the process holds on behalf of the library.
type usage struct{ g, f int }

func usageNow() usage {
	g, _ := libGoroutines()
	return usage{g, fdCount()}
}

// becomes waits until the usage is not above the expected one (f < 0: not compared).
func becomes(t *T, what string, want usage) {
	end := time.Now().Add(wait(t, promptly))
	for {
		u := usageNow()
		if u.g <= want.g && (want.f < 0 || u.f <= want.f) {
			return
		}
		if time.Now().After(end) {
			_, s := libGoroutines()
			t.FailTimeoutf("%s: %d goroutines of the library and %d file descriptors, expected %d and %d; one of the goroutines:\n%s", what, u.g, u.f, want.g, want.f, s)
		}
		time.Sleep(time.Millisecond)
	}
}

// steady returns the usage once it has not changed for a while.
func steady() usage {
	u := usageNow()
	for same := 0; same < 4; {
		time.Sleep(2 * time.Millisecond)
		v := usageNow()
		if v == u {
			same++
		} else {
			u, same = v, 0
		}
	}
	return u
}

func liveHeap() int {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc)
}

func leakServer(t *T) {
	begin := steady()
	l := model.Layout{CN: 40, DN: 8, IN: 8, HN: 30}
	u := &unit{1, newNode(1, l), model.New(l)}
	fill(t, u.nd, u.m)
	srv := modbus.NewTCPServer()
	srv.AddNodes(u.nd)
	srv.RegisterFunctionHandler(100, func(_ *modbus.NodeRegister, d []byte) ([]byte, error) {
		if len(d) > 0 && d[0] == 1 {
			return nil, errors.New("no")
		}
		return d, nil
	})
	lives := t.Range(1, 3)
	for life := 0; life < lives; life++ {
		s := &server{TCPServer: srv, addr: freshAddr(), done: make(chan error, 1)}
		s.listen(t)
		t.Cleanup(s.stop)
		idle := steady() // the session of the dial that waited is over by then
		rounds := t.Range(1, 4)
		for r := 0; r < rounds; r++ {
			n := t.Range(1, 6)
			var cs []*conn
			for i := 0; i < n; i++ {
				c := dial(t, s.addr)
				cs = append(cs, c)
				rq := req{3, u16b(t.Intn(30), 1)}
				judge(t, u.m, rq, c.exchange(t, 1, rq))
			}
			before := steady()
			if before.f >= 0 && before.f > idle.f+2*n {
				t.FailTimeoutf("server: %d connections hold %d file descriptors", n, before.f-idle.f)
			}
			many := t.Range(5, 60)
			for i := 0; i < many; i++ {
				c := cs[t.Intn(len(cs))]
				switch t.Freq(6, 1, 1, 1) {
				case 0:
					rq := genRequest(t, u.m)
					for rq.fc == 100 {
						rq = genRequest(t, u.m)
					}
					judge(t, u.m, rq, c.exchange(t, 1, rq))
				case 1:
					c.exchange(t, 1, req{100, []byte{byte(t.Intn(2)), 2}})
				case 2: // nobody there, then an answer
					_, _ = c.Write(model.TCP(7, 9, u16bPDU(3, 0, 1)))
				case 3: // another protocol
					_, _ = c.Write([]byte{0, 1, 0, 9, 0, 6, 1, 3, 0, 0, 0, 1})
				}
			}
			// all are done with what they were sent
			for _, c := range cs {
				rq := req{3, u16b(0, 1)}
				judge(t, u.m, rq, c.exchange(t, 1, rq))
			}
			t.Sub(many)
			becomes(t, fmt.Sprintf("server: after %d more requests on %d connections", many, n), before)
			how := ""
			for _, c := range cs {
				k := t.Intn(7)
				how += " " + []string{"close", "reset", "half close", "close within a frame", "reset within a frame", "bad length", "half close within a frame"}[k]
				switch k {
				case 6:
					_, _ = c.Write(model.TCP(1, 1, u16bPDU(3, 0, 1))[:t.Range(1, 11)])
					_ = c.Conn.(*net.TCPConn).CloseWrite()
					if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
						t.FailTimeoutf("server: a connection half closed by its client within a frame stays open")
					}
					c.Close()
				case 0:
					c.Close()
				case 1:
					rst(c.Conn)
				case 2:
					_ = c.Conn.(*net.TCPConn).CloseWrite()
					if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
						t.FailTimeoutf("server: a connection closed by its client stays open")
					}
					c.Close()
				case 3, 4:
					_, _ = c.Write(model.TCP(1, 1, u16bPDU(3, 0, 1))[:t.Range(1, 11)])
					if k == 3 {
						c.Close()
					} else {
						rst(c.Conn)
					}
				case 5:
					_, _ = c.Write([]byte{0, 1, 0, 0, 0xff, 0xff, 1, 3, 0})
					if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
						t.FailTimeoutf("server: a connection with an impossible length stays open")
					}
					c.Close()
				}
			}
			t.Note("server: %d connections, %d requests, ended by%s", n, many, how)
			becomes(t, fmt.Sprintf("server: after %d connections had ended (%s)", n, how), idle)
		}
		var left []*conn
		for i := t.Intn(4); i > 0; i-- { // still there when it closes
			left = append(left, dial(t, s.addr))
		}
		if len(left) > 0 && t.Bool() {
			rq := req{3, u16b(0, 1)}
			judge(t, u.m, rq, left[0].exchange(t, 1, rq))
		}
		t.Note("server: closed with %d connections", len(left))
		within(t, promptly, "Close", func() { _ = srv.Close() })
		for _, c := range left {
			if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
				t.FailTimeoutf("server: a connection stays open after Close")
			}
			rst(c.Conn)
		}
		becomes(t, "server: after Close", begin)
	}
}

func leakClient(t *T) {
	begin := steady()
	kind := genKind(t, 6, 1, 1)
	to := wait(t, 60*time.Millisecond)
	var cli modbus.Client
	var p *peer
	if kind == TCP {
		p = newPeer(t)
		begin = steady()
		cli = modbus.NewClient(modbus.NewTCPClientProvider(p.addr, modbus.WithTCPTimeout(to)))
	} else {
		m, path := openPty(t)
		t.Cleanup(func() { m.Close() })
		slaveOn(t, m, kind, answerLife)
		begin = steady()
		cfg := modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: to})
		if kind == RTU {
			cli = modbus.NewClient(modbus.NewRTUClientProvider(cfg))
		} else {
			cli = modbus.NewClient(modbus.NewASCIIClientProvider(cfg))
		}
	}
	t.Cleanup(func() { closeQuietly(cli) })
	t.Class("client " + kindName[kind])
	n := t.Range(1, 4)
	silent := 0
	for k := 0; k < n; k++ {
		calls := 0
		t.Repeat(1, 12, func(int) {
			a := t.OneOf(0, 100, 700, aExc, aBad, aSilent)
			if a == aSilent {
				if silent++; silent > 2 {
					a = aExc
				}
			}
			switch t.Freq(5, 1, 1) {
			case 0:
				_, _ = cli.ReadHoldingRegisters(1, uint16(a+t.Intn(50)), 2)
			case 1:
				_ = cli.Connect()
			case 2:
				if kind == TCP {
					for _, c := range p.conns() {
						c.Close()
					}
				}
			}
			calls++
		})
		t.Note("%s client: %d operations, then Close", kindName[kind], calls)
		if err := cli.Close(); err != nil && kind != TCP {
			t.Failf("Close: %v", err)
		}
		becomes(t, fmt.Sprintf("%s client: after %d operations and Close", kindName[kind], calls), begin)
		t.Sub(calls)
	}
	if kind == TCP { // and no connection: nothing may be left of failed attempts
		p.down()
		begin = steady()
		for i := t.Range(1, 5); i > 0; i-- {
			if err := cli.Connect(); err == nil {
				t.Failf("Connect without a server succeeded")
			}
			if _, err := cli.ReadCoils(1, 0, 1); err == nil {
				t.Failf("a call without a server succeeded")
			}
		}
		becomes(t, "TCP client: after failed attempts to connect", begin)
	}
}

func (p *peer) conns() []net.Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	var l []net.Conn
	for c := range p.open {
		l = append(l, c)
	}
	return l
}

func leakReverse(t *T) {
	sp := modbus.NewTCPServerSpecial()
	u := smallUnit(t, 1)
	sp.AddNodes(u.nd)
	sp.SetReconnectInterval(10 * time.Millisecond)
	var refuse, on, lost atomic.Int32
	sp.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error {
		on.Add(1)
		if refuse.Add(-1) >= 0 {
			return errors.New("no")
		}
		return nil
	})
	sp.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { lost.Add(1) })
	keep := t.Bool()
	if keep {
		sp.SetKeepAlive(true, time.Duration(t.OneOf(3, 1000))*time.Millisecond, nil)
	}
	begin := steady()
	m := newMaster(t, freshAddr())
	m.up(t)
	var all []net.Conn
	if err := sp.AddRemoteServer(m.addr); err != nil {
		t.Failf("AddRemoteServer: %v", err)
	}
	t.Cleanup(func() { _ = sp.Close() })
	t.Class(fmt.Sprintf("reverse, keep alive %v", keep))
	lives := t.Range(1, 2)
	for life := 0; life < lives; life++ {
		nRef := t.Freq(2, 1) * t.Range(1, 5)
		refuse.Store(int32(nRef))
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		for i := 0; i < nRef; i++ {
			c := m.next(wait(t, promptly))
			if c == nil {
				t.FailTimeoutf("no connection")
			}
			if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
				t.FailTimeoutf("a refused connection stays open")
			}
			c.Close()
		}
		var first usage
		losses := t.Range(0, 2)
		for k := 0; ; k++ {
			nc := m.next(wait(t, promptly))
			if nc == nil {
				t.FailTimeoutf("no connection")
			}
			t.Cleanup(func() { rst(nc) })
			all = append(all, nc)
			c := &conn{Conn: nc}
			rq := req{3, u16b(u.m.HoldStart, 1)}
			judge(t, u.m, rq, c.exchange(t, 1, rq))
			if k == 0 {
				first = steady()
			} else {
				becomes(t, fmt.Sprintf("reverse server: connected again after %d losses (keep alive %v)", k, keep), first)
			}
			if k >= losses {
				break
			}
			if t.Bool() {
				_, _ = nc.Write([]byte{0, 1, 0, 0, 0xff, 0xff, 1, 3})
				_, _ = drain(nc, wait(t, promptly))
			}
			nc.Close()
		}
		t.Note("reverse server: %d refusals, %d losses, keep alive %v, then Close", nRef, losses, keep)
		_ = sp.Close()
		eventually(t, promptly, "IsClosed", sp.IsClosed)
		for c := m.next(0); c != nil; c = m.next(0) {
			c.Close()
		}
		// the last connection of the master is still open here
		becomes(t, "reverse server: after Close", usage{0, -1})
	}
	m.down()
	for _, c := range all {
		c.Close()
	}
	becomes(t, "reverse server: in the end", begin)
}

// leakMemory: requests do not add up.
func leakMemory(t *T) {
	n := 8000
	if t.Tier == pbt.Thorough {
		n = 30000
	}
	l := model.Layout{CN: 2000, DN: 8, IN: 8, HN: 125}
	u := &unit{1, newNode(1, l), model.New(l)}
	srv := modbus.NewTCPServer()
	srv.AddNodes(u.nd)
	s := startServer(t, srv)
	cli := modbus.NewClient(modbus.NewTCPClientProvider(s.addr, modbus.WithTCPTimeout(wait(t, 8*time.Second))))
	t.Cleanup(func() { closeQuietly(cli) })
	mode := t.Intn(7)
	one := func(i int) {
		var err error
		switch mode {
		case 0:
			_, err = cli.ReadHoldingRegisters(1, 0, 125)
		case 1:
			err = cli.WriteMultipleCoils(1, 0, 1000, make([]byte, 125))
		case 2:
			if _, e := cli.ReadCoils(1, 3000, 9); e == nil {
				t.Failf("no exception")
			}
		case 3:
			if i%10 == 0 {
				_ = cli.Close()
			}
			_, err = cli.ReadCoils(1, 0, 2000)
		case 4: // refused by the client
			if e := cli.WriteMultipleCoils(1, 0, 1000, make([]byte, 12)); e == nil {
				t.Failf("a call that needs 125 bytes took 12")
			}
		case 5: // functions and units come and go
			srv.RegisterFunctionHandler(byte(100+i%20), func(*modbus.NodeRegister, []byte) ([]byte, error) { return []byte{byte(i)}, nil })
			srv.AddNodes(modbus.NewNodeRegister(byte(2+i%9), 0, 8, 0, 8, 0, 8, 0, 8))
			if i%3 == 0 {
				srv.DeleteNode(byte(2 + i/3%9))
			}
			if x, e := cli.SendPdu(1, []byte{byte(100 + i%20)}); e != nil || x[1] != byte(i) {
				t.Failf("own handler: %x, %v", x, e)
			}
		case 6: // an exception of another function, by raw PDU
			if _, e := cli.SendPdu(1, []byte{0x30, byte(i)}); e == nil {
				t.Failf("no exception")
			}
		}
		if err != nil {
			if isTimeout(err) {
				t.FailTimeoutf("call %d: %v", i, err)
			}
			t.Failf("call %d: %v", i, err)
		}
	}
	for i := 0; i < 300; i++ {
		one(i)
	}
	a := liveHeap()
	for i := 0; i < n; i++ {
		one(i)
	}
	b := liveHeap()
	t.Note("memory: mode %d, %d requests", mode, n)
	t.Class("memory")
	t.Sub(n)
	// a request and its response are hundreds of bytes: keeping even a few of
	// each shows
	if limit := n*6 + 100<<10; b-a > limit {
		t.FailTimeoutf("memory in use grew by %d bytes over %d requests (mode %d)", b-a, n, mode)
	}
}

func runLeaks(t *T) {
	t.NonTrivial()
	for i := 0; i < 2000; i++ { // what the case before left to end
		if n, _ := libGoroutines(); n == 0 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	switch t.Freq(6, 6, 2, 1) {
	case 0:
		leakServer(t)
	case 1:
		leakClient(t)
	case 2:
		leakReverse(t)
	case 3:
		leakMemory(t)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C29", Quick: 300, Thorough: 5000, Workers: 1, CaseMax: 90 * time.Second,
		Rule:   "a case is a server, a client or a reverse server put through generated connections, requests, faults, ends, losses and closes, or a long series of requests; goroutines of the library, file descriptors and memory of the process are counted before, between and after; always non-trivial",
		Run:    runLeaks,
		Assume: []string{"one case at a time, so that what the process holds can be counted; time for things to end is allowed (8 s, confirmed with three times that)"},
	})
}

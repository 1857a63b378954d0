package props

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"sync"
	"sync/atomic"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// closing prompts: far above what an orderly stop takes, far below the read
// timeout (60 s) of the server.
const promptly = 8 * time.Second

// busyClient writes ever new values to its own register until its connection ends.
type busyClient struct {
	c     *conn
	addr  int
	acked atomic.Int64 // last value confirmed
	sent  atomic.Int64
	err   string // a wrong reply
	done  chan struct{}
}

func (b *busyClient) run(t *T, unit byte) {
	defer close(b.done)
	for v := int(b.acked.Load()) + 1; v < 65000; v++ {
		r := req{6, u16b(b.addr, v)}
		b.c.tid++
		b.sent.Store(int64(v))
		if _, err := b.c.Write(model.TCP(b.c.tid, unit, r.pdu())); err != nil {
			return
		}
		f, err := b.c.recv(wait(t, 20*time.Second))
		if err != nil {
			if isTimeout(err) {
				b.err = "no reply and no end of the connection"
			}
			return
		}
		if f.tid != b.c.tid || f.unit != unit || !bytes.Equal(f.pdu, r.pdu()) {
			b.err = fmt.Sprintf("request %s (tid %d): reply %s", hx(r.pdu()), b.c.tid, hx(f.raw))
			return
		}
		b.acked.Store(int64(v))
	}
}

func runServerLife(t *T) {
	srv := modbus.NewTCPServer()
	id := byte(t.Range(1, 247))
	const nReg = 20
	l := model.Layout{CN: t.Range(1, 40), DN: 8, IN: 8, HN: nReg + 8}
	u := &unit{id, newNode(id, l), model.New(l)}
	fill(t, u.nd, u.m)
	for i := 0; i < nReg; i++ { // the registers of the busy clients
		u.m.Hold[i] = 0
		if err := u.nd.WriteHoldings(uint16(i), []uint16{0}); err != nil {
			t.Failf("WriteHoldings: %v", err)
		}
	}
	srv.AddNodes(u.nd)
	s := &server{TCPServer: srv, addr: freshAddr(), done: make(chan error, 1)}
	if t.Chance(1, 3) {
		t.Note("Close before the start")
		within(t, promptly, "Close of a server that never ran", func() { _ = srv.Close() })
	}
	closeFailed := func() { // there is nothing to end
		if t.Chance(1, 2) {
			t.Note("Close after that")
			within(t, promptly, "Close of a server that could not be started", func() { _ = srv.Close() })
		}
	}
	if t.Chance(1, 4) { // a busy address is refused, the server can be started elsewhere
		t.Note("start on a busy address")
		ln, err := net.Listen("tcp", s.addr)
		if err != nil {
			t.Envf("listen: %v", err)
		}
		var e error
		within(t, promptly, "ListenAndServe on a busy address", func() { e = srv.ListenAndServe(s.addr) })
		ln.Close()
		if e == nil {
			t.Failf("ListenAndServe on a busy address returned no error")
		}
		closeFailed()
	}
	if t.Chance(1, 4) { // junk address
		a := []string{"127.0.0.1:99999", "no-port"}[t.Intn(2)]
		t.Note("start on %s", a)
		var e error
		within(t, promptly, "ListenAndServe on a bad address", func() { e = srv.ListenAndServe(a) })
		if e == nil {
			t.Failf("ListenAndServe(%q) returned no error", a)
		}
		closeFailed()
	}
	s.listen(t)
	t.Cleanup(func() { s.stop() })
	same := t.Bool() // restart on the same address
	rounds := t.Range(1, 4)
	kinds := map[string]int{}
	for round := 0; round < rounds; round++ {
		var idle []*conn
		var busy []*busyClient
		desc := ""
		t.Repeat(0, 6, func(int) {
			c := dial(t, s.addr)
			k := t.Freq(3, 3, 2, 3, 1, 1)
			name := []string{"silent", "used", "mid-frame", "busy", "gone", "deaf"}[k]
			desc += " " + name
			kinds[name]++
			switch k {
			case 1, 2:
				for i := t.Range(0, 3); i >= 0; i-- {
					r, ok := genValid(t, u.m, []byte{1, 2, 3, 4}[t.Intn(4)])
					if ok {
						judge(t, u.m, r, c.exchange(t, id, r))
					}
				}
				if k == 2 {
					b := model.TCP(9, id, u16bPDU(3, 0, 1))
					_, _ = c.Write(b[:t.Range(1, len(b)-1)])
				}
			case 3:
				if len(busy) < nReg {
					b := &busyClient{c: c, addr: len(busy), done: make(chan struct{})}
					b.acked.Store(int64(u.m.Hold[b.addr]))
					busy = append(busy, b)
					return
				}
			case 4:
				rst(c.Conn)
				return
			case 5: // asks and asks and never reads
				n := t.Range(1, 60)
				p := model.TCP(1, id, u16bPDU(3, 0, nReg))
				_ = c.SetWriteDeadline(time.Now().Add(50 * time.Millisecond))
				for i := 0; i < n; i++ {
					if _, err := c.Write(bytes.Repeat(p, 500)); err != nil {
						break
					}
				}
			}
			idle = append(idle, c)
		})
		for _, b := range busy {
			go b.run(t, id)
		}
		if len(busy) > 0 {
			time.Sleep(time.Duration(t.Range(0, 4000)) * time.Microsecond)
		}
		nClose := t.Freq(4, 1, 1) + 1
		t.Note("round %d: clients%s; %d concurrent Close", round, desc, nClose)
		var wg sync.WaitGroup
		within(t, promptly, fmt.Sprintf("round %d: Close with clients%s", round, desc), func() {
			for i := 0; i < nClose; i++ {
				wg.Add(1)
				go func() { defer wg.Done(); _ = srv.Close() }()
			}
			wg.Wait()
		})
		// nothing is served any more: what the registers hold now they keep
		after := make([]uint16, len(busy))
		for i, b := range busy {
			v, err := u.nd.ReadHoldings(uint16(b.addr), 1)
			if err != nil {
				t.Failf("ReadHoldings: %v", err)
			}
			after[i] = v[0]
		}
		select {
		case <-s.done:
		case <-time.After(wait(t, promptly)):
			t.FailTimeoutf("round %d: ListenAndServe did not return after Close", round)
		}
		if t.Chance(1, 3) {
			within(t, promptly, "second Close", func() { _ = srv.Close() })
			t.Note("closed again")
		}
		if c, err := net.DialTimeout("tcp", s.addr, wait(t, time.Second)); err == nil {
			rst(c)
			t.Failf("round %d: the server still accepts connections after Close", round)
		}
		for i, c := range idle {
			if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
				t.FailTimeoutf("round %d: client %d (%s) does not see the end of its connection after Close", round, i, desc)
			}
			rst(c.Conn)
		}
		for i, b := range busy {
			select {
			case <-b.done:
			case <-time.After(wait(t, 25*time.Second)):
				t.FailTimeoutf("round %d: busy client %d neither served nor disconnected", round, i)
			}
			if b.err != "" {
				t.Failf("round %d: busy client %d: %s", round, i, b.err)
			}
			rst(b.c.Conn)
			v, err := u.nd.ReadHoldings(uint16(b.addr), 1)
			if err != nil {
				t.Failf("ReadHoldings: %v", err)
			}
			if v[0] != after[i] {
				t.Failf("round %d: register %d changed from %d to %d after Close had returned", round, b.addr, after[i], v[0])
			}
			if a, n := b.acked.Load(), b.sent.Load(); int64(v[0]) != a && int64(v[0]) != n {
				t.Failf("round %d: register %d = %d after Close; the client had %d confirmed and %d under way", round, b.addr, v[0], a, n)
			}
			u.m.Hold[b.addr] = v[0]
		}
		if d := diffOf(t, u); d != "" {
			t.Failf("round %d: after Close: %s", round, d)
		}
		t.Sub(1)
		// start again, at once
		if t.Chance(1, 4) {
			t.Note("round %d: start on a bad address", round)
			var e error
			within(t, promptly, "ListenAndServe on a bad address", func() { e = srv.ListenAndServe("127.0.0.1:99999") })
			if e == nil {
				t.Failf("ListenAndServe on a bad address returned no error")
			}
			closeFailed()
		}
		if !same {
			s.addr = freshAddr()
		}
		s.listen(t)
		c := dial(t, s.addr)
		for i := 0; i < 3; i++ {
			r, ok := genValid(t, u.m, validFC[t.Intn(len(validFC))])
			if ok {
				judge(t, u.m, r, c.exchange(t, id, r))
			}
		}
		if d := diffOf(t, u); d != "" {
			t.Failf("round %d: after the restart: %s", round, d)
		}
		if t.Bool() {
			rst(c.Conn)
		}
		// busy registers may have been written by the requests above
	}
	for k, n := range kinds {
		for i := 0; i < n; i++ {
			t.Class(k)
		}
	}
	if len(kinds) > 0 {
		t.NonTrivial()
	}
}

func u16bPDU(fc byte, v ...int) []byte { return append([]byte{fc}, u16b(v...)...) }

// drain reads until the connection ends.
func drain(c net.Conn, d time.Duration) (int, error) {
	_ = c.SetReadDeadline(time.Now().Add(d))
	n := 0
	buf := make([]byte, 64<<10)
	for {
		k, err := c.Read(buf)
		n += k
		if err != nil {
			if err == io.EOF {
				err = nil
			}
			return n, err
		}
	}
}

// runIdle: the read timeout ends silent connections, and only those.
func runIdle(t *T) {
	srv := modbus.NewTCPServer()
	to := wait(t, 600*time.Millisecond)
	if t.Bool() {
		srv.SetReadTimeout(to).SetWriteTimeout(wait(t, 5*time.Second))
	} else {
		srv.SetWriteTimeout(wait(t, 5*time.Second)).SetReadTimeout(to)
	}
	u := smallUnit(t, 1)
	srv.AddNodes(u.nd)
	s := startServer(t, srv)
	active := dial(t, s.addr)
	active.soft = true
	var silent []*conn
	n := t.Range(1, 4)
	for i := 0; i < n; i++ {
		c := dial(t, s.addr)
		if t.Bool() {
			b := model.TCP(9, 1, u16bPDU(3, 0, 1))
			_, _ = c.Write(b[:t.Range(1, len(b)-1)])
		}
		silent = append(silent, c)
	}
	t.Note("read timeout %v, %d silent connections, one active", to, n)
	t.Class("read timeout")
	t.NonTrivial()
	begin := time.Now()
	for time.Since(begin) < 3*to {
		r, ok := genValid(t, u.m, validFC[t.Intn(len(validFC))])
		if ok {
			judge(t, u.m, r, active.exchange(t, 1, r))
		}
		time.Sleep(to / 8)
	}
	for i, c := range silent {
		if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
			t.FailTimeoutf("silent connection %d is still open long after the read timeout of %v", i, to)
		}
	}
	if d := diffOf(t, u); d != "" {
		t.Failf("%s", d)
	}
}

// runFirstMoment: Close as soon as the server accepts connections.
func runFirstMoment(t *T) {
	u := smallUnit(t, 1)
	n := t.Range(1, 40)
	t.Note("%d times: start, connect, close at once", n)
	t.Class("closed as soon as it accepts")
	t.NonTrivial()
	srv := modbus.NewTCPServer()
	srv.AddNodes(u.nd)
	addr := freshAddr()
	for i := 0; i < n; i++ {
		s := &server{TCPServer: srv, addr: addr, done: make(chan error, 1)}
		go func() { s.done <- srv.ListenAndServe(addr) }()
		end := time.Now().Add(wait(t, 10*time.Second))
		var c net.Conn
		for k := 0; c == nil; k++ {
			c, _ = net.DialTimeout("tcp", addr, wait(t, time.Second))
			select {
			case err := <-s.done:
				t.Failf("start %d: ListenAndServe returned %v", i, err)
			default:
			}
			if c == nil && time.Now().After(end) {
				t.Envf("the server does not accept on %s", addr)
			}
			if k > 1000 {
				time.Sleep(100 * time.Microsecond)
			}
		}
		within(t, promptly, "Close", func() { _ = srv.Close() })
		select {
		case <-s.done:
		case <-time.After(wait(t, promptly)):
			t.Cleanup(func() { s.stop() })
			if x, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
				x.Close()
				t.Failf("start %d: Close was called when the server had accepted a connection; it has returned, but the server goes on", i)
			}
			if never(s.done) {
				t.Failf("start %d: Close has returned, but ListenAndServe has not within %v and %d s more", i, wait(t, promptly), patience)
			}
			t.FailTimeoutf("start %d: Close was called when the server had accepted a connection; it returned, but ListenAndServe has not returned within %v", i, wait(t, promptly))
		}
		if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
			t.FailTimeoutf("start %d: a connection is open after Close", i)
		}
		c.Close()
		if x, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			x.Close()
			t.Failf("start %d: Close has returned, but the server still accepts", i)
		}
		t.Sub(1)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C17", Quick: 2000, Thorough: 20000, Workers: 16, Race: true, CaseMax: 180 * time.Second,
		Rule: "a case is a server (race-detector build) that is started, used and closed 1-4 times with up to 6 clients that are silent, stuck within a frame, writing all the time, gone or not reading, Close called once or several times at once, restarted at once on the same or another address; or closed as soon as it has accepted the first connection, up to 40 times in a row; or one with a short read timeout; non-trivial = there was a client",
		Run: func(t *T) {
			switch t.Freq(17, 1, 2) {
			case 0:
				runServerLife(t)
			case 1:
				runIdle(t)
			case 2:
				runFirstMoment(t)
			}
		},
		Assume: []string{"Close called while ListenAndServe does not accept connections yet is not covered", "time limits are confirmed with three times the budget before a violation is reported"},
	})
}

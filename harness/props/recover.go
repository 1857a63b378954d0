package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// incoming is a request that reached the played server.
type incoming struct {
	c   net.Conn
	raw []byte
}

// station is a played TCP server: it accepts, collects requests, answers only
// what the script tells it to.
type station struct {
	addr string
	in   chan incoming
	mu   sync.Mutex
	ln   net.Listener
	gone chan struct{} // the accept loop has ended
	all  map[net.Conn]bool
	n    int // connections accepted so far
	junk string
}

func newStation(t *T) *station {
	s := &station{addr: freshAddr(), in: make(chan incoming, 64), all: map[net.Conn]bool{}}
	s.up(t)
	t.Cleanup(func() { s.down(true) })
	return s
}

func (s *station) up(t *T) {
	ln, err := net.Listen("tcp", s.addr)
	if err != nil {
		t.Envf("listen %s: %v", s.addr, err)
	}
	s.mu.Lock()
	gone := make(chan struct{})
	s.ln, s.gone = ln, gone
	s.mu.Unlock()
	go func() {
		defer close(gone)
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.all[c] = true
			s.n++
			s.mu.Unlock()
			go s.read(c)
		}
	}()
}

func (s *station) read(c net.Conn) {
	defer s.drop(c, false)
	for {
		h := make([]byte, 7)
		if n, err := io.ReadFull(c, h); err != nil {
			if n > 0 {
				s.note("request cut off after " + hx(h[:n]))
			}
			return
		}
		l := be(h, 4) - 1
		if be(h, 2) != 0 || l < 1 || l > 253 {
			s.note("request header " + hx(h))
			return
		}
		p := make([]byte, l)
		if _, err := io.ReadFull(c, p); err != nil {
			s.note("request cut off within its body")
			return
		}
		s.in <- incoming{c, append(h, p...)}
	}
}

func (s *station) note(x string) {
	s.mu.Lock()
	if s.junk == "" {
		s.junk = x
	}
	s.mu.Unlock()
}

func (s *station) drop(c net.Conn, reset bool) {
	s.mu.Lock()
	delete(s.all, c)
	s.mu.Unlock()
	if reset {
		rst(c)
	} else {
		c.Close()
	}
}

func (s *station) conns() []net.Conn {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []net.Conn
	for c := range s.all {
		l = append(l, c)
	}
	return l
}

func (s *station) down(reset bool) {
	s.mu.Lock()
	ln, gone := s.ln, s.gone
	s.mu.Unlock()
	ln.Close()
	<-gone
	for _, c := range s.conns() {
		s.drop(c, reset)
	}
}

func (s *station) write(c net.Conn, b []byte) {
	_ = c.SetWriteDeadline(time.Now().Add(3 * time.Second))
	_, _ = c.Write(b)
}

var tcpFaults = []string{"none", "silence", "late", "close", "reset", "partial header", "partial body", "bad length", "wrong tid", "wrong protocol",
	"wrong unit", "wrong function", "previous answer", "previous answer, then the right one", "wrong unit, then the right one", "duplicate", "unsolicited after", "close after", "reset after", "down", "app closes"}

func runRecoverTCP(t *T) {
	st := newStation(t)
	to := wait(t, 350*time.Millisecond)
	cl := modbus.NewClient(modbus.NewTCPClientProvider(st.addr, modbus.WithTCPTimeout(to)))
	t.Cleanup(func() { closeQuietly(cl) })
	budget := 4*to + wait(t, 5*time.Second)
	if t.Bool() {
		if err := cl.Connect(); err != nil {
			t.Failf("Connect: %v", err)
		}
	}
	var prev []byte // the previous request's right answer
	allowed := 0    // failures excused by what the server did between the calls
	faults := 0
	ghosts := map[string]bool{}
	step := func(i int, fault string) {
		c := genCall(t, true, true, byte(t.Range(1, 247)))
		for c.fc != 3 && c.fc != 4 && c.fc != 1 && t.Bool() { // mostly reads
			c = genCall(t, true, true, c.unit)
		}
		data := c.good(t)
		want, _ := c.parse(data)
		variant, variant2, cutAt := t.Intn(3), t.Intn(4), t.Intn(256)
		t.Note("%s, fault: %s (%d,%d,%d)", c, fault, variant, variant2, cutAt)
		t.Class(fault)
		t.Sub(1)
		what := fmt.Sprintf("step %d (%s): %s", i, fault, c)
		for { // nothing may be left of earlier calls
			select {
			case x := <-st.in:
				if ghosts[string(x.raw[6:])] {
					continue
				}
				t.Failf("%s: request %s reached the server though no call is under way", what, hx(x.raw))
			default:
			}
			break
		}
		if fault == "down" {
			st.down(variant == 0)
			allowed = 1
			for k := 0; k <= variant2; k++ {
				r := await(t, start(func() (any, error) { return c.do(cl) }), budget, what)
				if r.err == nil {
					t.Failf("%s: success, %s, though the server is down", what, valText(r.val))
				}
				allowed = 0
			}
			st.up(t)
			return
		}
		if fault == "app closes" {
			if err := cl.Close(); err != nil && allowed == 0 {
				t.Failf("%s: Close: %v", what, err)
			}
			if cl.IsConnected() {
				t.Failf("%s: connected after Close", what)
			}
			allowed = 0
			return
		}
		ch := start(func() (any, error) { return c.do(cl) })
		var rq incoming
		var r result
		ended := false
		me := string(append([]byte{c.unit}, c.pdu()...))
	again:
		select {
		case rq = <-st.in:
			if x := string(rq.raw[6:]); x != me && ghosts[x] {
				rq = incoming{}
				goto again
			}
		case r = <-ch:
			ended = true
			select {
			case rq = <-st.in:
			case <-time.After(5 * time.Millisecond):
			}
			if rq.raw == nil || string(rq.raw[6:]) != me {
				ghosts[me] = true // the request of a call that failed at once may be seen late
			}
		case <-time.After(budget):
			t.FailTimeoutf("%s: no request and no result", what)
		}
		if rq.raw != nil && !ended {
			if w := frameADU(TCP, uint16(be(rq.raw, 0)), c.unit, c.pdu()); !bytes.Equal(w, rq.raw) {
				t.Failf("%s: request %s, expected %s", what, hx(rq.raw), hx(w))
			}
		}
		sentRight := false // a right answer is on its way
		mayFail := fault != "none"
		leave := 0
		var good []byte
		if rq.raw != nil && !ended {
			tid := uint16(be(rq.raw, 0))
			pdu := append([]byte{c.fc}, data...)
			good = frameADU(TCP, tid, c.unit, pdu)
			right := func() { st.write(rq.c, good); sentRight = true }
			end := func() { // how a cut off answer goes on
				switch variant {
				case 0:
					st.drop(rq.c, false)
				case 1:
					st.drop(rq.c, true)
				default: // stalls
				}
			}
			if prev == nil && strings.HasPrefix(fault, "previous") {
				prev = frameADU(TCP, tid-1, c.unit, append([]byte{c.fc}, c.good(t)...))
			}
			switch fault {
			case "none":
				right()
			case "silence", "late":
			case "close":
				st.drop(rq.c, false)
			case "reset":
				st.drop(rq.c, true)
			case "partial header":
				st.write(rq.c, good[:1+cutAt%6])
				end()
			case "partial body":
				st.write(rq.c, good[:7+cutAt%(len(good)-7)])
				end()
			case "bad length":
				b := append([]byte(nil), good...)
				l := []int{0, 255, 256, 65535, 1, 2, 3, 300}[(variant2+4*cutAt)%8]
				b[4], b[5] = byte(l>>8), byte(l)
				if variant > 0 {
					b = b[:7]
				} else if l > 0 && l < 4 { // the rest is left over
					leave = 1
				}
				if leave == 1 && cutAt%3 == 0 { // what is left looks like the beginning of the next answer
					b = append(b[:6+l:6+l], frameADU(TCP, tid+1, c.unit^byte(1+cutAt%7), append([]byte{3, 4}, b[:4]...))...)
				}
				st.write(rq.c, b)
			case "wrong tid":
				d := []uint16{1, 0xffff, 0x100, uint16(cutAt) | 0x8000}[variant2]
				st.write(rq.c, frameADU(TCP, tid+d, c.unit, pdu))
			case "wrong protocol":
				b := append([]byte(nil), good...)
				b[2+variant2%2] ^= byte(1 + cutAt%255)
				st.write(rq.c, b)
			case "wrong unit", "wrong unit, then the right one":
				b := frameADU(TCP, tid, c.unit^byte(1+cutAt%255), pdu)
				if strings.HasSuffix(fault, "one") {
					b = append(b, good...)
					sentRight, leave = true, 1
				}
				st.write(rq.c, b)
			case "wrong function":
				st.write(rq.c, frameADU(TCP, tid, c.unit, append([]byte{c.fc ^ byte(1+cutAt%127)}, data...)))
			case "previous answer":
				st.write(rq.c, prev)
			case "previous answer, then the right one":
				b := append(append([]byte(nil), prev...), good...)
				st.write(rq.c, b)
				sentRight, leave = true, 1
			case "duplicate":
				b := append([]byte(nil), good...)
				for k := 0; k <= variant; k++ {
					b = append(b, good...)
				}
				st.write(rq.c, b)
				sentRight, mayFail, leave = true, false, 1
			case "unsolicited after", "close after", "reset after":
				right()
				mayFail = false
			}
		}
		if !ended {
			r = await(t, ch, budget, what)
		}
		timeoutish := r.err != nil && (isTimeout(r.err) || errors.Is(r.err, os.ErrDeadlineExceeded))
		switch {
		case r.err == nil && !sentRight:
			t.Failf("%s: success with %s, though no right response was sent", what, valText(r.val))
		case r.err == nil && !c.same(r.val, want):
			t.Failf("%s: %s, the response to this request carries %s", what, valText(r.val), valText(want))
		case r.err == nil:
			if !cl.IsConnected() && fault != "close after" && fault != "reset after" {
				t.Failf("%s: not connected after a successful call", what)
			}
			allowed = 0
		case mayFail && rq.raw != nil:
			allowed = 0 // the client has noticed: no further excuse
		case allowed > 0:
			allowed = 0
		case timeoutish:
			t.FailTimeoutf("%s: failed although the server is healthy: %v", what, r.err)
		default:
			t.Failf("%s: failed although the server is healthy and the client had the chance to recover: %v", what, r.err)
		}
		if leave > 0 {
			allowed = leave
		}
		if good != nil {
			prev = good
		}
		if good == nil {
			return
		}
		// what the server does between the calls
		switch fault {
		case "late":
			time.Sleep(time.Duration(cutAt%20) * time.Millisecond)
			st.write(rq.c, good)
		case "unsolicited after":
			var b []byte
			switch variant2 {
			case 0: // the same answers again
				b = bytes.Repeat(good, variant+1)
			case 1: // a frame nobody asked for
				b = frameADU(TCP, uint16(be(good, 0))+uint16(100+cutAt), 0xff, []byte{0x7f, 1})
			default: // a piece of a frame
				b = good[:len(good)-1-cutAt%(len(good)-1)]
			}
			st.write(rq.c, b)
			allowed = 1
		case "close after":
			st.drop(rq.c, false)
			allowed = 1
		case "reset after":
			st.drop(rq.c, true)
			allowed = 1
		}
	}
	n := t.Repeat(1, 5, func(i int) {
		f := tcpFaults[t.Intn(len(tcpFaults))]
		if f != "none" {
			faults++
		}
		step(i, f)
	})
	// healthy again
	for k := 0; k < 3; k++ {
		step(n+k, "none")
	}
	if st.junk != "" {
		t.Failf("the server received %s", st.junk)
	}
	if faults > 0 {
		t.NonTrivial()
	}
}

// ---- serial ----

func runRecoverSerial(t *T, kind int) {
	l := newLink(t, kind, linkOpt{timeout: 400 * time.Millisecond})
	budget := 15 * time.Second
	faults := 0
	healthy := func() {
		c := genCall(t, true, true, genUnit(t))
		resp := c.good(t)
		want, _ := c.parse(resp)
		t.Note("%s healthy", c)
		ch := start(func() (any, error) { return c.do(l.cli) })
		l.requestOr(t, c, ch)
		l.send(t, frameADU(kind, 0, c.unit, append([]byte{c.fc}, resp...)), nil, 0)
		r := await(t, ch, budget, c.String())
		if r.err != nil {
			if errors.Is(r.err, serial.ErrTimeout) || isTimeout(r.err) {
				t.FailTimeoutf("%s %s: %v", kindName[kind], c, r.err)
			}
			t.Failf("%s %s: a healthy exchange failed: %v", kindName[kind], c, r.err)
		}
		if !c.same(r.val, want) {
			t.Failf("%s %s: %s, expected %s", kindName[kind], c, valText(r.val), valText(want))
		}
	}
	t.Repeat(1, 4, func(int) {
		c := genCall(t, true, true, genUnit(t))
		resp := c.good(t)
		good := frameADU(kind, 0, c.unit, append([]byte{c.fc}, resp...))
		fault := t.Freq(2, 2, 2, 2, 1)
		name := []string{"silence", "partial", "bad checksum", "wrong unit", "none"}[fault]
		k := t.Intn(256)
		t.Note("%s %s: %s %d", kindName[kind], c, name, k)
		t.Class(kindName[kind] + ":" + name)
		t.Sub(1)
		ch := start(func() (any, error) { return c.do(l.cli) })
		l.requestOr(t, c, ch)
		switch fault {
		case 0:
			faults++
		case 1:
			l.send(t, good[:1+k%(len(good)-1)], nil, 0)
			faults++
		case 2:
			b := append([]byte(nil), good...)
			if kind == RTU {
				b[len(b)-1-k%2] ^= byte(1 + k%255)
			} else {
				h, _ := map[byte]byte{'0': '1'}[b[len(b)-3-k%2]]
				if h == 0 {
					h = '0'
				}
				b[len(b)-3-k%2] = h
			}
			l.send(t, b, nil, 0)
			faults++
		case 3:
			l.send(t, frameADU(kind, 0, c.unit^byte(1+k%255), append([]byte{c.fc}, resp...)), nil, 0)
			faults++
		case 4:
			l.send(t, good, nil, 0)
		}
		r := await(t, ch, budget, c.String())
		switch {
		case fault == 4 && r.err != nil && (errors.Is(r.err, serial.ErrTimeout) || isTimeout(r.err)):
			t.FailTimeoutf("%s %s: %v", kindName[kind], c, r.err)
		case fault == 4 && r.err != nil:
			t.Failf("%s %s: a healthy exchange failed: %v", kindName[kind], c, r.err)
		case fault != 4 && r.err == nil:
			t.Failf("%s %s: success, %s, though the slave %s", kindName[kind], c, valText(r.val), name)
		}
	})
	healthy()
	if faults > 0 {
		t.NonTrivial()
	}
}

// runHangup: the line goes away (a USB adapter is pulled) and comes back.
func runHangup(t *T, kind int) {
	dir, err := os.MkdirTemp("", "vpty")
	if err != nil {
		t.Envf("%v", err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	path := filepath.Join(dir, "tty")
	to := wait(t, 400*time.Millisecond)
	cfg := modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: to})
	var prov modbus.ClientProvider
	if kind == RTU {
		prov = modbus.NewRTUClientProvider(cfg)
	} else {
		prov = modbus.NewASCIIClientProvider(cfg)
	}
	l := &link{kind: kind, prov: prov, cli: modbus.NewClient(prov), lastTid: -1}
	t.Cleanup(func() { closeQuietly(l.cli) })
	if err := l.cli.Connect(); err == nil {
		t.Failf("Connect succeeded without a serial port")
	}
	rounds := t.Range(1, 3)
	reconnect, excused := true, 0 // the application reconnects; else calls that may still fail
	for k := 0; k < rounds; k++ {
		m, p := openPty(t)
		l.m, l.got = m, nil
		_ = os.Remove(path)
		if err := os.Symlink(p, path); err != nil {
			t.Envf("%v", err)
		}
		if reconnect {
			if err := l.cli.Connect(); err != nil {
				t.Failf("Connect after the port came back: %v", err)
			}
			if !l.cli.IsConnected() {
				t.Failf("not connected after Connect")
			}
		}
		calls := t.Intn(2)
		if !reconnect {
			calls = 1 + excused
		}
		for i := 0; i < calls; i++ {
			c := genCall(t, true, true, genUnit(t))
			resp := c.good(t)
			want, _ := c.parse(resp)
			ch := start(func() (any, error) { return c.do(l.cli) })
			if excused > 0 && !reconnect {
				excused--
				// this call may notice the hangup and fail; it may as well work
				r, early := awaitEarly(ch, l)
				if early {
					if r.pan != nil {
						t.Failf("%s %s: panic: %v", kindName[kind], c, r.pan)
					}
					if r.err == nil {
						t.Failf("%s %s: success, %s, though nobody answered", kindName[kind], c, valText(r.val))
					}
					continue
				}
			}
			l.requestOr(t, c, ch)
			l.send(t, frameADU(kind, 0, c.unit, append([]byte{c.fc}, resp...)), nil, 0)
			r := await(t, ch, 15*time.Second, c.String())
			if r.err != nil {
				t.FailTimeoutf("%s %s after reconnecting: %v", kindName[kind], c, r.err)
			}
			if !c.same(r.val, want) {
				t.Failf("%s %s after reconnecting: %s, expected %s", kindName[kind], c, valText(r.val), valText(want))
			}
		}
		c := genCall(t, true, true, genUnit(t))
		resp := c.good(t)
		good := frameADU(kind, 0, c.unit, append([]byte{c.fc}, resp...))
		when := t.Intn(3)
		cutAt := t.Intn(len(good))
		t.Note("%s round %d: %d calls, then the line goes away %s (%d) in %s", kindName[kind], k, calls, []string{"before", "after the request of", "within the answer of"}[when], cutAt, c)
		t.Class(fmt.Sprintf("%s hangup %d", kindName[kind], when))
		t.Sub(1)
		if when == 0 {
			m.Close()
		}
		ch := start(func() (any, error) { return c.do(l.cli) })
		if when > 0 {
			l.requestOr(t, c, ch)
			if when == 2 {
				l.send(t, good[:cutAt], nil, 0)
				time.Sleep(time.Duration(cutAt%8) * time.Millisecond)
			}
			m.Close()
		}
		r := await(t, ch, 8*time.Second, fmt.Sprintf("%s %s while the line goes away", kindName[kind], c))
		if r.err == nil {
			t.Failf("%s %s: success, %s, though the line went away", kindName[kind], c, valText(r.val))
		}
		reconnect = !t.Bool()
		if !reconnect { // the application just goes on calling
			away := t.Intn(3)
			t.Note("no Close; %d calls while the port is away", away)
			t.Class(kindName[kind] + " goes on after a hangup")
			_ = os.Remove(path)
			for i := 0; i < away; i++ {
				c := genCall(t, true, true, genUnit(t))
				r := await(t, start(func() (any, error) { return c.do(l.cli) }), 8*time.Second, fmt.Sprintf("%s %s while the port is away", kindName[kind], c))
				if r.err == nil {
					t.Failf("%s %s: success, %s, though the port is away", kindName[kind], c, valText(r.val))
				}
			}
			excused = 0
			if away == 0 {
				excused = 1
			}
			if k == rounds-1 && rounds < 5 {
				rounds++
			}
			continue
		}
		within(t, 8*time.Second, "Close after a hangup", func() { _ = l.cli.Close() })
		if l.cli.IsConnected() {
			t.Failf("connected after Close")
		}
	}
	t.NonTrivial()
}

// awaitEarly waits until the call is over or its request is on the line.
func awaitEarly(ch chan result, l *link) (result, bool) {
	for {
		select {
		case r := <-ch:
			return r, true
		default:
		}
		if b := l.pending(); len(b) > 0 {
			l.got = b
			return result{}, false
		}
		time.Sleep(500 * time.Microsecond)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C16", Quick: 6000, Thorough: 60000, Workers: 64, CaseMax: 120 * time.Second,
		Rule: "a case is a client and a played server (3/4 TCP, else RTU/ASCII on a pty) with 1-5 scripted faults (silence, late answers, closed and reset connections, cut off headers and bodies, impossible lengths, answers of another transaction, protocol, unit or function, duplicates, unsolicited frames, server outages, line hangup), every answer with contents of its own, then healthy exchanges; non-trivial = at least one fault was played",
		Run: func(t *T) {
			switch t.Freq(12, 1, 1, 1, 1) {
			case 0:
				runRecoverTCP(t)
			case 1:
				runRecoverSerial(t, RTU)
			case 2:
				runRecoverSerial(t, ASCII)
			case 3:
				runHangup(t, RTU)
			default:
				runHangup(t, ASCII)
			}
		},
		Assume: []string{"late answers on a serial line (which has no transaction ids) are not covered", "time limits are confirmed with three times the budget before a violation is reported"},
	})
}

var _ = model.TCP

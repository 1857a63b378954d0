package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C21: raw requests ----

// rawRequest waits for exactly want on the wire. For TCP the first two bytes
// (transaction id) are free unless fixed.
func (l *link) rawRequest(t *T, want []byte, fixed bool, ch chan result, what string) []byte {
	type rd struct {
		b   []byte
		err error
	}
	done := make(chan rd, 1)
	go func() {
		b, err := l.readN(len(want), wait(t, 6*time.Second))
		done <- rd{b, err}
	}()
	var r rd
	select {
	case r = <-done:
	case x := <-ch:
		select {
		case r = <-done:
			ch <- x
		case <-time.After(20 * time.Millisecond):
			if x.pan != nil {
				t.Failf("%s: panic: %v", what, x.pan)
			}
			t.Failf("%s: returned %s, %v before the request was sent", what, valText(x.val), x.err)
		}
	}
	if r.err != nil {
		t.FailTimeoutf("%s: on the wire %s (%d of %d bytes, %v)", what, hx(r.b), len(r.b), len(want), r.err)
	}
	w := append([]byte(nil), want...)
	if l.kind == TCP && !fixed {
		copy(w, r.b[:2])
	}
	if !bytes.Equal(w, r.b) {
		t.Failf("%s: on the wire %s, expected %s", what, hx(r.b), hx(w))
	}
	return r.b
}

func pduVal(p modbus.ProtocolDataUnit, err error) (any, error) {
	if err != nil {
		return nil, err
	}
	return append([]byte{p.FuncCode}, p.Data...), nil
}

// genSize draws a size within 0..max biased to the limits.
func genSize(t *T, max int) int {
	switch t.Freq(4, 2, 2) {
	case 0:
		return t.Range(0, min(max, 12))
	case 1:
		return t.Range(0, max)
	}
	return max - t.Range(0, 2)
}

func runRaw(t *T) {
	kind := genKind(t, 6, 2, 3)
	l := newLink(t, kind, linkOpt{})
	n := map[int]int{TCP: 25, RTU: 3, ASCII: 12}[kind]
	limits, sent := 0, 0
	var raw modbus.ClientProvider = l.prov
	if t.Bool() {
		raw = l.cli
	}
	t.Repeat(1, n, func(int) {
		unit := t.Byte()
		viaPdu := t.Bool()
		op := t.Freq(5, 4, 3, 3, 2)
		send := func(pdu []byte) chan result {
			if viaPdu {
				p := append([]byte(nil), pdu...)
				return start(func() (any, error) { return nb(raw.SendPdu(unit, p)) })
			}
			return start(func() (any, error) {
				return pduVal(raw.Send(unit, modbus.ProtocolDataUnit{FuncCode: pdu[0], Data: append([]byte(nil), pdu[1:]...)}))
			})
		}
		method := "Send"
		if viaPdu {
			method = "SendPdu"
		}
		finish := func(ch chan result, what string, want []byte, exc int) {
			r := await(t, ch, callBudget, what)
			if exc >= 0 {
				var ee *modbus.ExceptionError
				if !errors.As(r.err, &ee) || int(ee.ExceptionCode) != exc {
					t.Failf("%s: exception %d gave %s, %v", what, exc, valText(r.val), r.err)
				}
				return
			}
			if r.err != nil {
				t.Failf("%s: %v", what, r.err)
			}
			if g, _ := r.val.([]byte); !bytes.Equal(g, want) {
				t.Failf("%s: returned %s, the response is %s", what, valText(r.val), hx(want))
			}
		}
		t.Sub(1)
		switch op {
		case 0, 1: // a request; its response, or an exception
			var pdu, rsp []byte
			if op == 0 {
				c := genCall(t, true, kind == RTU, unit)
				pdu, rsp = c.pdu(), append([]byte{c.fc}, c.good(t)...)
			} else {
				fc := byte(t.Range(1, 127))
				pdu = append([]byte{fc}, t.Bytes(genSize(t, 252))...)
				rsp = append([]byte{fc}, t.Bytes(max(1, genSize(t, 252)))...)
				if kind == RTU { // only functions whose response length does not depend on their request
					fc = byte(t.OneOf(5, 6, 15, 16, 22))
					k := 4
					if fc == 22 {
						k = 6
					}
					pdu[0] = fc
					for len(pdu) < 5 {
						pdu = append(pdu, 0)
					}
					rsp = append([]byte{fc}, t.Bytes(k)...)
				}
			}
			if len(pdu) >= 252 || len(rsp) >= 252 {
				limits++
			}
			exc := -1
			if t.Chance(1, 5) {
				exc = int(t.Byte())
				rsp = []byte{pdu[0] | 0x80, byte(exc)}
			}
			what := fmt.Sprintf("%s %s(unit %d, pdu of %d bytes %s)", kindName[kind], method, unit, len(pdu), hx(pdu))
			t.Note("%s <- %d bytes %s", what, len(rsp), hx(rsp))
			t.Class(fmt.Sprintf("%s:%s", kindName[kind], method))
			ch := send(pdu)
			b := l.rawRequest(t, frameADU(kind, 0, unit, pdu), false, ch, what)
			tid := uint16(0)
			if kind == TCP {
				tid = uint16(be(b, 0))
			}
			l.sendCut(t, frameADU(kind, tid, unit, rsp))
			finish(ch, what, rsp, exc)
			sent++
		case 2: // beyond the limits: an error, nothing on the wire
			size := t.OneOf(254, 255, 256, 257, 260, 300, 0, 1000, 65536)
			if size == 0 {
				viaPdu, method = true, "SendPdu"
			}
			pdu := bytes.Repeat([]byte{3}, size)
			what := fmt.Sprintf("%s %s of %d bytes", kindName[kind], method, size)
			t.Note("%s", what)
			t.Class(fmt.Sprintf("%s:refused", kindName[kind]))
			r := await(t, send(pdu), callBudget, what)
			if r.err == nil {
				t.Failf("%s: accepted", what)
			}
			if b := l.pending(); len(b) > 0 {
				t.Failf("%s: refused (%v), but %s was sent", what, r.err, hx(b))
			}
			limits++
		case 3: // raw frames go out as they are and come back as they are
			c := genCall(t, true, kind == RTU, unit)
			tid := t.U16()
			adu := frameADU(kind, tid, unit, c.pdu())
			rsp := frameADU(kind, tid, unit, append([]byte{c.fc}, c.good(t)...))
			if t.Chance(1, 4) {
				rsp = frameADU(kind, tid, unit, []byte{c.fc | 0x80, t.Byte()})
			}
			twist := t.Intn(3)
			switch {
			case twist == 1 && kind == TCP: // another protocol: not this method's business
				adu[2], rsp[2] = 7, 7
			case twist == 1 && kind == RTU: // a wrong checksum
				adu[len(adu)-1] ^= 0x55
			case twist == 1: // lower case
				adu = bytes.ToLower(adu)
				rsp = bytes.ToLower(rsp)
			case twist == 2 && kind == TCP: // any contents
				adu = append(adu[:7:7], t.Bytes(genSize(t, 253))...)
				rsp = append(rsp[:7:7], t.Bytes(max(1, genSize(t, 253)))...)
				rsp[4], rsp[5] = byte((len(rsp)-6)>>8), byte(len(rsp)-6)
			case twist == 2 && kind == RTU:
				rsp[len(rsp)-1] ^= 0x55
			}
			what := fmt.Sprintf("%s SendRawFrame(%s)", kindName[kind], hx(adu))
			t.Note("%s <- %s", what, hx(rsp))
			t.Class(fmt.Sprintf("%s:raw", kindName[kind]))
			in := append([]byte(nil), adu...)
			ch := start(func() (any, error) { return nb(raw.SendRawFrame(in)) })
			l.rawRequest(t, adu, true, ch, what)
			l.send(t, rsp, nil, 0)
			finish(ch, what, rsp, -1)
			if !bytes.Equal(in, adu) {
				t.Failf("%s: the caller's buffer was changed to %s", what, hx(in))
			}
			if twist == 2 && !l.cli.IsConnected() { // not an answer: free to drop the connection
				l.connect(t)
			}
			sent++
		case 4: // a response from somebody else, or without contents
			c := genCall(t, true, kind == RTU, unit)
			rsp := append([]byte{c.fc}, c.good(t)...)
			u2 := unit
			how := t.Intn(3)
			switch how {
			case 0:
				u2 ^= byte(1 + t.Intn(255))
			case 1:
				rsp[0] ^= byte(1 + t.Intn(127))
			case 2:
				rsp = rsp[:1]
			}
			if kind == RTU && how > 0 {
				return // what follows on the line is not defined
			}
			what := fmt.Sprintf("%s %s(unit %d, %s)", kindName[kind], method, unit, hx(c.pdu()))
			t.Note("%s <- unit %d %s", what, u2, hx(rsp))
			t.Class(fmt.Sprintf("%s:wrong answer", kindName[kind]))
			ch := send(c.pdu())
			b := l.rawRequest(t, frameADU(kind, 0, unit, c.pdu()), false, ch, what)
			tid := uint16(0)
			if kind == TCP {
				tid = uint16(be(b, 0))
			}
			l.send(t, frameADU(kind, tid, u2, rsp), nil, 0)
			r := await(t, ch, callBudget, what)
			if r.err == nil {
				t.Failf("%s: the response of unit %d, %s, was accepted: %s", what, u2, hx(rsp), valText(r.val))
			}
			if !l.cli.IsConnected() { // free to drop the connection
				l.connect(t)
			}
		}
	})
	if kind == RTU && t.Chance(1, 3) { // too short for a frame
		short := t.Bytes(t.Intn(4))
		t.Note("RTU SendRawFrame(%s)", hx(short))
		r := await(t, start(func() (any, error) { return nb(raw.SendRawFrame(short)) }), callBudget, "SendRawFrame of a short frame")
		if r.err == nil {
			t.Failf("RTU SendRawFrame(%s): accepted, returned %s", hx(short), valText(r.val))
		}
		limits++
	}
	if b := l.pending(); len(b) > 0 {
		t.Failf("%s: surplus bytes on the wire: %s", kindName[kind], hx(b))
	}
	if limits > 0 && sent > 0 {
		t.NonTrivial()
	}
}

// ---- C22: unit address limits ----

func runLimits(t *T) {
	kind := genKind(t, 8, 1, 2)
	lo, hi := 1, 247
	var opts []modbus.Option
	pick := func() int { return t.OneOf(0, 1, 2, 10, 100, 246, 247, 248, 254, 255, int(t.Byte())) }
	if t.Chance(2, 3) {
		lo = pick()
		opts = append(opts, modbus.WithAddressMin(byte(lo)))
	}
	if t.Chance(2, 3) {
		hi = pick()
		opts = append(opts, modbus.WithAddressMax(byte(hi)))
		if t.Bool() && len(opts) == 2 {
			opts[0], opts[1] = opts[1], opts[0]
		}
	}
	t.Note("%s, limits %d..%d", kindName[kind], lo, hi)
	l := newLink(t, kind, linkOpt{opts: opts})
	n := map[int]int{TCP: 30, RTU: 3, ASCII: 10}[kind]
	in, out := 0, 0
	t.Repeat(2, n, func(int) {
		u := t.OneOf(lo, lo-1, lo+1, hi, hi-1, hi+1, 0, 1, 247, 248, 255, int(t.Byte())) & 0xff
		c := genCall(t, true, true, byte(u))
		write := c.fc == 5 || c.fc == 6 || c.fc == 15 || c.fc == 16 || c.fc == 22
		ok := u >= lo && u <= hi
		if write && u < lo {
			if u != 0 {
				return // below the minimum, not the broadcast address: not specified
			}
			if hi < 0 {
				return
			}
			ok = true // address 0 is for writes to everybody
		}
		t.Note("%s, allowed %v", c, ok)
		t.Sub(1)
		if ok {
			in++
			t.Class("allowed")
			if write && u == 0 {
				t.Class("write to unit 0")
			}
			goodExchange(t, l, c)
			return
		}
		out++
		t.Class("refused")
		r := await(t, start(func() (any, error) { return c.do(l.cli) }), callBudget, c.String())
		if r.err == nil {
			t.Failf("%s with limits %d..%d: accepted, result %s", c, lo, hi, valText(r.val))
		}
		if r.val != nil {
			t.Failf("%s with limits %d..%d: refused (%v) but returned %s", c, lo, hi, r.err, valText(r.val))
		}
		if t.Chance(1, 3) {
			if b := l.pending(); len(b) > 0 {
				t.Failf("%s with limits %d..%d: refused (%v), but %s was sent", c, lo, hi, r.err, hx(b))
			}
		}
	})
	if b := l.pending(); len(b) > 0 {
		t.Failf("limits %d..%d: bytes of refused requests on the wire: %s", lo, hi, hx(b))
	}
	if in > 0 && out > 0 {
		t.NonTrivial()
	}
}

// ---- C23: logging ----

type recorder struct {
	mu  sync.Mutex
	n   int
	txt []string
	dbg []string // the debug messages since the last take
}

func (r *recorder) add(f string, v ...interface{}) string {
	s := fmt.Sprintf(f, v...)
	r.mu.Lock()
	r.n++
	if len(r.txt) < 50 {
		r.txt = append(r.txt, s)
	}
	r.mu.Unlock()
	return s
}
func (r *recorder) Errorf(f string, v ...interface{}) { r.add(f, v...) }
func (r *recorder) Debugf(f string, v ...interface{}) {
	s := r.add(f, v...)
	r.mu.Lock()
	r.dbg = append(r.dbg, s)
	r.mu.Unlock()
}

// take returns the debug messages since the last take.
func (r *recorder) take() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	d := r.dbg
	r.dbg = nil
	return d
}

// reports tells whether one of the messages reports exactly these bytes: their hex
// digits, however separated, not preceded or followed by further ones.
func reports(msgs []string, frame []byte) bool {
	want := fmt.Sprintf("%x", frame)
	for _, m := range msgs {
		var words []string
		var w []byte
		flush := func() {
			if len(w) > 0 {
				words = append(words, string(w))
				w = nil
			}
		}
		in := false // within brackets, if there are any
		br := strings.Contains(m, "[")
		for _, c := range []byte(strings.ToLower(m)) {
			switch {
			case c == '[':
				flush()
				in = true
			case c == ']':
				flush()
				in = false
			case br && !in:
			case c >= '0' && c <= '9' || c >= 'a' && c <= 'f':
				w = append(w, c)
			case c == ' ' || c == ',' || c == ':' || c == '-':
			default:
				flush()
			}
		}
		flush()
		for _, x := range words {
			if x == want || !br && strings.HasSuffix(x, want) {
				return true
			}
		}
	}
	return false
}
func (r *recorder) count() int { r.mu.Lock(); defer r.mu.Unlock(); return r.n }

// scripted is one exchange: what the slave answers to a call.
type scripted struct {
	c    *call
	rsp  []byte // whole response bytes; for TCP the transaction id is filled in
	eof  bool   // then the end of the connection (TCP)
	what string
}

// play runs a script on a fresh link and reports what was on the wire and what
// the calls returned.
func play(t *T, kind int, scr []scripted, popts []modbus.ClientProviderOption, before func(i int, l *link), after func(i int, sent, rcvd []byte)) (log []string) {
	l := newLink(t, kind, linkOpt{popts: popts, timeout: 8 * time.Second})
	for i, s := range scr {
		before(i, l)
		if kind == TCP && !l.cli.IsConnected() {
			l.connect(t)
		}
		l.lastTid = -1
		ch := start(func() (any, error) { return s.c.do(l.cli) })
		tid := l.requestOr(t, s.c, ch)
		b := append([]byte(nil), s.rsp...)
		if kind == TCP && len(b) > 1 {
			b[0], b[1] = byte(tid>>8), byte(tid)
		}
		l.send(t, b, nil, 0)
		if s.eof {
			_ = l.sc.(*net.TCPConn).CloseWrite()
		}
		r := await(t, ch, callBudget, s.c.String())
		if r.err != nil && (isTimeout(r.err) || errors.Is(r.err, serial.ErrTimeout)) {
			t.FailTimeoutf("%s: %v", s.c, r.err)
		}
		e := "ok"
		if r.err != nil {
			e = r.err.Error()
			var ee *modbus.ExceptionError
			if errors.As(r.err, &ee) {
				e = fmt.Sprintf("exception %d", ee.ExceptionCode)
			} else if kind == TCP && tid != 0 {
				e = strings.ReplaceAll(e, fmt.Sprint(tid), "TID")
				if errors.Is(r.err, io.EOF) || errors.Is(r.err, io.ErrUnexpectedEOF) {
					e = "EOF"
				} else {
					e = "error"
				}
			}
		}
		after(i, frameADU(kind, uint16(tid), s.c.unit, s.c.pdu()), b)
		log = append(log, fmt.Sprintf("%s -> %s, %s", s.c, valText(r.val), e))
		if s.eof {
			closeQuietly(l.cli)
		}
	}
	if b := l.pending(); len(b) > 0 {
		log = append(log, "surplus on the wire: "+hx(b))
	}
	return log
}

func runLogging(t *T) {
	switch t.Freq(5, 3, 2, 1) {
	case 1:
		runServerLogging(t)
		return
	case 2:
		runDefaultLog(t)
		return
	case 3:
		runSwitchConcurrently(t)
		return
	}
	kind := genKind(t, 8, 1, 3)
	n := map[int]int{TCP: 12, RTU: 2, ASCII: 6}[kind]
	var scr []scripted
	good := 0
	t.Repeat(1, n, func(int) {
		c := genCall(t, true, kind == RTU, genUnit(t))
		pdu := append([]byte{c.fc}, c.good(t)...)
		s := scripted{c: c, what: "valid"}
		switch t.Freq(5, 2, 1, 1) {
		case 0:
			good++
		case 1:
			pdu = []byte{c.fc | 0x80, byte(t.Range(1, 11))}
			s.what = "exception"
		case 2:
			if kind != RTU {
				pdu[0] ^= 0x40
				s.what = "wrong function"
			}
		case 3:
			if kind == TCP {
				s.eof = true
				s.what = "cut"
			}
		}
		s.rsp = frameADU(kind, 0, c.unit, pdu)
		if s.eof {
			s.rsp = s.rsp[:t.Intn(len(s.rsp))]
		}
		t.Note("%s <- %s", c, s.what)
		scr = append(scr, s)
	})
	nop := func(int, *link) {}
	nop2 := func(int, []byte, []byte) {}
	base := play(t, kind, scr, nil, nop, nop2)
	rec := &recorder{}
	mode := t.Intn(6)
	name := []string{"on", "on, options swapped", "provider but off", "nil provider, on", "toggled between calls", "on, later off"}[mode]
	t.Note("%s, logging %s", kindName[kind], name)
	t.Class(kindName[kind] + ": " + name)
	t.NonTrivial()
	var po []modbus.ClientProviderOption
	before := nop
	on := modbus.WithEnableLogger()
	switch mode {
	case 0:
		po = []modbus.ClientProviderOption{modbus.WithLogProvider(rec), on}
	case 1:
		po = []modbus.ClientProviderOption{on, modbus.WithLogProvider(rec)}
	case 2:
		po = []modbus.ClientProviderOption{modbus.WithLogProvider(rec)}
	case 3:
		po = []modbus.ClientProviderOption{modbus.WithLogProvider(rec), modbus.WithLogProvider(nil), on}
	case 4:
		po = []modbus.ClientProviderOption{modbus.WithLogProvider(rec)}
		last := 0
		cur := false
		before = func(i int, l *link) {
			if !cur && rec.count() != last {
				t.Failf("logging was off, but the provider was called: %v", rec.txt)
			}
			last = rec.count()
			cur = i%2 == 0
			l.cli.LogMode(cur)
		}
	case 5:
		po = []modbus.ClientProviderOption{modbus.WithLogProvider(rec), on}
		before = func(i int, l *link) {
			if i == len(scr)-1 {
				l.prov.LogMode(false)
				rec.mu.Lock()
				rec.n = 0
				rec.mu.Unlock()
			}
		}
	}
	after := nop2
	if mode < 2 || mode > 3 {
		after = func(i int, sent, rcvd []byte) {
			msgs := rec.take()
			if mode == 4 && i%2 != 0 || mode == 5 && i == len(scr)-1 {
				return // logging is off
			}
			if !reports(msgs, sent) {
				t.Failf("%s, logging %s: no debug message reports the sent frame %s: %q", kindName[kind], name, hx(sent), msgs)
			}
			if !scr[i].eof && !reports(msgs, rcvd) {
				t.Failf("%s, logging %s: no debug message reports the received frame %s (%s): %q", kindName[kind], name, hx(rcvd), scr[i].what, msgs)
			}
		}
	}
	got := play(t, kind, scr, po, before, after)
	for i := range max(len(base), len(got)) {
		b, g := "nothing", "nothing"
		if i < len(base) {
			b = base[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if b != g {
			t.Failf("%s, logging %s: %s; without logging: %s", kindName[kind], name, g, b)
		}
	}
	switch mode {
	case 0, 1, 3:
		if good > 0 && rec.count() == 0 {
			t.Failf("%s, logging %s: the provider was never called", kindName[kind], name)
		}
	case 2:
		if rec.count() != 0 {
			t.Failf("%s: logging was never enabled, but the provider was called: %v", kindName[kind], rec.txt)
		}
	case 5:
		if rec.count() != 0 {
			t.Failf("%s: logging was disabled, but the provider was called: %v", kindName[kind], rec.txt)
		}
	}
	t.Sub(2 * len(scr))
}

// runServerLogging: a server with its log on (it prints) and one with it off
// answer the same history alike.
func runServerLogging(t *T) {
	u1 := smallUnit(t, byte(t.Range(1, 247)))
	mk := func() (*modbus.TCPServer, *modbus.NodeRegister) {
		srv := modbus.NewTCPServer()
		l := model.Layout{CS: u1.m.CoilStart, CN: len(u1.m.Coil), DS: u1.m.DiscStart, DN: len(u1.m.Disc), IS: u1.m.InStart, IN: len(u1.m.In), HS: u1.m.HoldStart, HN: len(u1.m.Hold)}
		nd := newNode(u1.id, l)
		load(t, nd, u1.m)
		srv.AddNodes(nd)
		return srv, nd
	}
	a, na := mk()
	b, nb := mk()
	b.LogMode(true)
	sa, sb := startServer(t, a), startServer(t, b)
	ca, cb := dial(t, sa.addr), dial(t, sb.addr)
	m := u1.m
	t.Class("server")
	t.NonTrivial()
	t.Repeat(1, 15, func(i int) {
		r := genRequest(t, m)
		t.Note("fc %d data %s", r.fc, hx(r.data))
		pa, pb := ca.exchange(t, u1.id, r), cb.exchange(t, u1.id, r)
		if !bytes.Equal(pa, pb) {
			t.Failf("request %s: reply %s with logging, %s without", hx(r.pdu()), hx(pb), hx(pa))
		}
		judge(t, m, r, pa)
		t.Sub(1)
		if t.Chance(1, 4) {
			b.LogMode(t.Bool())
		}
	})
	for i, nd := range []*modbus.NodeRegister{na, nb} {
		if d := diffNode(nd, m); d != "" {
			t.Failf("logging %v: %s", i == 1, d)
		}
	}
}

func init() {
	register(&pbt.Property{
		ID: "C21", Quick: 15000, Thorough: 150000, Workers: 24,
		Rule:   "a case is a client provider on TCP, RTU or ASCII and up to 25 raw requests through Send, SendPdu and SendRawFrame: PDUs of 1-253 bytes, beyond the limits, arbitrary functions and contents, raw frames verbatim (also with wrong checksums and protocols), exceptions and answers of somebody else; non-trivial = a size limit was reached and a request was sent",
		Run:    runRaw,
		Assume: []string{"on RTU, only functions whose response length the protocol defines are used"},
	})
	register(&pbt.Property{
		ID: "C22", Quick: 25000, Thorough: 250000, Workers: 24,
		Rule:   "a case is a client on TCP, RTU or ASCII with default or generated unit address limits and 2-30 calls of all methods to units at, inside and outside of the limits; non-trivial = calls were allowed and others refused",
		Run:    runLimits,
		Assume: []string{"writes to units 1..min-1 are not specified"},
	})
	register(&pbt.Property{
		ID: "C23", Quick: 12000, Thorough: 150000, Workers: 24, Race: true,
		Rule: "a case plays the same generated exchanges (valid, exceptions, wrong and cut answers) with logging off and with logging in one of six settings, on TCP, RTU or ASCII, or the same request history against a server with and without its log, or looks for what a client or server with its default log writes to the standard output while the log is switched between requests (new and old connections, panicking handlers), or switches it while requests run (race detector); always non-trivial",
		Run:  runLogging,
	})
}

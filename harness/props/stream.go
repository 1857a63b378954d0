package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// smallUnit makes a unit with small non-empty banks, a quarter of the time
// large enough for the longest requests and responses.
func smallUnit(t *T, id byte) *unit {
	l := model.Layout{CN: t.Range(1, 40), DN: t.Range(1, 40), IN: t.Range(1, 20), HN: t.Range(1, 20)}
	if t.Chance(1, 4) {
		l = model.Layout{CN: t.Range(1, 2100), DN: t.Range(1, 2100), IN: t.Range(1, 140), HN: t.Range(1, 140)}
	}
	l.CS, l.DS, l.IS, l.HS = t.OneOf(0, 1, 100), t.OneOf(0, 3), t.OneOf(0, 7), t.OneOf(0, 10, 65000)
	u := &unit{id, newNode(id, l), model.New(l)}
	fill(t, u.nd, u.m)
	return u
}

// readToEOF reads until the peer ends the connection.
func readToEOF(c net.Conn, d time.Duration) ([]byte, error) {
	var out []byte
	_ = c.SetReadDeadline(time.Now().Add(d))
	buf := make([]byte, 8192)
	for {
		n, err := c.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil {
			return out, err
		}
	}
}

func isTimeout(err error) bool {
	var ne net.Error
	return errors.As(err, &ne) && ne.Timeout()
}

// splitFrames cuts a reply stream into MBAP frames; rest is what remains.
func splitFrames(b []byte) (fs [][]byte, rest []byte) {
	for len(b) >= 7 {
		n := be(b, 4) + 6
		if n < 8 || n > 260 || len(b) < n {
			break
		}
		fs = append(fs, b[:n])
		b = b[n:]
	}
	return fs, b
}

// ---- C03: arbitrary byte streams ----

// genAttack draws the bytes of a hostile or broken client. Nothing in it is a
// well-formed write to an existing unit.
func genAttack(t *T, u *unit) ([]byte, string) {
	var b []byte
	what := ""
	t.Repeat(1, 6, func(int) {
		switch t.Freq(2, 3, 3, 2, 3, 2) {
		case 0:
			b = append(b, t.Bytes(t.Range(1, 60))...)
			what += "garbage "
		case 1: // header with a strange length
			n := t.OneOf(0, 1, 2, 254, 255, 256, 260, 261, 0x7fff, 0x8000, 0xffff, 0xfffe, 300, int(t.U16()))
			h := append(u16b(int(t.U16()), 0, n), u.id)
			b = append(b, h...)
			k := t.OneOf(0, 1, 2, 260, 254, 400, n-1, n)
			if k < 0 {
				k = 0
			}
			body := make([]byte, min(k, 3000))
			if len(body) > 0 {
				body[0] = byte(t.OneOf(3, 1, 0, 0x80, 255)) // reads, nothing that writes
			}
			for i := 1; i < len(body); i++ {
				body[i] = 0xff
			}
			b = append(b, body...)
			what += fmt.Sprintf("len=%d+%d ", n, len(body))
		case 2: // proper frame, PDU cut short
			fc := byte(t.OneOf(1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24, 17))
			d := t.Bytes(t.OneOf(0, 1, 2, 3))
			b = append(b, model.TCP(t.U16(), u.id, append([]byte{fc}, d...))...)
			what += fmt.Sprintf("short fc%d ", fc)
		case 3: // write whose byte count exceeds its data
			fc := byte(t.OneOf(16, 15, 23))
			var d []byte
			switch fc {
			case 16:
				q := t.OneOf(123, 2, 1, 50)
				d = append(append(u16b(u.m.HoldStart, q), byte(2*q)), t.Bytes(t.Range(0, 2*q-1))...)
			case 15:
				q := t.OneOf(1968, 1, 8, 9)
				d = append(append(u16b(u.m.CoilStart, q), byte((q+7)/8)), t.Bytes(t.Range(0, (q+7)/8-1))...)
			default:
				q := t.OneOf(121, 1, 2)
				d = append(append(u16b(u.m.HoldStart, 1, u.m.HoldStart, q), byte(2*q)), t.Bytes(t.Range(0, 2*q-1))...)
			}
			b = append(b, model.TCP(t.U16(), u.id, append([]byte{fc}, cut(d, 252)...))...)
			what += fmt.Sprintf("hollow fc%d ", fc)
		case 4: // proper read or unknown function
			if t.Bool() {
				fc := byte(t.OneOf(3, 1, 2, 4))
				b = append(b, model.TCP(t.U16(), u.id, append([]byte{fc}, u16b(t.OneOf(0, 65535, int(t.U16())), t.OneOf(1, 0, 65535, 125, 2000))...))...)
				what += "read "
			} else {
				b = append(b, model.TCP(t.U16(), u.id, append([]byte{byte(t.OneOf(0, 7, 99, 128, 129, 255))}, t.Bytes(t.Range(0, 252))...))...)
				what += "unknown "
			}
		case 5: // whatever to nobody
			id := u.id
			for id == u.id {
				id = t.Byte()
				if id == u.id {
					id++
				}
			}
			b = append(b, model.TCP(t.U16(), id, append([]byte{6}, t.Bytes(4)...))...)
			what += "nobody "
		}
	})
	if t.Chance(1, 3) {
		b = b[:t.Range(1, len(b))]
		what += "cut "
	}
	return b, what
}

// aWriteInside tells whether a byte stream contains, at any alignment, a frame
// the server may rightly take for a write to the unit.
func aWriteInside(b []byte, id byte) bool {
	for i := 0; i+12 <= len(b); i++ {
		if b[i+2] == 0 && b[i+3] == 0 && b[i+6] == id {
			switch b[i+7] {
			case 5, 6, 15, 16, 22, 23:
				n := be(b, i+4)
				if n >= 6 && n <= 254 && i+6+n <= len(b) {
					// hollow frames are fine, they are refused
					if !refused(b[i+7], b[i+8:i+6+n]) {
						return true
					}
				}
			}
		}
	}
	return false
}

// refused tells whether a write request is malformed by its shape alone.
func refused(fc byte, d []byte) bool {
	big := model.New(model.Layout{CN: 65535, DN: 1, IN: 1, HN: 65535})
	for _, o := range big.Outcomes(fc, d) {
		if o.Effect != nil {
			return false
		}
	}
	return true
}

func runGarbage(t *T) {
	u := smallUnit(t, byte(t.OneOf(1, 17, 247, 0, 255)))
	srv := modbus.NewTCPServer()
	srv.AddNodes(u.nd)
	s := startServer(t, srv)
	ctl := dial(t, s.addr)
	sane := func(c *conn, who string) {
		for _, fc := range []byte{3, 6, 1, 16} {
			r, ok := genValid(t, u.m, fc)
			if ok {
				judge(t, u.m, r, c.exchange(t, u.id, r))
			}
		}
		if fb := diffOf(t, u); fb != "" {
			t.Failf("%s: %s", who, fb)
		}
	}
	t.Repeat(1, 5, func(i int) {
		b, what := genAttack(t, u)
		if aWriteInside(b, u.id) {
			t.Class("skipped:contains-a-write")
			return
		}
		how := t.Freq(3, 2, 3, 2)
		t.Note("attack %d: %s %s, then %s", i, what, hx(b), []string{"half-close", "close", "reset", "stay"}[how])
		t.Class([]string{"half-close", "close", "reset", "stay"}[how])
		t.Sub(1)
		c := dial(t, s.addr)
		_ = c.SetWriteDeadline(time.Now().Add(wait(t, 5*time.Second)))
		for k := 0; k < len(b); {
			n := min(len(b)-k, t.OneOf(len(b), 1, 3, 7, 8, 100))
			if _, err := c.Write(b[k : k+n]); err != nil {
				break // the server may hang up on rubbish
			}
			k += n
		}
		switch how {
		case 0:
			_ = c.Conn.(*net.TCPConn).CloseWrite()
			out, err := readToEOF(c, wait(t, 6*time.Second))
			if isTimeout(err) {
				t.FailTimeoutf("attack %s: the server keeps a connection whose client has finished", hx(b))
			}
			fs, rest := splitFrames(out)
			if len(rest) > 0 && !isReset(err) {
				t.Failf("attack %s: reply bytes that are no frame: %s", hx(b), hx(rest))
			}
			for _, f := range fs {
				if be(f, 2) != 0 {
					t.Failf("attack %s: reply frame of protocol %d: %s", hx(b), be(f, 2), hx(f))
				}
			}
		case 1:
			_ = c.Close()
		case 2:
			rst(c.Conn)
		}
		sane(ctl, "existing connection")
		t.NonTrivial()
	})
	sane(ctl, "existing connection, at the end")
	sane(dial(t, s.addr), "new connection, at the end")
}

func isReset(err error) bool {
	return err != nil && (strings.Contains(err.Error(), "reset") || strings.Contains(err.Error(), "broken pipe"))
}

// diffOf compares the registers under a watchdog: a leaked lock must not hang the check.
func diffOf(t *T, u *unit) (d string) {
	within(t, 8*time.Second, "reading the registers", func() { d = diffNode(u.nd, u.m) })
	return d
}

// ---- C04: framing ----

// pipeline drives one connection with a stream of frames and compares the
// complete reply stream.
func pipeline(t *T, s *server, u *unit, known map[byte]bool) func() error {
	var out, want []byte
	tid := t.U16()
	nReq := 0
	t.Repeat(1, t.OneOf(25, 25, 100), func(int) {
		switch t.Freq(8, 2, 2) {
		case 0:
			r := genRequest(t, u.m)
			switch t.Freq(3, 1, 1) {
			case 0:
				tid++
			case 1:
				tid = t.U16()
			}
			outs := u.m.Outcomes(r.fc, r.data)
			if len(outs) != 1 { // more than one legal answer: not in a pipeline
				return
			}
			if outs[0].Effect != nil {
				outs[0].Effect(u.m)
			}
			out = append(out, model.TCP(tid, u.id, r.pdu())...)
			want = append(want, model.TCP(tid, u.id, outs[0].PDU)...)
			nReq++
		case 1: // nobody there
			id := t.Byte()
			for known[id] {
				id++
			}
			r := genRequest(t, u.m)
			out = append(out, model.TCP(t.U16(), id, r.pdu())...)
			t.Class("unknown-unit")
		case 2: // another protocol
			r := genRequest(t, u.m)
			f := model.TCP(t.U16(), u.id, r.pdu())
			p := t.OneOf(1, 256, 0xffff, int(t.U16()))
			if p == 0 {
				p = 1
			}
			f[2], f[3] = byte(p>>8), byte(p)
			out = append(out, f...)
			t.Class("other-protocol")
		}
	})
	// a last request shows that everything before it has been dealt with
	r, ok := genValid(t, u.m, 3)
	if !ok {
		r = req{99, nil}
	}
	o := u.m.Outcomes(r.fc, r.data)[0]
	out = append(out, model.TCP(tid+77, u.id, r.pdu())...)
	want = append(want, model.TCP(tid+77, u.id, o.PDU)...)
	var chunks []int
	switch t.Freq(2, 3, 2, 1) {
	case 0: // at once
	case 1:
		t.Repeat(1, 40, func(int) { chunks = append(chunks, t.Range(1, 30)) })
	case 2:
		t.Repeat(1, 12, func(int) { chunks = append(chunks, t.Range(1, 300)) })
	case 3:
		for i := min(len(out)-1, 120); i > 0; i-- {
			chunks = append(chunks, 1)
		}
	}
	pause := time.Duration(t.OneOf(0, 100, 1000)) * time.Microsecond
	t.Note("unit %d: %d requests in %d bytes, chunks %v, pause %v: %s", u.id, nReq+1, len(out), chunks, pause, hx(out))
	t.Sub(nReq + 1)
	if len(chunks) > 0 {
		t.NonTrivial()
	}
	c := dial(t, s.addr)
	return func() error {
		werr := make(chan error, 1)
		go func() {
			_ = c.SetWriteDeadline(time.Now().Add(wait(t, 10*time.Second)))
			b := out
			for i := 0; len(b) > 0; i++ {
				n := len(b)
				if i < len(chunks) {
					n = min(n, chunks[i])
				}
				if _, err := c.Write(b[:n]); err != nil {
					werr <- err
					return
				}
				b = b[n:]
				if pause > 0 && i < 60 {
					time.Sleep(pause)
				}
			}
			werr <- nil
		}()
		_ = c.SetReadDeadline(time.Now().Add(wait(t, 10*time.Second)))
		got := make([]byte, len(want))
		n, err := io.ReadFull(c, got)
		if we := <-werr; we != nil && err == nil {
			err = we
		}
		if !bytes.HasPrefix(want, got[:n]) {
			return fmt.Errorf("replies differ at byte %d:\n got %x\nwant %x", firstDiff(got[:n], want), got[:n], want)
		}
		if err != nil {
			if isTimeout(err) {
				return timeoutErr(fmt.Sprintf("only %d of %d reply bytes arrived", n, len(want)))
			}
			return fmt.Errorf("only %d of %d reply bytes arrived: %v", n, len(want), err)
		}
		// nothing may follow
		_ = c.Conn.(*net.TCPConn).CloseWrite()
		more, err := readToEOF(c, wait(t, 8*time.Second))
		if len(more) > 0 {
			return fmt.Errorf("surplus reply bytes %x", more)
		}
		if isTimeout(err) {
			return timeoutErr("the server keeps the connection after the client has finished")
		}
		return nil
	}
}

type timeoutErr string

func (e timeoutErr) Error() string { return string(e) }

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// parallel runs the functions at once and reports the first error as a failure.
func parallel(t *T, fs []func() error) {
	errs := make([]error, len(fs))
	pans := make([]any, len(fs))
	var wg sync.WaitGroup
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { pans[i] = recover() }()
			errs[i] = f()
		}()
	}
	wg.Wait()
	for i, p := range pans {
		switch p.(type) {
		case nil:
		case pbt.Failure, pbt.Inconclusive:
			panic(p)
		default:
			t.Failf("goroutine %d: panic: %v", i, p)
		}
	}
	var te error
	for i, e := range errs {
		if e == nil {
			continue
		}
		if _, ok := e.(timeoutErr); ok {
			te = e
			continue
		}
		t.Failf("%d: %v", i, e)
	}
	if te != nil {
		t.FailTimeoutf("%v", te)
	}
}

func runFraming(t *T) {
	srv := modbus.NewTCPServer()
	known := map[byte]bool{}
	var us []*unit
	for i := t.Range(1, 4); i > 0; i-- {
		id := byte(t.OneOf(1, 2, 17, 247, 0, 255))
		for known[id] {
			id++
		}
		known[id] = true
		u := smallUnit(t, id)
		srv.AddNodes(u.nd)
		us = append(us, u)
	}
	s := startServer(t, srv)
	var fs []func() error
	for _, u := range us {
		fs = append(fs, pipeline(t, s, u, known))
	}
	parallel(t, fs)
	for _, u := range us {
		if d := diffOf(t, u); d != "" {
			t.Failf("unit %d: %s", u.id, d)
		}
	}
}

// ---- C26: requests that never arrive completely ----

func runTruncated(t *T) {
	srv := modbus.NewTCPServer()
	u := smallUnit(t, 1)
	srv.AddNodes(u.nd)
	stalls := t.Chance(1, 5)
	if stalls {
		srv.SetReadTimeout(wait(t, 200*time.Millisecond))
	}
	s := startServer(t, srv)
	t.Repeat(1, 6, func(i int) {
		var out, want []byte
		t.Repeat(0, 3, func(int) { // complete requests first
			r, ok := genValid(t, u.m, validFC[t.Intn(len(validFC))])
			if !ok {
				return
			}
			o := u.m.Outcomes(r.fc, r.data)[0]
			if o.Effect != nil {
				o.Effect(u.m)
			}
			tid := t.U16()
			out = append(out, model.TCP(tid, u.id, r.pdu())...)
			want = append(want, model.TCP(tid, u.id, o.PDU)...)
		})
		r, ok := genValid(t, u.m, []byte{6, 16, 5, 15, 22, 23, 3, 1}[t.Freq(3, 3, 2, 2, 2, 2, 1, 1)])
		if !ok {
			return
		}
		f := model.TCP(t.U16(), u.id, r.pdu())
		k := t.Range(1, len(f)-1)
		switch t.Freq(3, 2, 2) {
		case 1:
			k = len(f) - 1
		case 2:
			k = t.Range(min(7, len(f)-1), min(12, len(f)-1))
		}
		out = append(out, f[:k]...)
		how := t.Freq(4, 3, 1)
		if stalls {
			how = 3
		}
		name := []string{"half-close", "reset", "close", "stall"}[how]
		t.Note("%d complete reply bytes due, then %d of %d bytes of fc=%d %s, then %s", len(want), k, len(f), r.fc, hx(f[:k]), name)
		t.Class(name)
		t.Class(fmt.Sprintf("fc%d", r.fc))
		t.Sub(1)
		t.NonTrivial()
		c := dial(t, s.addr)
		c.soft = stalls
		_ = c.SetWriteDeadline(time.Now().Add(wait(t, 5*time.Second)))
		if _, err := c.Write(out); err != nil {
			c.broken(t, "sending: %v", err)
		}
		_ = c.SetReadDeadline(time.Now().Add(wait(t, replyBudget)))
		got := make([]byte, len(want))
		n, err := io.ReadFull(c, got)
		if !bytes.Equal(got[:n], want[:n]) {
			t.Failf("replies to the complete requests differ:\n got %x\nwant %x", got[:n], want)
		}
		if err != nil {
			if isTimeout(err) {
				t.FailTimeoutf("only %d of %d reply bytes to the complete requests", n, len(want))
			}
			c.broken(t, "only %d of %d reply bytes to the complete requests: %v", n, len(want), err)
		}
		switch how {
		case 0:
			_ = c.Conn.(*net.TCPConn).CloseWrite()
		case 1:
			rst(c.Conn)
		case 2:
			_ = c.Close()
		}
		if how == 0 || how == 3 {
			more, err := readToEOF(c, wait(t, 6*time.Second))
			if len(more) > 0 {
				t.Failf("a request of which %d of %d bytes arrived was answered: %x", k, len(f), more)
			}
			if isTimeout(err) {
				t.FailTimeoutf("%s: the server does not end the connection", name)
			}
		}
		// others are served as before, and nothing has changed
		r2, ok := genValid(t, u.m, 3)
		if ok {
			c2 := dial(t, s.addr)
			c2.soft = stalls
			judge(t, u.m, r2, c2.exchange(t, u.id, r2))
			rst(c2.Conn)
		}
		if d := diffOf(t, u); d != "" {
			t.Failf("after a request of which %d of %d bytes arrived: %s", k, len(f), d)
		}
	})
	time.Sleep(time.Millisecond)
	if d := diffOf(t, u); d != "" {
		t.Failf("at the end: %s", d)
	}
}

// ---- C18: user-defined function handlers ----

func runHandlers(t *T) {
	srv := modbus.NewTCPServer()
	u := smallUnit(t, byte(t.OneOf(1, 9, 247)))
	other := smallUnit(t, u.id+1)
	srv.AddNodes(u.nd, other.nd)
	type seen struct {
		nd   *modbus.NodeRegister
		data []byte
		gen  int // which of the handlers registered
	}
	type plan struct {
		kind int
		data []byte
		code byte
		n    int
	}
	var mu sync.Mutex
	var cur plan
	var log []seen
	kept := t.Bytes(600) // the application's buffer, of which handlers return parts
	keptWas := append([]byte(nil), kept...)
	custom := map[byte]bool{}
	latest := map[byte]int{}
	serial := 0
	// other goroutines register handlers for these meanwhile
	const busyFirst, busyLast, byHandler = 0x70, 0x77, 0x78
	register := func(int) {
		i := serial
		serial++
		fc := byte(t.OneOf(100, 65, 3, 16, 24, 17, 1, 6, 23, 7))
		if t.Chance(1, 4) {
			fc = t.Byte() & 0x7f
		}
		if fc >= busyFirst && fc <= byHandler {
			fc = 99
		}
		if t.Chance(1, 6) { // a nil handler changes nothing
			srv.RegisterFunctionHandler(fc, nil)
			t.Note("nil handler for fc %d", fc)
			t.Class("nil")
			return
		}
		if t.Chance(1, 4) { // one that has a handler already
			for f := 0; f < 256; f++ {
				if custom[byte(f)] {
					fc = byte(f)
					t.Class("registered again")
					break
				}
			}
		}
		custom[fc] = true
		latest[fc] = i
		t.Note("handler %d for fc %d", i, fc)
		srv.RegisterFunctionHandler(fc, func(nd *modbus.NodeRegister, data []byte) ([]byte, error) {
			mu.Lock()
			p := cur
			log = append(log, seen{nd, append([]byte(nil), data...), i})
			mu.Unlock()
			switch p.kind {
			case 0:
				return append([]byte(nil), p.data...), nil
			case 1:
				return nil, &modbus.ExceptionError{ExceptionCode: p.code}
			case 2:
				return nil, errors.New("no exception error")
			case 3:
				return data, nil // its own argument
			case 4:
				return data[len(data)-p.n:], nil // a tail of its argument
			case 5:
				return append([]byte(nil), p.data...), &modbus.ExceptionError{ExceptionCode: p.code}
			case 6:
				return nil, nil
			case 7:
				panic("handler panics")
			case 8:
				if err := nd.WriteHoldings(uint16(p.n), []uint16{uint16(p.code)}); err != nil {
					return nil, err
				}
				return []byte{p.code}, nil
			case 9:
				return kept[p.n : p.n+len(p.data)], nil
			case 10:
				return nil, fmt.Errorf("wrapped: %w", &modbus.ExceptionError{ExceptionCode: p.code})
			case 11: // changes its argument
				for i := range data {
					data[i] ^= 0xa5
				}
				return data, nil
			case 12: // in its argument's array
				return append(data[:p.n], p.data...), nil
			case 13: // drops its argument's contents
				for i := range data {
					data[i] = 0xee
				}
				return append([]byte(nil), p.data...), nil
			case 14: // registers another handler, its answer is that one's reply to come
				srv.RegisterFunctionHandler(byHandler, func(*modbus.NodeRegister, []byte) ([]byte, error) {
					return append([]byte(nil), p.data...), nil
				})
				return append([]byte(nil), p.data...), nil
			}
			return nil, nil
		})
	}
	t.Repeat(1, 6, register)
	s := startServer(t, srv)
	c := dial(t, s.addr)
	busy := map[byte]byte{} // the last reply registered
	if t.Chance(1, 4) {
		t.Class("registered meanwhile")
		stop, done := make(chan struct{}), make(chan struct{})
		var once sync.Once
		end := func() { once.Do(func() { close(stop) }); <-done }
		pause := t.Chance(1, 2)
		go func() {
			defer close(done)
			for k := byte(0); ; k++ {
				for fc := busyFirst; fc <= busyLast; fc++ {
					select {
					case <-stop:
						return
					default:
					}
					v := k
					srv.RegisterFunctionHandler(byte(fc), func(*modbus.NodeRegister, []byte) ([]byte, error) { return []byte{v}, nil })
					busy[byte(fc)] = v
				}
				if pause {
					time.Sleep(50 * time.Microsecond)
				}
			}
		}()
		t.Cleanup(end)
		defer func() {
			end()
			for fc, v := range busy {
				if got := c.exchange(t, u.id, req{fc, nil}); !bytes.Equal(got, []byte{fc, v}) {
					t.Failf("fc %d, registered while requests were served: reply %s, expected %s", fc, hx(got), hx([]byte{fc, v}))
				}
			}
		}()
	}
	t.Repeat(1, 15, func(int) {
		if t.Chance(1, 8) { // from now on
			t.Class("registered while serving")
			register(0)
		}
		w := u
		if t.Chance(1, 4) {
			w = other
		}
		var r req
		var fcs []byte
		for fc := 0; fc < 256; fc++ {
			if custom[byte(fc)] {
				fcs = append(fcs, byte(fc))
			}
		}
		if len(fcs) == 0 || t.Chance(1, 3) {
			r = genRequest(t, w.m)
		} else {
			r = req{fcs[t.Intn(len(fcs))], t.Bytes(t.OneOf(4, 0, 1, 2, 5, 100, 252, t.Range(0, 252)))}
		}
		if r.fc >= busyFirst && r.fc <= byHandler {
			r.fc = 98
		}
		t.Sub(1)
		if !custom[r.fc] {
			t.Note("unit %d fc %d data %s", w.id, r.fc, hx(r.data))
			judge(t, w.m, r, c.exchange(t, w.id, r))
			t.Class("builtin")
			return
		}
		p := plan{kind: t.Freq(6, 3, 2, 2, 2, 1, 1, 1, 2, 3, 2, 1, 1, 1, 1)}
		p.data = t.Bytes(t.OneOf(1, 2, 252, 251, t.Range(1, 252)))
		p.code = byte(t.OneOf(1, 2, 3, 4, 6, 11, int(t.Byte())))
		p.n = t.Range(0, len(r.data))
		if p.kind == 8 {
			p.n = w.m.HoldStart + t.Intn(len(w.m.Hold))
		}
		switch p.kind {
		case 9:
			p.n = t.Range(0, len(kept)-len(p.data))
			if t.Chance(1, 5) { // up to the end
				p.n = len(kept) - len(p.data)
			}
			copy(p.data, kept[p.n:])
		case 12:
			p.data = p.data[:min(len(p.data), 252-p.n)]
		}
		mu.Lock()
		cur, log = p, nil
		mu.Unlock()
		name := []string{"data", "exception", "other error", "echo", "tail", "data and exception", "nothing", "panic", "register write", "part of a buffer", "wrapped exception", "argument changed", "in its argument", "argument overwritten", "registers another"}[p.kind]
		t.Note("unit %d fc %d data %s, handler: %s %s code %d", w.id, r.fc, hx(r.data), name, hx(p.data), p.code)
		t.Class(name)
		t.NonTrivial()
		if p.kind == 7 {
			// an exception reply, silence or a closed connection: anything but harm
			pc := dial(t, s.addr)
			_, _ = pc.Write(model.TCP(9, w.id, r.pdu()))
			_ = pc.Conn.(*net.TCPConn).CloseWrite()
			if out, err := readToEOF(pc, wait(t, 6*time.Second)); isTimeout(err) {
				t.FailTimeoutf("a panicking handler wedged its connection (%s)", hx(out))
			}
		} else {
			var want []byte
			switch p.kind {
			case 0:
				want = append([]byte{r.fc}, p.data...)
			case 1, 5, 10:
				want = []byte{r.fc | 0x80, p.code}
			case 9, 13, 14:
				want = append([]byte{r.fc}, p.data...)
			case 11:
				want = append([]byte{r.fc}, r.data...)
				for i := range r.data {
					want[i+1] ^= 0xa5
				}
			case 12:
				want = append(append([]byte{r.fc}, r.data[:p.n]...), p.data...)
			case 2:
				want = []byte{r.fc | 0x80, 4}
			case 3:
				want = r.pdu()
			case 4:
				want = append([]byte{r.fc}, r.data[len(r.data)-p.n:]...)
			case 6:
				want = []byte{r.fc}
			case 8:
				want = []byte{r.fc, p.code}
				w.m.Hold[p.n-w.m.HoldStart] = uint16(p.code)
			}
			got := c.exchange(t, w.id, r)
			if !bytes.Equal(got, want) {
				t.Failf("fc %d data %s, handler %s: reply %s, expected %s", r.fc, hx(r.data), name, hx(got), hx(want))
			}
		}
		mu.Lock()
		l := log
		mu.Unlock()
		if p.kind == 14 {
			want := append([]byte{byHandler}, p.data...)
			if got := c.exchange(t, w.id, req{byHandler, []byte{1}}); !bytes.Equal(got, want) {
				t.Failf("fc 120, registered by a handler: reply %s, expected %s", hx(got), hx(want))
			}
		}
		if !bytes.Equal(kept, keptWas) {
			t.Failf("fc %d data %s, handler %s %d+%d: the buffer of which it returned a part was changed by the server", r.fc, hx(r.data), name, p.n, len(p.data))
		}
		if len(l) != 1 || l[0].nd != w.nd || !bytes.Equal(l[0].data, r.data) {
			t.Failf("fc %d unit %d data %s: the handler was called %d times %s", r.fc, w.id, hx(r.data), len(l), func() string {
				s := ""
				for _, x := range l {
					s += fmt.Sprintf("(unit %d, data %s) ", x.nd.SlaveID(), hx(x.data))
				}
				return s
			}())
		}
		if l[0].gen != latest[r.fc] {
			t.Failf("fc %d: handler %d was called, but handler %d was registered last", r.fc, l[0].gen, latest[r.fc])
		}
	})
	checkUnits(t, []*unit{u, other})
}

// ---- C25: the set of units ----

type registryAPI interface {
	AddNodes(...*modbus.NodeRegister)
	DeleteNode(byte)
	DeleteAllNode()
	GetNode(byte) (*modbus.NodeRegister, error)
	GetNodeList() []*modbus.NodeRegister
	Range(func(byte, *modbus.NodeRegister) bool)
}

func runRegistry(t *T) {
	srv := modbus.NewTCPServer()
	var reg registryAPI = srv
	var s *server
	var c *conn
	special := t.Chance(1, 4)
	if special {
		reg = modbus.NewTCPServerSpecial()
	} else {
		s = startServer(t, srv)
		c = dial(t, s.addr)
	}
	m := map[byte]*modbus.NodeRegister{}
	tag := map[*modbus.NodeRegister]uint16{}
	genID := func() byte {
		if t.Chance(1, 4) {
			return t.Byte()
		}
		return byte(t.OneOf(1, 2, 3, 0, 255, 247))
	}
	next := uint16(1)
	ops := 0
	type keptList struct{ l, was []*modbus.NodeRegister }
	var kept []keptList
	t.Repeat(1, 40, func(int) {
		ops++
		defer func() {
			for _, k := range kept {
				for i := range k.l {
					if k.l[i] != k.was[i] {
						t.Failf("a list of the units changed later: entry %d was unit %d", i, k.was[i].SlaveID())
					}
				}
			}
		}()
		switch t.Freq(5, 3, 1, 4, 2, 2, 1, 4, 1) {
		case 0:
			var nds []*modbus.NodeRegister
			for i := t.OneOf(1, 0, 2, 3); i > 0; i-- {
				id := genID()
				nd := modbus.NewNodeRegister(id, 0, 1, 0, 1, 0, 1, 0, 1)
				next++
				if err := nd.WriteHoldings(0, []uint16{next}); err != nil {
					t.Failf("WriteHoldings: %v", err)
				}
				tag[nd] = next
				m[id] = nd
				nds = append(nds, nd)
				t.Note("add %d (tag %d)", id, next)
			}
			reg.AddNodes(nds...)
			if t.Bool() { // the caller's slice is the caller's
				for i := range nds {
					nds[i] = nil
				}
			}
		case 1:
			id := genID()
			reg.DeleteNode(id)
			delete(m, id)
			t.Note("delete %d", id)
		case 2:
			reg.DeleteAllNode()
			m = map[byte]*modbus.NodeRegister{}
			t.Note("delete all")
		case 3:
			id := genID()
			nd, err := reg.GetNode(id)
			if m[id] != nd || (err == nil) != (m[id] != nil) {
				t.Failf("GetNode(%d) = %p, %v; expected %p", id, nd, err, m[id])
			}
		case 4:
			l := reg.GetNodeList()
			set := map[*modbus.NodeRegister]bool{}
			for _, n := range l {
				set[n] = true
			}
			for _, n := range m {
				if !set[n] {
					t.Failf("GetNodeList misses unit %d", n.SlaveID())
				}
			}
			if len(l) != len(m) {
				t.Failf("GetNodeList has %d units, expected %d", len(l), len(m))
			}
			if t.Chance(1, 4) { // so is the list
				for l = l[:cap(l)]; len(l) > 0; l = l[1:] {
					l[0] = nil
				}
			} else if len(l) > 0 && len(kept) < 8 {
				kept = append(kept, keptList{l, append([]*modbus.NodeRegister(nil), l...)})
			}
		case 8: // the callback may use and change the set
			odd := t.Intn(2)
			seen := map[byte]int{}
			within(t, 20*time.Second, "Range with a callback that deletes", func() {
				reg.Range(func(id byte, nd *modbus.NodeRegister) bool {
					seen[id]++
					if x, err := reg.GetNode(id); err != nil || x != nd {
						t.Failf("GetNode(%d) within Range: %p, %v; expected %p", id, x, err, nd)
					}
					if int(id)%2 == odd {
						reg.DeleteNode(id)
					}
					return true
				})
			})
			t.Note("delete every other within Range")
			for id := range m {
				if seen[id] != 1 {
					t.Failf("Range with a callback that deletes visited unit %d %d times", id, seen[id])
				}
				if int(id)%2 == odd {
					delete(m, id)
				}
			}
		case 5:
			got := map[byte]*modbus.NodeRegister{}
			n := 0
			reg.Range(func(id byte, nd *modbus.NodeRegister) bool { got[id] = nd; n++; return true })
			if n != len(m) || len(got) != len(m) {
				t.Failf("Range visited %d units (%d different), expected %d", n, len(got), len(m))
			}
			for id, nd := range m {
				if got[id] != nd {
					t.Failf("Range: unit %d is %p, expected %p", id, got[id], nd)
				}
			}
		case 6:
			n, stop := 0, t.Range(1, 3)
			reg.Range(func(byte, *modbus.NodeRegister) bool { n++; return n < stop })
			if n != min(stop, len(m)) {
				t.Failf("Range with a callback that stops after %d visited %d of %d units", stop, n, len(m))
			}
		case 7:
			if special || len(m) == 0 {
				return
			}
			// ask a unit over the wire, then one that surely exists
			id := genID()
			var ids []byte
			for k := 0; k < 256; k++ {
				if m[byte(k)] != nil {
					ids = append(ids, byte(k))
				}
			}
			alive := ids[t.Intn(len(ids))]
			t.Note("ask %d, then %d", id, alive)
			var out, want []byte
			for i, x := range []byte{id, alive} {
				out = append(out, model.TCP(uint16(ops*2+i), x, []byte{3, 0, 0, 0, 1})...)
				if nd := m[x]; nd != nil {
					v := tag[nd]
					want = append(want, model.TCP(uint16(ops*2+i), x, []byte{3, 2, byte(v >> 8), byte(v)})...)
				} else {
					t.Class("asked-absent-unit")
				}
			}
			_ = c.SetDeadline(time.Now().Add(wait(t, replyBudget)))
			if _, err := c.Write(out); err != nil {
				t.Failf("send: %v", err)
			}
			got := make([]byte, len(want))
			n, err := io.ReadFull(c, got)
			if !bytes.Equal(got[:n], want[:n]) {
				t.Failf("asked unit %d, then %d: replies %x, expected %x", id, alive, got[:n], want)
			}
			if err != nil {
				if isTimeout(err) {
					t.FailTimeoutf("asked unit %d, then %d: %d of %d reply bytes", id, alive, n, len(want))
				}
				t.Failf("asked unit %d, then %d: %d of %d reply bytes: %v", id, alive, n, len(want), err)
			}
			t.NonTrivial()
		}
		t.Sub(1)
	})
	for k := 0; k < 256; k++ {
		nd, err := reg.GetNode(byte(k))
		if nd != m[byte(k)] || (err == nil) != (nd != nil) {
			t.Failf("at the end GetNode(%d) = %p, %v; expected %p", k, nd, err, m[byte(k)])
		}
	}
	if special && ops > 3 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Property{
		ID: "C03", Quick: 30000, Thorough: 300000, Workers: 16,
		Rule: "a case is a live TCP server and 1-5 connections that send generated rubbish (garbage, headers with every kind of length, cut or hollow requests, unknown functions) in pieces and end in four ways; " +
			"after each, an old connection must be served, and at the end a new one, and the registers must equal the model; non-trivial = at least one attack was sent",
		Run: runGarbage,
	})
	register(&pbt.Property{
		ID: "C04", Quick: 15000, Thorough: 150000, Workers: 16,
		Rule: "a case is 1-4 connections at once, each with a pipelined stream of 1-26 (now and then up to 100) requests (valid, illegal, to absent units, of other protocols) cut into generated pieces; " +
			"the complete reply stream is compared byte by byte; non-trivial = the stream was cut",
		Run: runFraming,
	})
	register(&pbt.Property{
		ID: "C26", Quick: 4000, Thorough: 40000, Workers: 24,
		Rule: "a case is 1-6 connections that send complete requests and then a strict prefix (every length is drawn) of one more, and end by half-close, reset, close or silence; always non-trivial",
		Run:  runTruncated,
	})
	register(&pbt.Property{
		ID: "C18", Quick: 50000, Thorough: 500000, Workers: 16,
		Rule: "a case is a server with 1-5 generated handlers (new functions, overridden ones, nil) and 1-15 requests for which the handler returns data of any size, part of a buffer it keeps (which must stay as it is), its argument or a part of it (changed or not), an exception (bare or wrapped), another error, both, nothing, or panics; " +
			"non-trivial = a handler was called",
		Run: runHandlers,
	})
	register(&pbt.Property{
		ID: "C25", Quick: 100000, Thorough: 1000000, Workers: 16,
		Rule: "a case is 1-40 operations on the set of units of a server against a map, including questions over TCP to present and absent units; non-trivial = a question was asked (or, for the reverse-connecting server, more than 3 operations)",
		Run:  runRegistry,
	})
}

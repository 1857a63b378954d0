package props

import (
	"bytes"
	"errors"
	"fmt"
	"strconv"
	"strings"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

const callBudget = 12 * time.Second

func genUnit(t *T) byte {
	switch t.Intn(3) {
	case 0:
		return byte(t.Range(1, 5))
	case 1:
		return byte(t.OneOf(1, 247, 10, 13, 58))
	}
	return byte(t.Range(1, 247))
}

func genKind(t *T, tcp, rtu, ascii int) int { return t.Freq(tcp, rtu, ascii) }

// goodExchange runs one valid call against the slave and checks wire and result.
func goodExchange(t *T, l *link, c *call) {
	resp := c.good(t)
	want, ok := c.parse(resp)
	if !ok {
		panic("harness: good response does not parse: " + c.String() + " " + hx(resp))
	}
	ch := start(func() (any, error) { return c.do(l.cli) })
	tid := l.requestOr(t, c, ch)
	l.sendCut(t, frameADU(l.kind, tid, c.unit, append([]byte{c.fc}, resp...)))
	r := await(t, ch, callBudget, c.String())
	if r.err != nil {
		t.Failf("%s %s: valid response %s was refused: %v", kindName[l.kind], c, hx(resp), r.err)
	}
	if !c.same(r.val, want) {
		t.Failf("%s %s: response %s gave %s, expected %s", kindName[l.kind], c, hx(resp), valText(r.val), valText(want))
	}
}

// requestOr waits for the request, or reports that the call ended without one.
func (l *link) requestOr(t *T, c *call, ch chan result) uint16 {
	type rq struct {
		tid uint16
		f   any
	}
	done := make(chan rq, 1)
	go func() {
		var x rq
		defer func() { x.f = recover(); done <- x }()
		x.tid = l.request(t, c.unit, c.pdu())
	}()
	select {
	case x := <-done:
		if x.f != nil {
			panic(x.f)
		}
		return x.tid
	case r := <-ch:
		// the call ended early; the request may still be under way in the pipe
		select {
		case x := <-done:
			if x.f == nil {
				ch <- r
				return x.tid
			}
		case <-time.After(20 * time.Millisecond):
		}
		if r.pan != nil {
			t.Failf("%s %s: panic: %v", kindName[l.kind], c, r.pan)
		}
		t.Failf("%s %s: returned %s, %v before the slave answered", kindName[l.kind], c, valText(r.val), r.err)
	}
	panic("unreachable")
}

func runEncoding(t *T) {
	kind := genKind(t, 6, 2, 2)
	l := newLink(t, kind, linkOpt{})
	maxCalls := 25
	if kind != TCP {
		maxCalls = 4
	}
	good, bad := 0, 0
	t.Repeat(1, maxCalls, func(int) {
		valid := !t.Chance(1, 4)
		c := genCall(t, valid, kind == RTU && !t.Chance(1, 6), genUnit(t))
		t.Note("%s %s valid=%v", kindName[kind], c, c.valid)
		t.Sub(1)
		if c.valid {
			good++
			t.Class(kindName[kind] + ":" + c.name)
			goodExchange(t, l, c)
			return
		}
		bad++
		t.Class(kindName[kind] + ":invalid")
		r := await(t, start(func() (any, error) { return c.do(l.cli) }), callBudget, c.String())
		if r.err == nil || r.val != nil {
			t.Failf("%s %s with illegal arguments: returned %s, error %v", kindName[kind], c, valText(r.val), r.err)
		}
	})
	if p := l.pending(); len(p) > 0 {
		t.Failf("%s: bytes sent for a refused call: %s", kindName[kind], hx(p))
	}
	if good > 0 {
		t.NonTrivial()
	}
}

// ---- responses that must or must not be accepted ----

type verdict int

const (
	vReject verdict = iota
	vAccept
	vEither // accepting the value or refusing are both fine
)

type expect struct {
	v    verdict
	val  any
	exc  int  // exception code that must surface, -1 if none
	no   bool // not from the unit or transaction asked, or damaged: no exception of it either
	what string
}

// judgePDU is the reference reaction to a response PDU from the right unit.
func judgePDU(c *call, pdu []byte) expect {
	if len(pdu) == 0 {
		return expect{exc: -1}
	}
	if pdu[0] == c.fc|0x80 && len(pdu) == 2 {
		return expect{exc: int(pdu[1])}
	}
	if pdu[0] != c.fc {
		return expect{exc: -1}
	}
	v, ok := c.parse(pdu[1:])
	if ok {
		return expect{v: vAccept, val: v, exc: -1}
	}
	return expect{exc: -1}
}

// reference reaction to the bytes b answering request (c, tid).
func judgeBytes(kind int, c *call, tid uint16, b []byte) expect {
	rej := expect{exc: -1, no: true}
	switch kind {
	case TCP:
		if len(b) < 7 {
			return rej
		}
		n := be(b, 4)
		if n < 2 || n > 254 || len(b) < 6+n {
			return rej
		}
		if be(b, 0) != int(tid) || be(b, 2) != 0 || b[6] != c.unit {
			return rej
		}
		return judgePDU(c, b[7:6+n])
	case RTU:
		if u, p, ok := model.DecodeRTU(b); ok {
			if u != c.unit {
				return rej
			}
			return judgePDU(c, p)
		}
		for n := 4; n < len(b); n++ {
			if u, p, ok := model.DecodeRTU(b[:n]); ok && u == c.unit {
				rej.no = false
				if e := judgePDU(c, p); e.v == vAccept || e.exc >= 0 {
					if e.v == vAccept {
						e.v = vEither
					}
					e.exc = -1
					return e
				}
			}
		}
		return rej
	default:
		if u, p, ok := model.DecodeASCII(b); ok {
			if u != c.unit {
				return rej
			}
			e := judgePDU(c, p)
			if !bytes.Equal(b, bytes.ToUpper(b)) {
				if e.v == vAccept {
					e.v = vEither
				}
				e.exc = -1
			}
			return e
		}
		for n := 9; n < len(b); n++ {
			if u, p, ok := model.DecodeASCII(b[:n]); ok && u == c.unit {
				rej.no = false
				if e := judgePDU(c, p); e.v == vAccept {
					e.v, e.exc = vEither, -1
					return e
				}
			}
		}
		return rej
	}
}

// genResponse draws response bytes for request (c, tid): right, or wrong in one
// or several ways.
func genResponse(t *T, kind int, c *call, tid uint16) ([]byte, string) {
	fc, unit, d := c.fc, c.unit, c.good(t)
	what := "valid"
	pdu := func() []byte { return append([]byte{fc}, d...) }
	mutPDU := func() {
		switch t.Intn(10) {
		case 0: // one bit of the payload
			if len(d) > 0 {
				d[t.Intn(len(d))] ^= 1 << uint(t.Intn(8))
			}
			what = "payload bit"
		case 1: // truncated payload
			d = d[:t.Intn(len(d)+1)]
			what = "payload cut"
		case 2: // surplus payload
			d = append(d, t.Bytes(t.Range(1, 4))...)
			what = "payload surplus"
		case 3: // consistent byte count but not the quantity asked for
			n := t.OneOf(2, 4, 1, 3, 6, 8, 250, 248) % 251
			if c.fc == 24 { // more than a queue can hold
				n = t.OneOf(64, 66, 68, 100, 124)
				d = append(u16b(n+2, n/2), t.Bytes(n)...)
			} else if n == len(d)-1 {
				n++
				d = append([]byte{byte(n)}, t.Bytes(n)...)
			} else {
				d = append([]byte{byte(n)}, t.Bytes(n)...)
			}
			what = "wrong quantity"
		case 4: // byte count field
			if len(d) > 0 {
				d[0] += byte(t.OneOf(1, -1, 2, -2, 128))
			}
			what = "byte count"
		case 5:
			fc = byte(t.OneOf(1, 2, 3, 4, 5, 6, 15, 16, 22, 23, 24, int(c.fc^1), int(t.Byte())))
			what = "function code"
		case 6:
			unit ^= 1 << uint(t.Intn(8))
			what = "unit"
			if t.Bool() { // another unit's exception
				fc, d = c.fc|0x80, []byte{byte(t.OneOf(1, 2, 3, 4, 5, 6, 8, 10, 11, 0, 255))}
			}
		case 7:
			fc, d = c.fc|0x80, []byte{byte(t.OneOf(1, 2, 3, 4, 5, 6, 8, 10, 11, 0, 255, int(t.Byte())))}
			what = "exception"
		case 8:
			fc, d = c.fc|0x80, t.Bytes(t.OneOf(0, 2, 3, 5))
			what = "malformed exception"
		case 9:
			d = nil
			what = "empty"
		}
		if len(d) > 252 {
			d = d[:252]
		}
	}
	k := t.Freq(3, 6, 6)
	if k == 1 || (k == 2 && t.Chance(1, 3)) {
		mutPDU()
	}
	if k < 2 {
		return frameADU(kind, tid, unit, pdu()), what
	}
	b := frameADU(kind, tid, unit, pdu())
	what = "frame:" + what
	switch kind {
	case TCP:
		switch t.Intn(9) {
		case 8:
			b = append(t.Bytes(t.Range(1, 6)), b...)
			what += "+leading"
		case 0:
			tid2 := tid + uint16(t.OneOf(1, -1, 256, 0x8000, int(t.U16())))
			b[0], b[1] = byte(tid2>>8), byte(tid2)
			what += "+tid"
		case 1:
			p := t.OneOf(1, 256, 0xffff, int(t.U16()))
			b[2], b[3] = byte(p>>8), byte(p)
			what += "+pid"
		case 2:
			n := t.OneOf(0, 1, 2, be(b, 4)-1, be(b, 4)+1, 254, 255, 256, 260, 0xffff, 0x8000, int(t.U16()))
			if n < 0 {
				n = 0
			}
			b[4], b[5] = byte(n>>8), byte(n)
			what += "+length"
		case 3:
			b = b[:t.Intn(len(b))]
			what += "+cut"
		case 4:
			b = append(b, t.Bytes(t.Range(1, 12))...)
			what += "+trailing"
		case 5:
			b[t.Intn(len(b))] ^= 1 << uint(t.Intn(8))
			what += "+bit"
		case 6:
			b = t.Bytes(t.Range(0, 30))
			what = "frame:random"
		case 7:
			b[6] ^= 1 << uint(t.Intn(8))
			what += "+unit"
		}
	case RTU:
		switch t.Intn(10) {
		case 9:
			b = append(t.Bytes(t.Range(1, 6)), b...)
			what += "+leading"
		case 7, 8: // sums that are none, of something else or computed otherwise
			if len(b) < 4 {
				break
			}
			x := b[:len(b)-2]
			s := model.CRC16(x)
			s = uint16(t.OneOf(0, 0xffff, 0xa001, int(^s), int(s^1), int(model.CRC16(x[1:])), int(model.CRC16(x[:len(x)-1])), int(model.CRC16(x[:2])), int(model.CRC16(b)), int(model.LRC(x)), int(uint16(x[0])<<8|uint16(x[1]))))
			b[len(b)-2], b[len(b)-1] = byte(s), byte(s>>8)
			what += "+other sum"
		case 0, 1: // a burst of bit errors
			for i := t.Range(1, 3); i > 0; i-- {
				b[t.Intn(len(b))] ^= 1 << uint(t.Intn(8))
			}
			what += "+bits"
		case 2:
			b[len(b)-1], b[len(b)-2] = b[len(b)-2], b[len(b)-1]
			what += "+crc swapped"
		case 3:
			b = b[:t.Intn(len(b))]
			what += "+cut"
		case 4:
			b = append(b, t.Bytes(t.Range(1, 6))...)
			what += "+trailing"
		case 5:
			b = t.Bytes(t.Range(0, 20))
			what = "frame:random"
		case 6:
			b[len(b)-t.Range(1, 2)] = t.Byte()
			what += "+crc"
		}
	default:
		switch t.Intn(12) {
		case 11: // characters before, part of a frame or not
			n := t.Bytes(t.Range(1, 14))
			for i := range n {
				n[i] = "0123456789ABCDEF"[n[i]&15]
				if i == 0 && t.Bool() || t.Intn(12) == 0 {
					n[i] = byte(t.OneOf(':', ' ', 0, 0xff))
				}
			}
			b = append(n, b...)
			what += "+leading"
		case 9, 10: // sums that are none, of something else or computed otherwise
			var x []byte
			for i := 1; i+3 < len(b)-2; i += 2 {
				v, _ := strconv.ParseUint(string(b[i:i+2]), 16, 8)
				x = append(x, byte(v))
			}
			if len(x) == 0 {
				break
			}
			s := model.LRC(x)
			xor := byte(0)
			for _, v := range x {
				xor ^= v
			}
			s = byte(t.OneOf(0, 0xff, int(-s), int(^s), int(s+1), int(s-1), int(s^0x80), int(xor), int(model.LRC(x[1:])), int(model.LRC(x[:len(x)-1])), int(model.CRC16(x)), int(s>>4|s<<4)))
			b[len(b)-4], b[len(b)-3] = "0123456789ABCDEF"[s>>4], "0123456789ABCDEF"[s&15]
			what += "+other sum"
		case 0:
			b[t.Intn(len(b))] ^= 1 << uint(t.Intn(7))
			what += "+bit"
		case 1: // one character to another hex digit
			b[t.Range(1, len(b)-3)] = "0123456789ABCDEF"[t.Intn(16)]
			what += "+digit"
		case 2:
			b[t.Range(1, len(b)-3)] = byte(t.OneOf('G', 'g', ' ', ':', '/', '@', 0, 0x80))
			what += "+non-hex"
		case 3:
			b = b[:t.Intn(len(b))]
			what += "+cut"
		case 4:
			b = append(b, t.Bytes(t.Range(1, 6))...)
			what += "+trailing"
		case 5:
			b = bytes.ToLower(b)
			what += "+lower"
		case 6: // wrong start or end
			switch t.Intn(4) {
			case 0:
				b[0] = byte(t.OneOf(';', '0', 0, 'A'))
			case 1:
				b = b[1:]
			case 2:
				b[len(b)-2] = '\n'
			case 3:
				b = append(b[:len(b)-2], '\n')
			}
			what += "+delimiter"
		case 7: // a byte lost or doubled (still even)
			i := t.Range(1, len(b)-4)
			if t.Bool() {
				b = append(append([]byte(nil), b[:i]...), b[i+2:]...)
			} else {
				b = append(append([]byte(nil), b[:i+1]...), b[i:]...)
			}
			what += "+lost/doubled"
		case 8:
			b = append([]byte(":"), append(t.Bytes(t.Range(0, 12)), '\r', '\n')...)
			what = "frame:random"
		}
	}
	return b, what
}

func checkExpect(t *T, kind int, c *call, b []byte, what string, e expect, r result) {
	switch {
	case e.exc >= 0:
		var ee *modbus.ExceptionError
		if r.err == nil || !errors.As(r.err, &ee) || int(ee.ExceptionCode) != e.exc {
			t.Failf("%s %s: exception response %s gave %s, error %v; expected exception %d", kindName[kind], c, hx(b), valText(r.val), r.err, e.exc)
		}
		if r.val != nil {
			t.Failf("%s %s: exception response %s returned a value %s as well", kindName[kind], c, hx(b), valText(r.val))
		}
	case e.v == vReject:
		if r.err == nil {
			t.Failf("%s %s: response %s (%s) was accepted as %s", kindName[kind], c, hx(b), what, valText(r.val))
		}
		if ee := (*modbus.ExceptionError)(nil); e.no && errors.As(r.err, &ee) {
			t.Failf("%s %s: response %s (%s), damaged or not to this request, surfaced as an exception: %v", kindName[kind], c, hx(b), what, r.err)
		}
		if r.val != nil {
			t.Failf("%s %s: response %s (%s): error %v and yet a value %s", kindName[kind], c, hx(b), what, r.err, valText(r.val))
		}
	case e.v == vAccept && r.err != nil:
		t.Failf("%s %s: valid response %s (%s) was refused: %v", kindName[kind], c, hx(b), what, r.err)
	case r.err == nil && !c.same(r.val, e.val):
		t.Failf("%s %s: response %s (%s) gave %s, expected %s", kindName[kind], c, hx(b), what, valText(r.val), valText(e.val))
	}
}

func runAccept(t *T, kind int) {
	if kind == TCP {
		l := newLink(t, TCP, linkOpt{})
		t.Repeat(1, 12, func(int) {
			c := genCall(t, true, false, genUnit(t))
			if !l.cli.IsConnected() {
				l.connect(t)
			}
			l.lastTid = -1
			ch := start(func() (any, error) { return c.do(l.cli) })
			tid := l.requestOr(t, c, ch)
			b, what := genResponse(t, TCP, c, tid)
			e := judgeBytes(TCP, c, tid, b)
			t.Note("%s <- %s (%s) expect %s", c, hx(b), what, e)
			t.Sub(1)
			t.Class(what)
			l.sendResp(t, b, what)
			if e.v != vAccept && e.exc < 0 { // nothing more will come
				_ = l.sc.(interface{ CloseWrite() error }).CloseWrite()
			}
			r := await(t, ch, callBudget, c.String())
			checkExpect(t, TCP, c, b, what, e, r)
			if e.v != vAccept {
				t.NonTrivial()
			}
			if len(b) > 6 && (e.v != vAccept && e.exc < 0 || len(b) != 6+be(b, 4)) {
				closeQuietly(l.cli) // start over: leftovers are another property's matter
			}
			if e.v == vReject {
				closeQuietly(l.cli)
			}
		})
		return
	}
	c := genCall(t, true, kind == RTU && !t.Chance(1, 8), genUnit(t))
	b, what := genResponse(t, kind, c, 0)
	e := judgeBytes(kind, c, 0, b)
	t.Note("%s <- %s (%s) expect %s", c, hx(b), what, e)
	t.Class(what)
	o := linkOpt{}
	if e.v != vAccept && e.exc < 0 {
		o.timeout = 60 * time.Millisecond // either way an error
		t.NonTrivial()
	}
	if e.exc >= 0 {
		t.NonTrivial()
	}
	l := newLink(t, kind, o)
	ch := start(func() (any, error) { return c.do(l.cli) })
	l.requestOr(t, c, ch)
	l.sendResp(t, b, what)
	r := await(t, ch, callBudget, c.String())
	checkExpect(t, kind, c, b, what, e, r)
	t.Sub(1)
}

func (e expect) String() string {
	switch {
	case e.exc >= 0:
		return fmt.Sprintf("exception %d", e.exc)
	case e.v == vAccept:
		return "acceptance"
	case e.v == vEither:
		return "acceptance or refusal"
	}
	return "refusal"
}

// ---- exceptions ----

func runExceptions(t *T) {
	kind := genKind(t, 4, 2, 2)
	l := newLink(t, kind, linkOpt{})
	n := 30
	if kind == RTU {
		n = 2
	}
	codes := []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 11}
	t.Repeat(1, n, func(int) {
		c := genCall(t, true, kind == RTU, genUnit(t))
		code := byte(codes[t.Intn(len(codes))])
		if t.Chance(1, 3) {
			code = t.Byte()
		}
		t.Note("%s %s <- exception %d", kindName[kind], c, code)
		t.Class(kindName[kind] + ":" + c.name)
		t.Sub(1)
		ch := start(func() (any, error) { return c.do(l.cli) })
		tid := l.requestOr(t, c, ch)
		b := frameADU(kind, tid, c.unit, []byte{c.fc | 0x80, code})
		l.sendCut(t, b)
		r := await(t, ch, callBudget, c.String())
		checkExpect(t, kind, c, b, "exception", expect{exc: int(code)}, r)
		if !strings.Contains(r.err.Error(), fmt.Sprint(code)) {
			t.Failf("the error of exception %d does not name it: %v", code, r.err)
		}
	})
	// and the client goes on working
	goodExchange(t, l, genCall(t, true, kind == RTU, genUnit(t)))
	t.NonTrivial()
}

// ---- fragmentation ----

func runFragments(t *T) {
	kind := genKind(t, 3, 4, 3)
	l := newLink(t, kind, linkOpt{})
	n := 6
	if kind != TCP {
		n = 2
	}
	t.Repeat(1, n, func(int) {
		c := genCall(t, true, kind == RTU && !t.Chance(1, 8), genUnit(t))
		resp := append([]byte{c.fc}, c.good(t)...)
		user := kind != RTU && t.Chance(1, 4) // a function of the user's, up to the longest frame
		if user {
			c.name, c.fc = "user function", byte(t.Range(65, 127))
			c.data = t.Bytes(genSize(t, 20))
			resp = append([]byte{c.fc}, t.Bytes(max(1, genSize(t, 252)))...)
		}
		var want any
		ok := true
		if !user {
			want, ok = c.parse(resp[1:])
		}
		var exc = -1
		if t.Chance(1, 5) {
			exc, ok = int(t.Byte()), true
			resp = []byte{c.fc | 0x80, byte(exc)}
		}
		if !ok {
			panic("harness: good response does not parse")
		}
		total := len(frameADU(kind, 0, c.unit, resp))
		var chunks []int
		switch t.Freq(4, 2, 1, 2) {
		case 3: // one cut before the last bytes
			chunks = []int{total - t.Range(1, min(4, total-1))}
		case 0: // one cut anywhere
			chunks = []int{t.Range(1, total-1)}
		case 1: // a few cuts
			t.Repeat(1, 6, func(int) { chunks = append(chunks, t.Range(1, max(1, total/3))) })
		case 2: // the first bytes one by one
			for i := t.Range(2, min(total-1, 14)); i > 0; i-- {
				chunks = append(chunks, 1)
			}
		}
		pause := time.Duration(t.OneOf(2000, 500, 0, 5000)) * time.Microsecond
		late := kind == RTU && !t.Chance(1, 4)
		t.Note("%s %s <- %s in chunks %v, pause %v", kindName[kind], c, hx(resp), chunks, pause)
		t.Class(kindName[kind])
		t.Sub(1)
		do := func() (any, error) { return c.do(l.cli) }
		if user {
			do = func() (any, error) { return nb(l.cli.SendPdu(c.unit, c.pdu())) }
		}
		ch := start(do)
		tid := l.requestOr(t, c, ch)
		if late { // the RTU client first waits for the transmission time
			time.Sleep(time.Duration(750*(len(c.data)+4+total)+1750+500) * time.Microsecond)
		}
		b := frameADU(kind, tid, c.unit, resp)
		l.send(t, b, chunks, pause)
		r := await(t, ch, callBudget, c.String())
		if user && exc < 0 {
			if g, _ := r.val.([]byte); r.err != nil || !bytes.Equal(g, resp) {
				t.Failf("%s SendPdu(%s): response %s in chunks %v gave %s, %v", kindName[kind], hx(c.pdu()), hx(resp), chunks, valText(r.val), r.err)
			}
		} else {
			checkExpect(t, kind, c, b, fmt.Sprintf("in chunks %v", chunks), expect{v: vAccept, val: want, exc: exc}, r)
		}
		if pause > 0 {
			t.NonTrivial()
		}
	})
}

func init() {
	register(&pbt.Property{
		ID: "C07", Quick: 20000, Thorough: 200000, Workers: 24,
		Rule: "a case is one client (TCP over loopback, RTU or ASCII over a pseudo terminal) and 1-25 calls of the 15 methods with generated arguments, a quarter of them illegal; " +
			"a played slave compares the bytes of every request with a reference encoder and answers it; non-trivial = at least one legal call was exchanged",
		Run: runEncoding,
	})
	register(&pbt.Property{
		ID: "C08", Quick: 60000, Thorough: 600000, Workers: 16,
		Rule: "a case is a TCP client and 1-12 calls, each answered with a response that is right or wrong in a generated way (payload, function, unit, transaction, protocol, length field, cut, surplus, random); " +
			"a reference decides accept / exception / refuse; non-trivial = at least one response must not be accepted as data",
		Run: func(t *T) { runAccept(t, TCP) },
	})
	register(&pbt.Property{
		ID: "C09", Quick: 20000, Thorough: 200000, Workers: 48,
		Rule: "a case is an RTU client on a pseudo terminal and one call answered with a response that is right or wrong in a generated way (payload, function, unit, CRC, bit errors, cut, surplus, random); " +
			"non-trivial = the response must not be accepted as data",
		Run: func(t *T) { runAccept(t, RTU) },
	})
	register(&pbt.Property{
		ID: "C10", Quick: 60000, Thorough: 600000, Workers: 48,
		Rule: "as C09 for the ASCII client: digits, delimiters, LRC, case, lost and doubled characters",
		Run:  func(t *T) { runAccept(t, ASCII) },
	})
	register(&pbt.Property{
		ID: "C11", Quick: 15000, Thorough: 150000, Workers: 24,
		Rule: "a case is one client on one of the three transports and 1-30 calls answered with exception responses of every code, then a normal exchange; always non-trivial",
		Run:  runExceptions,
	})
	register(&pbt.Property{
		ID: "C13", Quick: 20000, Thorough: 200000, Workers: 48,
		Rule: "a case is one client on one of the three transports and 1-6 calls whose responses are delivered in generated pieces with pauses between them; non-trivial = there was a pause",
		Run:  runFragments,
	})
}

package props

import (
	"bytes"
	"errors"
	"fmt"
	"sync"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C05: the registers as a local API ----

func eqWords(a, b []uint16) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// refusal checks the error of an access outside the registers.
func refusal(t *T, what string, err error) {
	var ee *modbus.ExceptionError
	if err == nil {
		t.Failf("%s: outside the registers, and accepted", what)
	}
	if !errors.As(err, &ee) || ee.ExceptionCode != 2 {
		t.Failf("%s: outside the registers, error %v, expected exception 2", what, err)
	}
}

func genLocal(t *T, start, n int) (a, q int) {
	if t.Chance(2, 3) {
		if a, q, ok := genRange(t, start, n, 65535); ok {
			return a, q
		}
	}
	return genWild(t, start, n, 2000)
}

// nodeOp performs one generated call on the node and the model.
func nodeOp(t *T, nd *modbus.NodeRegister, m *model.Node) {
	bits := t.Bool()
	second := t.Bool() // discretes / inputs
	if bits {
		st, bank := m.CoilStart, m.Coil
		name, rd, wr, rd1, wr1 := "Coil", nd.ReadCoils, nd.WriteCoils, nd.ReadSingleCoil, nd.WriteSingleCoil
		if second {
			st, bank = m.DiscStart, m.Disc
			name, rd, wr, rd1, wr1 = "Discrete", nd.ReadDiscretes, nd.WriteDiscretes, nd.ReadSingleDiscrete, nd.WriteSingleDiscrete
		}
		a, q := genLocal(t, st, len(bank))
		in := model.InRange(a, q, st, len(bank))
		switch t.Freq(3, 4, 1, 1) {
		case 0:
			what := fmt.Sprintf("Read%ss(%d,%d)", name, a, q)
			t.Note("%s", what)
			v, err := rd(uint16(a), uint16(q))
			switch {
			case q == 0:
				if len(v) != 0 {
					t.Failf("%s = %s", what, hx(v))
				}
			case !in:
				refusal(t, what, err)
				if v != nil {
					t.Failf("%s: error and data", what)
				}
			case err != nil:
				t.Failf("%s: %v", what, err)
			default:
				if want := model.PackBits(bank[a-st : a-st+q]); !bytes.Equal(v, want) {
					t.Failf("%s = %s, expected %s", what, hx(v), hx(want))
				}
				t.Class("bits-read")
			}
		case 1:
			need := (q + 7) / 8
			l := need
			if t.Chance(1, 4) {
				l = max(0, need+t.OneOf(-1, 1, 5, -need))
			}
			v := t.Bytes(min(l, 9000))
			what := fmt.Sprintf("Write%ss(%d,%d,%s)", name, a, q, hx(v))
			t.Note("%s", what)
			err := wr(uint16(a), uint16(q), v)
			switch {
			case q == 0: // nothing to do, or refused
			case !in || len(v) < need:
				refusal(t, what, err)
			case err != nil:
				t.Failf("%s: %v", what, err)
			default:
				copy(bank[a-st:], model.UnpackBits(v, q))
				t.Class("bits-written")
			}
		case 2:
			what := fmt.Sprintf("ReadSingle%s(%d)", name, a)
			t.Note("%s", what)
			v, err := rd1(uint16(a))
			if !model.InRange(a, 1, st, len(bank)) {
				refusal(t, what, err)
			} else if err != nil || v != bank[a-st] {
				t.Failf("%s = %v, %v; expected %v", what, v, err, bank[a-st])
			}
		case 3:
			v := t.Bool()
			what := fmt.Sprintf("WriteSingle%s(%d,%v)", name, a, v)
			t.Note("%s", what)
			err := wr1(uint16(a), v)
			if !model.InRange(a, 1, st, len(bank)) {
				refusal(t, what, err)
			} else if err != nil {
				t.Failf("%s: %v", what, err)
			} else {
				bank[a-st] = v
				t.Class("bit-written")
			}
		}
		return
	}
	st, bank := m.HoldStart, m.Hold
	name, rd, rdb, wr, wrb := "Holdings", nd.ReadHoldings, nd.ReadHoldingsBytes, nd.WriteHoldings, nd.WriteHoldingsBytes
	if second {
		st, bank = m.InStart, m.In
		name, rd, rdb, wr, wrb = "Inputs", nd.ReadInputs, nd.ReadInputsBytes, nd.WriteInputs, nd.WriteInputsBytes
	}
	a, q := genLocal(t, st, len(bank))
	in := model.InRange(a, q, st, len(bank))
	switch t.Freq(2, 2, 3, 3, 2) {
	case 0:
		what := fmt.Sprintf("Read%s(%d,%d)", name, a, q)
		t.Note("%s", what)
		v, err := rd(uint16(a), uint16(q))
		switch {
		case q == 0:
			if len(v) != 0 {
				t.Failf("%s = %v", what, v)
			}
		case !in:
			refusal(t, what, err)
			if v != nil {
				t.Failf("%s: error and data", what)
			}
		case err != nil:
			t.Failf("%s: %v", what, err)
		default:
			if !eqWords(v, bank[a-st:a-st+q]) {
				t.Failf("%s = %04x, expected %04x", what, v, bank[a-st:a-st+q])
			}
			t.Class("words-read")
		}
	case 1:
		what := fmt.Sprintf("Read%sBytes(%d,%d)", name, a, q)
		t.Note("%s", what)
		v, err := rdb(uint16(a), uint16(q))
		switch {
		case q == 0:
			if len(v) != 0 {
				t.Failf("%s = %v", what, v)
			}
		case !in:
			refusal(t, what, err)
			if v != nil {
				t.Failf("%s: error and data", what)
			}
		case err != nil:
			t.Failf("%s: %v", what, err)
		default:
			if want := model.PackRegs(bank[a-st : a-st+q]); !bytes.Equal(v, want) {
				t.Failf("%s = %s, expected %s", what, hx(v), hx(want))
			}
			t.Class("words-read")
		}
	case 2:
		v := model.UnpackRegs(t.Bytes(2 * min(q, 4000)))
		q = len(v)
		what := fmt.Sprintf("Write%s(%d,%d values %s)", name, a, q, hx(model.PackRegs(v)))
		t.Note("%s", what)
		err := wr(uint16(a), v)
		switch {
		case q == 0:
		case !model.InRange(a, q, st, len(bank)):
			refusal(t, what, err)
		case err != nil:
			t.Failf("%s: %v", what, err)
		default:
			copy(bank[a-st:], v)
			t.Class("words-written")
		}
	case 3:
		l := 2 * q
		if t.Chance(1, 4) {
			l = max(0, l+t.OneOf(-1, 1, -2, 2, -l))
		}
		v := t.Bytes(min(l, 9000))
		what := fmt.Sprintf("Write%sBytes(%d,%d,%s)", name, a, q, hx(v))
		t.Note("%s", what)
		err := wrb(uint16(a), uint16(q), v)
		switch {
		case q == 0 && len(v) == 0:
		case !in || len(v) != 2*q:
			refusal(t, what, err)
		case err != nil:
			t.Failf("%s: %v", what, err)
		default:
			copy(bank[a-st:], model.UnpackRegs(v))
			t.Class("words-written")
		}
	case 4:
		if second {
			return
		}
		and, or := t.U16(), t.U16()
		what := fmt.Sprintf("MaskWriteHolding(%d,%04x,%04x)", a, and, or)
		t.Note("%s", what)
		err := nd.MaskWriteHolding(uint16(a), and, or)
		if !model.InRange(a, 1, st, len(bank)) {
			refusal(t, what, err)
		} else if err != nil {
			t.Failf("%s: %v", what, err)
		} else {
			bank[a-st] = bank[a-st]&and | or&^and
			t.Class("masked")
		}
	}
}

func runNode(t *T) {
	l := genLayout(t, t.Chance(1, 6))
	id := t.Byte()
	nd, m := newNode(id, l), model.New(l)
	t.Note("coils %d+%d, discretes %d+%d, inputs %d+%d, holdings %d+%d", l.CS, l.CN, l.DS, l.DN, l.IS, l.IN, l.HS, l.HN)
	param := func() {
		for _, x := range []struct {
			name string
			f    func() (uint16, uint16)
			s, n int
		}{{"CoilsAddrParam", nd.CoilsAddrParam, l.CS, l.CN}, {"DiscreteParam", nd.DiscreteParam, l.DS, l.DN},
			{"InputAddrParam", nd.InputAddrParam, l.IS, l.IN}, {"HoldingAddrParam", nd.HoldingAddrParam, l.HS, l.HN}} {
			if s, n := x.f(); int(s) != x.s || int(n) != x.n {
				t.Failf("%s = %d,%d; expected %d,%d", x.name, s, n, x.s, x.n)
			}
		}
		if nd.SlaveID() != id {
			t.Failf("SlaveID = %d, expected %d", nd.SlaveID(), id)
		}
	}
	param()
	big := l.CN+l.DN+l.IN+l.HN > 4000
	if d := diffNode(nd, m); d != "" {
		t.Failf("fresh node: %s", d)
	}
	if t.Bool() {
		fill(t, nd, m)
	}
	t.Repeat(3, 60, func(i int) {
		within(t, callBudget, "a register access", func() { nodeOp(t, nd, m) })
		t.Sub(1)
		if !big || i%16 == 0 {
			if d := diffNode(nd, m); d != "" {
				t.Failf("after that: %s", d)
			}
		}
	})
	if t.Chance(1, 4) {
		id = t.Byte()
		if nd.SetSlaveID(id) != nd {
			t.Failf("SetSlaveID does not return its node")
		}
	}
	param()
	if d := diffNode(nd, m); d != "" {
		t.Failf("at the end: %s", d)
	}
	t.NonTrivial()
}

// ---- C14: checksums ----

func runSums(t *T) {
	n := t.OneOf(0, 1, 2, 3, 255, 256, 254, t.Range(0, 300), t.Range(0, 2000))
	b := t.Bytes(n)
	if got, want := modbus.CRC16(b), model.CRC16(b); got != want {
		t.Failf("CRC16(%x) = %04x, expected %04x", b, got, want)
	}
	// the check value of the sum with its own bytes appended is zero
	c := modbus.CRC16(b)
	if r := modbus.CRC16(append(append([]byte(nil), b...), byte(c), byte(c>>8))); r != 0 {
		t.Failf("CRC16 of %x with its sum = %04x, expected 0", b, r)
	}
	var l modbus.LRC
	if t.Bool() {
		l.Push(t.Bytes(3)...).Reset()
	}
	rest := b
	t.Repeat(0, 8, func(int) {
		k := t.Range(0, len(rest))
		l.Push(rest[:k]...)
		rest = rest[k:]
		if got, want := l.Value(), model.LRC(b[:len(b)-len(rest)]); got != want {
			t.Failf("LRC(%x) = %02x, expected %02x", b[:len(b)-len(rest)], got, want)
		}
	})
	for _, x := range rest {
		l.Push(x)
	}
	if got, want := l.Value(), model.LRC(b); got != want {
		t.Failf("LRC(%x) = %02x, expected %02x", b, got, want)
	}
	// single-bit and burst errors are detected
	if len(b) > 0 {
		d := append([]byte(nil), b...)
		bit := t.Intn(8 * len(b))
		for k := t.Range(1, 16); k > 0 && bit < 8*len(b); k-- {
			d[bit/8] ^= 1 << uint(bit%8)
			bit++
		}
		if modbus.CRC16(d) == c {
			t.Failf("CRC16 does not tell %x from %x", b, d)
		}
		if n > 2 {
			t.NonTrivial()
		}
	}
	t.Note("%d bytes %s", n, hx(b))
}

// sumsFirstUse is the very first use in the process, by several goroutines.
func sumsFirstUse(t *T) {
	in := make([][]byte, 16)
	for i := range in {
		in[i] = t.Bytes(t.Range(1, 200))
	}
	var wg sync.WaitGroup
	gate := make(chan struct{})
	got := make([]uint16, len(in))
	for i := range in {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-gate
			got[i] = modbus.CRC16(in[i])
		}()
	}
	close(gate)
	wg.Wait()
	for i := range in {
		if want := model.CRC16(in[i]); got[i] != want {
			t.Failf("first use, several goroutines: CRC16(%x) = %04x, expected %04x", in[i], got[i], want)
		}
	}
}

// ---- C24: buffers ----

func runBuffers(t *T) {
	if t.Bool() {
		nodeBuffers(t)
	} else {
		clientBuffers(t)
	}
}

// held remembers a returned slice and what it held.
type held struct {
	what string
	b    []byte
	w    []uint16
	cb   []byte
	cw   []uint16
}

func hold(what string, v any) *held {
	h := &held{what: what}
	switch x := v.(type) {
	case []byte:
		h.b, h.cb = x, append([]byte(nil), x...)
	case []uint16:
		h.w, h.cw = x, append([]uint16(nil), x...)
	default:
		return nil
	}
	return h
}

func (h *held) check(t *T) {
	if !bytes.Equal(h.b, h.cb) || !eqWords(h.w, h.cw) {
		t.Failf("the result of %s has changed under its owner: %s -> %s", h.what, valText(h.orig()), valText(h.now()))
	}
}

func (h *held) orig() any {
	if h.b != nil {
		return h.cb
	}
	return h.cw
}

func (h *held) now() any {
	if h.b != nil {
		return h.b
	}
	return h.w
}

// scribble overwrites the slice, up to its capacity.
func (h *held) scribble() {
	for i := range h.b[:cap(h.b)] {
		h.b[:cap(h.b)][i] ^= 0xff
	}
	for i := range h.w[:cap(h.w)] {
		h.w[:cap(h.w)][i] ^= 0xffff
	}
	h.cb = append([]byte(nil), h.b...)
	h.cw = append([]uint16(nil), h.w...)
}

// roomy puts v into a larger array, which is remembered.
func roomy(t *T, what string, v []byte) ([]byte, *held) {
	b := append(append([]byte{}, v...), t.Bytes(t.OneOf(0, 1, 2, 4, 300))...)
	return b[:len(v)], hold(what, b)
}

func nodeBuffers(t *T) {
	l := genLayout(t, false)
	nd, m := newNode(1, l), model.New(l)
	fill(t, nd, m)
	var hs []*held
	t.Repeat(2, 30, func(int) {
		keep := func(what string, v any, err error) {
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			if h := hold(what, v); h != nil {
				if t.Chance(1, 3) {
					h.scribble()
				}
				hs = append(hs, h)
			}
		}
		bank := t.Intn(4)
		st := []int{m.CoilStart, m.DiscStart, m.InStart, m.HoldStart}[bank]
		n := []int{len(m.Coil), len(m.Disc), len(m.In), len(m.Hold)}[bank]
		a, q, ok := genRange(t, st, n, 300)
		if !ok {
			return
		}
		au, qu := uint16(a), uint16(q)
		wr := t.Bool()
		asBytes := t.Bool()
		what := fmt.Sprintf("%s of bank %d, %d+%d, bytes %v", map[bool]string{true: "write", false: "read"}[wr], bank, a, q, asBytes)
		t.Note("%s", what)
		t.Sub(1)
		switch {
		case bank < 2 && !wr:
			f := nd.ReadCoils
			if bank == 1 {
				f = nd.ReadDiscretes
			}
			v, err := f(au, qu)
			keep(what, v, err)
		case bank < 2:
			v := t.Bytes((q + 7) / 8)
			f, dst := nd.WriteCoils, m.Coil
			if bank == 1 {
				f, dst = nd.WriteDiscretes, m.Disc
			}
			v, h := roomy(t, "argument of "+what, v)
			if err := f(au, qu, v); err != nil {
				t.Failf("%s: %v", what, err)
			}
			copy(dst[a-st:], model.UnpackBits(v, q))
			h.check(t)
			h.scribble()
			hs = append(hs, h)
		case !wr && asBytes:
			f := nd.ReadInputsBytes
			if bank == 3 {
				f = nd.ReadHoldingsBytes
			}
			v, err := f(au, qu)
			keep(what, v, err)
		case !wr:
			f := nd.ReadInputs
			if bank == 3 {
				f = nd.ReadHoldings
			}
			v, err := f(au, qu)
			keep(what, v, err)
		default:
			v := t.Bytes(2 * q)
			w := model.UnpackRegs(v)
			dst := m.In
			if bank == 3 {
				dst = m.Hold
			}
			copy(dst[a-st:], w)
			var err error
			var h *held
			if asBytes {
				v, h = roomy(t, "argument of "+what, v)
				if bank == 3 {
					err = nd.WriteHoldingsBytes(au, qu, v)
				} else {
					err = nd.WriteInputsBytes(au, qu, v)
				}
			} else {
				w = append(w, make([]uint16, t.Range(0, 3))...)
				h = hold("argument of "+what, w)
				w = w[:q]
				if bank == 3 {
					err = nd.WriteHoldings(au, w)
				} else {
					err = nd.WriteInputs(au, w)
				}
			}
			if err != nil {
				t.Failf("%s: %v", what, err)
			}
			h.check(t)
			h.scribble()
			hs = append(hs, h)
		}
		for _, h := range hs {
			h.check(t)
		}
		if d := diffNode(nd, m); d != "" {
			t.Failf("after %s (and overwriting earlier results and arguments): %s", what, d)
		}
	})
	if len(hs) > 1 {
		t.NonTrivial()
	}
	t.Class("node")
}

// clientBuffers keeps results and arguments of client calls over later calls.
func clientBuffers(t *T) {
	kind := genKind(t, 6, 1, 2)
	l := newLink(t, kind, linkOpt{})
	t.Class(kindName[kind])
	var hs []*held
	n := 15
	if kind != TCP {
		n = 4
	}
	t.Repeat(2, n, func(int) {
		u := genUnit(t)
		t.Sub(1)
		if t.Chance(1, 4) { // raw frame
			pdu := append([]byte{3}, u16b(t.Range(0, 100), t.Range(1, 10))...)
			q := int(pdu[4])
			f, arg := roomy(t, "argument of SendRawFrame", frameADU(kind, t.U16(), u, pdu))
			rsp := append([]byte{3, byte(2 * q)}, t.Bytes(2*q)...)
			ch := start(func() (any, error) { return nb(l.cli.SendRawFrame(f)) })
			got, err := l.readN(len(f), wait(t, replyBudget))
			if err != nil {
				t.FailTimeoutf("raw frame %s: only %s arrived", hx(f), hx(got))
			}
			tid := uint16(0)
			if kind == TCP {
				tid = uint16(be(f, 0))
			}
			l.send(t, frameADU(kind, tid, u, rsp), nil, 0)
			r := await(t, ch, callBudget, "SendRawFrame")
			if r.err != nil {
				t.Failf("SendRawFrame(%s): %v", hx(f), r.err)
			}
			arg.check(t)
			hs = append(hs, arg, hold("SendRawFrame", r.val))
			t.Note("raw frame %s", hx(f))
		} else if t.Chance(1, 3) { // a PDU, or its parts
			pdu := append([]byte{byte(t.OneOf(3, 65, 16, 23, 100))}, t.Bytes(t.OneOf(1, 2, 4, 9, t.Range(0, 100)))...)
			rsp := append([]byte{pdu[0]}, t.Bytes(t.OneOf(1, 2, 20, t.Range(1, 100)))...)
			if kind == RTU { // where the request tells the length of the answer
				q := t.Range(1, 10)
				pdu = append([]byte{3}, u16b(t.Range(0, 100), q)...)
				rsp = append([]byte{3, byte(2 * q)}, t.Bytes(2*q)...)
			}
			p, arg := roomy(t, "argument of SendPdu", pdu)
			name := "SendPdu"
			var ch chan result
			if t.Bool() {
				ch = start(func() (any, error) { return nb(l.cli.SendPdu(u, p)) })
			} else {
				name = "Send"
				arg = hold("argument of Send", p[1:cap(p)])
				ch = start(func() (any, error) {
					r, err := l.cli.Send(u, modbus.ProtocolDataUnit{FuncCode: p[0], Data: p[1:]})
					return r.Data, err
				})
			}
			what := fmt.Sprintf("%s of %s", name, hx(pdu))
			tid := l.request(t, u, pdu)
			l.send(t, frameADU(kind, tid, u, rsp), nil, 0)
			r := await(t, ch, callBudget, what)
			if r.err != nil {
				t.Failf("%s: %v", what, r.err)
			}
			arg.check(t)
			hs = append(hs, arg)
			if h := hold(what, r.val); h != nil {
				hs = append(hs, h)
			}
			t.Note("%s", what)
			t.Class(name)
		} else {
			c := genCall(t, true, kind == RTU, u)
			t.Note("%s", c)
			resp := c.good(t)
			want, _ := c.parse(resp)
			ch := start(func() (any, error) { return c.do(l.cli) })
			tid := l.requestOr(t, c, ch)
			l.send(t, frameADU(kind, tid, c.unit, append([]byte{c.fc}, resp...)), nil, 0)
			r := await(t, ch, callBudget, c.String())
			if r.err != nil {
				t.Failf("%s: %v", c, r.err)
			}
			if !c.same(r.val, want) {
				t.Failf("%s: response %s gave %s, expected %s", c, hx(resp), valText(r.val), valText(want))
			}
			for _, h := range c.args {
				h.check(t)
				if t.Bool() {
					h.scribble()
				}
				hs = append(hs, h)
			}
			if h := hold(c.name, r.val); h != nil {
				if t.Chance(1, 3) {
					h.scribble()
				}
				hs = append(hs, h)
			}
		}
		for _, h := range hs {
			h.check(t)
		}
	})
	if len(hs) > 0 {
		t.NonTrivial()
	}
}

func init() {
	register(&pbt.Property{
		ID: "C05", Quick: 40000, Thorough: 400000,
		Rule: "a case is one node of a generated layout and 3-60 calls of its methods with arguments in, across and outside the address range and value slices of right and wrong length, compared with a reference (whole contents after each call); always non-trivial",
		Run:  runNode,
	})
	register(&pbt.Property{
		ID: "C14", Quick: 200000, Thorough: 2000000, Race: true,
		Rule: "a case is a byte string of 0-2000 bytes: CRC16 and LRC (in generated pieces) against bitwise references, the zero-residue law, detection of bursts up to 16 bits; non-trivial = more than 2 bytes; " +
			"before the first case, 16 goroutines use CRC16 for the first time in the process",
		Run: runSums, Once: sumsFirstUse,
	})
	register(&pbt.Property{
		ID: "C24", Quick: 40000, Thorough: 400000, Workers: 24,
		Rule: "a case is 2-30 reads and writes of a node, or 2-15 calls of a client on one of three transports, with every result and argument kept (and a third of the results overwritten up to its capacity) and compared after each later call; non-trivial = something was kept",
		Run:  runBuffers,
	})
}

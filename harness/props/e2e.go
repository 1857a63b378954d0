package props

import (
	"errors"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// callOf turns a request into a call of the client API that asks for it. The
// value of multi-writes is passed as it stands in the request data.
func callOf(t *T, unit byte, r req) *call {
	c := &call{fc: r.fc, data: r.data, unit: unit}
	w := func(i int) uint16 { return uint16(be(r.data, i)) }
	raw := func(d []byte) (any, bool) { return append([]byte{}, d[1:]...), true }
	words := func(d []byte) (any, bool) { return model.UnpackRegs(d[1:]), true }
	none := func([]byte) (any, bool) { return nil, true }
	a := w(0)
	alt := r.fc != 1 && r.fc != 2 && t.Bool() // the []uint16 flavour where there are two
	switch r.fc {
	case 1, 2:
		c.q = int(w(2))
		c.valid = c.q >= 1 && c.q <= 2000
		c.parse = raw
		c.name, c.do = "ReadCoils", func(cl modbus.Client) (any, error) { return nb(cl.ReadCoils(unit, a, w(2))) }
		if r.fc == 2 {
			c.name, c.do = "ReadDiscreteInputs", func(cl modbus.Client) (any, error) { return nb(cl.ReadDiscreteInputs(unit, a, w(2))) }
		}
	case 3:
		c.valid = w(2) >= 1 && w(2) <= 125
		c.name, c.parse, c.do = "ReadHoldingRegistersBytes", raw, func(cl modbus.Client) (any, error) { return nb(cl.ReadHoldingRegistersBytes(unit, a, w(2))) }
		if alt {
			c.name, c.parse, c.do = "ReadHoldingRegisters", words, func(cl modbus.Client) (any, error) { return nw(cl.ReadHoldingRegisters(unit, a, w(2))) }
		}
	case 4:
		c.valid = w(2) >= 1 && w(2) <= 125
		c.name, c.parse, c.do = "ReadInputRegistersBytes", raw, func(cl modbus.Client) (any, error) { return nb(cl.ReadInputRegistersBytes(unit, a, w(2))) }
		if alt {
			c.name, c.parse, c.do = "ReadInputRegisters", words, func(cl modbus.Client) (any, error) { return nw(cl.ReadInputRegisters(unit, a, w(2))) }
		}
	case 5:
		c.valid, c.name, c.parse = true, "WriteSingleCoil", none
		on := w(2) != 0
		c.data = u16b(int(a), 0)
		if on {
			c.data = u16b(int(a), 0xff00)
		}
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.WriteSingleCoil(unit, a, on) }
	case 6:
		c.valid, c.name, c.parse = true, "WriteSingleRegister", none
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.WriteSingleRegister(unit, a, w(2)) }
	case 15:
		v := r.data[5:]
		c.valid = w(2) >= 1 && w(2) <= 1968 && len(v) >= (int(w(2))+7)/8
		c.name, c.parse = "WriteMultipleCoils", none
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.WriteMultipleCoils(unit, a, w(2), v) }
	case 16:
		v := r.data[5:]
		c.valid = w(2) >= 1 && w(2) <= 123 && len(v) == 2*int(w(2))
		c.name, c.parse, c.do = "WriteMultipleRegistersBytes", none, func(cl modbus.Client) (any, error) { return nil, cl.WriteMultipleRegistersBytes(unit, a, w(2), v) }
		if alt && len(v)%2 == 0 {
			c.name, c.do = "WriteMultipleRegisters", func(cl modbus.Client) (any, error) {
				return nil, cl.WriteMultipleRegisters(unit, a, w(2), model.UnpackRegs(v))
			}
		}
	case 22:
		c.valid, c.name, c.parse = true, "MaskWriteRegister", none
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.MaskWriteRegister(unit, a, w(2), w(4)) }
	case 23:
		v := r.data[9:]
		c.valid = w(2) >= 1 && w(2) <= 125 && w(6) >= 1 && w(6) <= 121 && len(v) == 2*int(w(6))
		c.name, c.parse, c.do = "ReadWriteMultipleRegistersBytes", raw, func(cl modbus.Client) (any, error) {
			return nb(cl.ReadWriteMultipleRegistersBytes(unit, a, w(2), w(4), w(6), v))
		}
		if alt {
			c.name, c.parse, c.do = "ReadWriteMultipleRegisters", words, func(cl modbus.Client) (any, error) {
				return nw(cl.ReadWriteMultipleRegisters(unit, a, w(2), w(4), w(6), v))
			}
		}
	case 24:
		c.valid, c.name, c.parse = true, "ReadFIFOQueue", raw
		c.do = func(cl modbus.Client) (any, error) { return nb(cl.ReadFIFOQueue(unit, a)) }
	default:
		panic("callOf")
	}
	return c
}

// checkCall runs one call against the real server and matches it with the model.
func checkCall(t *T, cl modbus.Client, u *unit, c *call) string {
	r := await(t, start(func() (any, error) { return c.do(cl) }), 30*time.Second, c.String())
	if !c.valid {
		if r.err == nil {
			t.Failf("%s: arguments outside the protocol limits were accepted, result %s", c, valText(r.val))
		}
		if r.val != nil {
			t.Failf("%s: refused (%v) but returned %s", c, r.err, valText(r.val))
		}
		return "refused"
	}
	if r.err != nil && isTimeout(r.err) {
		t.FailTimeoutf("%s: %v", c, r.err)
	}
	outs := u.m.Outcomes(c.fc, c.data)
	var ee *modbus.ExceptionError
	isExc := errors.As(r.err, &ee)
	for _, o := range outs {
		if o.PDU[0]&0x80 != 0 {
			if isExc && ee.ExceptionCode == o.PDU[1] {
				if r.val != nil {
					t.Failf("%s: exception %d and the value %s", c, ee.ExceptionCode, valText(r.val))
				}
				return o.What
			}
			continue
		}
		want, _ := c.parse(o.PDU[1:])
		if r.err == nil && c.same(r.val, want) {
			if o.Effect != nil {
				o.Effect(u.m)
			}
			return o.What
		}
	}
	t.Failf("%s against the server: %s, error %v; acceptable: %s", c, valText(r.val), r.err, outcomesText(outs))
	return ""
}

func runE2E(t *T) {
	srv := modbus.NewTCPServer()
	us := genUnitsIn(t, 2, 1, 247) // units a client may address
	for _, u := range us {
		srv.AddNodes(u.nd)
	}
	_, at := startServerAt(t, srv)
	cls := make([]modbus.Client, t.Range(1, 2))
	for i := range cls {
		p := modbus.NewTCPClientProvider(at, modbus.WithTCPTimeout(wait(t, 8*time.Second)))
		cls[i] = modbus.NewClient(p)
		cl := cls[i]
		t.Cleanup(func() { closeQuietly(cl) })
		if t.Bool() {
			if err := cl.Connect(); err != nil {
				t.Failf("Connect: %v", err)
			}
		}
	}
	oks, writes := 0, 0
	t.Repeat(5, 50, func(i int) {
		u, cl := us[t.Intn(len(us))], cls[t.Intn(len(cls))]
		if t.Chance(1, 10) {
			localChange(t, u)
		}
		var r req
		switch t.Freq(6, 3, 1) {
		case 0:
			ok := false
			for k := 0; k < 4 && !ok; k++ {
				r, ok = genValid(t, u.m, validFC[t.Intn(len(validFC))])
			}
		case 1:
			r = genWildReq(t, u.m)
		case 2:
			r = req{24, u16b(genAddr(t))}
		}
		c := callOf(t, u.id, r)
		t.Note("%s", c)
		w := checkCall(t, cl, u, c)
		t.Sub(1)
		t.Class(c.name + ":" + w)
		if w == "ok" {
			if r.fc >= 5 {
				writes++
			} else {
				oks++
			}
		}
		if i%8 == 0 {
			if d := diffNode(u.nd, u.m); d != "" {
				t.Failf("after %s, unit %d: %s", c, u.id, d)
			}
		}
		if t.Chance(1, 25) {
			_ = cl.Close()
			t.Note("close")
		}
	})
	checkUnits(t, us)
	if oks > 0 && writes > 0 {
		t.NonTrivial()
	}
}

// longSession makes more calls than there are transaction ids.
func longSession(t *T) {
	srv := modbus.NewTCPServer()
	u := smallUnit(t, 1)
	srv.AddNodes(u.nd)
	s := startServer(t, srv)
	cl := modbus.NewClient(modbus.NewTCPClientProvider(s.addr, modbus.WithTCPTimeout(wait(t, 8*time.Second))))
	t.Cleanup(func() { closeQuietly(cl) })
	for i := 0; i < 66000; i++ {
		a := uint16(u.m.HoldStart + i%len(u.m.Hold))
		if err := cl.WriteSingleRegister(1, a, uint16(i)); err != nil {
			t.Failf("call %d in one session: %v", i, err)
		}
		if i%16 == 0 || i > 32700 && i < 32800 || i > 65500 {
			v, err := cl.ReadHoldingRegisters(1, a, 1)
			if err != nil || len(v) != 1 || v[0] != uint16(i) {
				t.Failf("call %d in one session: wrote %#x, read %04x, %v", i, uint16(i), v, err)
			}
		}
	}
	t.Sub(66000)
	t.Note("one client session of 70000 calls")
}

func init() {
	register(&pbt.Property{
		ID: "C12", Quick: 20000, Thorough: 200000, Workers: 8,
		Rule: "a case is a live TCP server with 1-2 generated units, 1-2 clients of the library and 5-50 calls of all client methods (valid, at and beyond the limits of the protocol and of the register banks), local register changes and reconnects between; values, exceptions and registers are compared with the model; non-trivial = a read and a write succeeded",
		Run:  runE2E,
		Once: longSession,
	})
}

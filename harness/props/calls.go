package props

import (
	"bytes"
	"fmt"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
)

// call is one method call of the client API, with its reference semantics.
type call struct {
	name  string
	fc    byte
	data  []byte // reference request data
	unit  byte
	valid bool // the arguments are within the protocol limits
	do    func(c modbus.Client) (any, error)
	// parse is the reference acceptance of response data (after the function
	// code): the value to return, or ok=false.
	parse func(d []byte) (any, bool)
	// good draws valid response data.
	good func(t *T) []byte
	q    int
	args []*held // slices passed, up to their capacity
}

// arg and argw put an argument into a larger array of the caller.
func (c *call) arg(t *T, v []byte) []byte {
	b := append(append([]byte{}, v...), t.Bytes(t.OneOf(0, 1, 2, 3, 8, 300))...)
	c.args = append(c.args, hold("argument of "+c.name, b))
	return b[:len(v)]
}

func (c *call) argw(t *T, v []uint16) []uint16 {
	b := append([]uint16{}, v...)
	for i := t.OneOf(0, 1, 2, 130); i > 0; i-- {
		b = append(b, t.U16())
	}
	c.args = append(c.args, hold("argument of "+c.name, b))
	return b[:len(v)]
}

func (c *call) pdu() []byte { return append([]byte{c.fc}, c.data...) }

func (c *call) String() string {
	return fmt.Sprintf("%s(unit %d) request data %s", c.name, c.unit, hx(c.data))
}

// methods
var callName = []string{"ReadHoldingRegistersBytes", "ReadHoldingRegisters", "ReadCoils", "ReadDiscreteInputs", "ReadInputRegistersBytes",
	"ReadInputRegisters", "WriteSingleCoil", "WriteSingleRegister", "WriteMultipleCoils", "WriteMultipleRegistersBytes", "WriteMultipleRegisters",
	"MaskWriteRegister", "ReadWriteMultipleRegistersBytes", "ReadWriteMultipleRegisters", "ReadFIFOQueue"}

// genQty draws a quantity: within [1,max] if valid, otherwise around and outside.
func genQty(t *T, max int, valid bool, small bool) int {
	if valid {
		if small {
			max = min(max, 20)
		}
		switch t.Freq(4, 2, 2) {
		case 0:
			return t.Range(1, min(max, 20))
		case 1:
			return t.Range(1, max)
		default:
			return t.OneOf(max, 1, min(max, 8), min(max, 9), min(max, 16), max-1)
		}
	}
	switch t.Freq(3, 2, 1) {
	case 0:
		return t.OneOf(0, max+1, max+2, 65535, 32768, 2048, 256, 255, 2040, 32769)
	case 2: // twice or an eighth of it is small in 16 or 8 bits
		return t.OneOf(32768+t.Range(0, 125), 65536-t.Range(1, 7), 128+t.Range(0, 20), 2048+t.Range(0, 200))
	default:
		return t.Range(0, 65535)
	}
}

func genAddr(t *T) int {
	switch t.Freq(3, 2, 1) {
	case 0:
		return t.Range(0, 300)
	case 1:
		return int(t.U16())
	}
	return t.OneOf(65535, 65534, 256, 255, 0x0d0a, 0x3a3a)
}

// genCall draws a call. small keeps frames short (slow transports).
func genCall(t *T, valid, small bool, unit byte) *call {
	return genCallOf(t, t.Intn(len(callName)), valid, small, unit)
}

func genCallOf(t *T, which int, valid, small bool, unit byte) *call {
	c := &call{unit: unit, valid: valid, name: callName[which]}
	a := genAddr(t)
	au := uint16(a)
	words := func(d []byte) any { return model.UnpackRegs(d) }
	raw := func(d []byte) any { return append([]byte{}, d...) }
	counted := func(n func() int, conv func([]byte) any) func(d []byte) (any, bool) {
		return func(d []byte) (any, bool) {
			if len(d) < 1 || int(d[0]) != len(d)-1 || len(d)-1 != n() {
				return nil, false
			}
			return conv(d[1:]), true
		}
	}
	goodCounted := func(n func() int) func(t *T) []byte {
		return func(t *T) []byte {
			v := t.Bytes(n())
			if c.fc <= 2 && c.q%8 != 0 {
				v[len(v)-1] &= 1<<uint(c.q%8) - 1
			}
			return append([]byte{byte(len(v))}, v...)
		}
	}
	echo := func(want func() []byte) {
		c.parse = func(d []byte) (any, bool) { return nil, bytes.Equal(d, want()) }
		c.good = func(*T) []byte { return append([]byte(nil), want()...) }
	}
	switch c.name {
	case "ReadCoils", "ReadDiscreteInputs":
		c.fc = 1
		if c.name == "ReadDiscreteInputs" {
			c.fc = 2
		}
		c.q = genQty(t, 2000, valid, small)
		c.valid = c.q >= 1 && c.q <= 2000
		c.data = u16b(a, c.q)
		n := func() int { return (c.q + 7) / 8 }
		c.parse, c.good = counted(n, raw), goodCounted(n)
		c.do = func(cl modbus.Client) (any, error) {
			if c.fc == 1 {
				return nb(cl.ReadCoils(unit, au, uint16(c.q)))
			}
			return nb(cl.ReadDiscreteInputs(unit, au, uint16(c.q)))
		}
	case "ReadHoldingRegistersBytes", "ReadHoldingRegisters", "ReadInputRegistersBytes", "ReadInputRegisters":
		c.q = genQty(t, 125, valid, small)
		c.valid = c.q >= 1 && c.q <= 125
		c.data = u16b(a, c.q)
		q := uint16(c.q)
		n := func() int { return 2 * c.q }
		c.good = goodCounted(n)
		c.fc = 3
		switch c.name {
		case "ReadHoldingRegistersBytes":
			c.parse = counted(n, raw)
			c.do = func(cl modbus.Client) (any, error) { return nb(cl.ReadHoldingRegistersBytes(unit, au, q)) }
		case "ReadHoldingRegisters":
			c.parse = counted(n, words)
			c.do = func(cl modbus.Client) (any, error) { return nw(cl.ReadHoldingRegisters(unit, au, q)) }
		case "ReadInputRegistersBytes":
			c.fc = 4
			c.parse = counted(n, raw)
			c.do = func(cl modbus.Client) (any, error) { return nb(cl.ReadInputRegistersBytes(unit, au, q)) }
		default:
			c.fc = 4
			c.parse = counted(n, words)
			c.do = func(cl modbus.Client) (any, error) { return nw(cl.ReadInputRegisters(unit, au, q)) }
		}
	case "WriteSingleCoil":
		on := t.Bool()
		c.fc, c.valid = 5, true
		c.data = u16b(a, 0)
		if on {
			c.data = u16b(a, 0xff00)
		}
		echo(func() []byte { return c.data })
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.WriteSingleCoil(unit, au, on) }
	case "WriteSingleRegister":
		v := t.U16()
		c.fc, c.valid = 6, true
		c.data = u16b(a, int(v))
		echo(func() []byte { return c.data })
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.WriteSingleRegister(unit, au, v) }
	case "WriteMultipleCoils":
		c.fc = 15
		kind := 0
		if !valid {
			kind = t.Intn(2) // 0 bad quantity, 1 value too short
		}
		c.q = genQty(t, 1968, valid || kind == 1, small)
		need := (c.q + 7) / 8
		var v []byte
		switch {
		case valid:
			// surplus bytes in the value are allowed and not sent
			v = t.Bytes(need + t.Freq(5, 1, 1)*t.Range(1, 5))
		case kind == 1:
			v = t.Bytes(t.Intn(need))
		default:
			v = t.Bytes(min(need, 300) + t.Intn(3))
			if t.Freq(2, 1) == 1 { // as many as the quantity asks for
				v = append(v, make([]byte, max(0, need-len(v)))...)
			}
		}
		c.valid = c.q >= 1 && c.q <= 1968 && len(v) >= need
		c.data = append(u16b(a, c.q), byte(need))
		c.data = append(c.data, v[:min(need, len(v))]...)
		v = c.arg(t, v)
		echo(func() []byte { return c.data[:4] })
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.WriteMultipleCoils(unit, au, uint16(c.q), v) }
	case "WriteMultipleRegistersBytes", "WriteMultipleRegisters":
		c.fc = 16
		kind := 0
		if !valid {
			kind = t.Intn(2)
		}
		c.q = genQty(t, 123, valid || kind == 1, small)
		n := 2 * c.q
		if kind == 1 && !valid {
			n = max(0, n+t.OneOf(-2, 2, -1, 1, 4, -n))
		}
		if n >= 65536 && kind == 0 && t.Freq(1, 2) == 1 {
			n -= 65536
		}
		n = min(n, 700)
		if c.name == "WriteMultipleRegisters" {
			n &^= 1
		}
		v := t.Bytes(n)
		c.valid = c.q >= 1 && c.q <= 123 && n == 2*c.q
		c.data = append(append(u16b(a, c.q), byte(2*c.q)), v...)
		echo(func() []byte { return c.data[:4] })
		if c.name == "WriteMultipleRegisters" {
			w := c.argw(t, model.UnpackRegs(v))
			c.do = func(cl modbus.Client) (any, error) {
				return nil, cl.WriteMultipleRegisters(unit, au, uint16(c.q), w)
			}
		} else {
			v = c.arg(t, v)
			c.do = func(cl modbus.Client) (any, error) {
				return nil, cl.WriteMultipleRegistersBytes(unit, au, uint16(c.q), v)
			}
		}
	case "MaskWriteRegister":
		and, or := t.U16(), t.U16()
		c.fc, c.valid = 22, true
		c.data = u16b(a, int(and), int(or))
		echo(func() []byte { return c.data })
		c.do = func(cl modbus.Client) (any, error) { return nil, cl.MaskWriteRegister(unit, au, and, or) }
	case "ReadWriteMultipleRegistersBytes", "ReadWriteMultipleRegisters":
		c.fc = 23
		kind := 3
		if !valid {
			kind = t.Intn(3) // 0 read quantity, 1 write quantity, 2 value length
		}
		wa := genAddr(t)
		c.q = genQty(t, 125, kind != 0, small)
		wq := genQty(t, 121, kind != 1, small)
		n := 2 * wq
		if kind == 2 {
			n = max(0, n+t.OneOf(-2, 2, -1, 1, 4, -n))
		}
		if n >= 65536 && kind == 1 && t.Freq(1, 2) == 1 {
			n -= 65536
		}
		v := t.Bytes(min(n, 700))
		c.valid = c.q >= 1 && c.q <= 125 && wq >= 1 && wq <= 121 && len(v) == 2*wq
		c.data = append(append(u16b(a, c.q, wa, wq), byte(2*wq)), v...)
		v = c.arg(t, v)
		nn := func() int { return 2 * c.q }
		c.good = goodCounted(nn)
		if c.name == "ReadWriteMultipleRegistersBytes" {
			c.parse = counted(nn, raw)
			c.do = func(cl modbus.Client) (any, error) {
				return nb(cl.ReadWriteMultipleRegistersBytes(unit, au, uint16(c.q), uint16(wa), uint16(wq), v))
			}
		} else {
			c.parse = counted(nn, words)
			c.do = func(cl modbus.Client) (any, error) {
				return nw(cl.ReadWriteMultipleRegisters(unit, au, uint16(c.q), uint16(wa), uint16(wq), v))
			}
		}
	case "ReadFIFOQueue":
		c.fc, c.valid = 24, true
		c.data = u16b(a)
		c.parse = func(d []byte) (any, bool) {
			if len(d) < 4 || be(d, 0) != len(d)-2 || be(d, 2) > 31 || be(d, 2)*2 != len(d)-4 {
				return nil, false
			}
			return append([]byte{}, d[4:]...), true
		}
		c.good = func(t *T) []byte {
			n := t.OneOf(0, 1, 2, 31, 30, t.Range(0, 31))
			if small {
				n = min(n, 8)
			}
			return append(u16b(2*n+2, n), t.Bytes(2*n)...)
		}
		c.do = func(cl modbus.Client) (any, error) { return nb(cl.ReadFIFOQueue(unit, au)) }
	}
	return c
}

// nb and nw keep nil slices as untyped nil.
func nb(b []byte, err error) (any, error) {
	if b == nil {
		return nil, err
	}
	return b, err
}

func nw(w []uint16, err error) (any, error) {
	if w == nil {
		return nil, err
	}
	return w, err
}

// same compares two results; the padding bits of the last byte of a coil read
// carry no meaning.
func (c *call) same(got, want any) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case []byte:
		g, ok := got.([]byte)
		if !ok {
			return len(w) == 0 && got == nil
		}
		if len(g) != len(w) {
			return false
		}
		for i := range g {
			m := byte(0xff)
			if c.fc <= 2 && i == len(g)-1 && c.q%8 != 0 {
				m = 1<<uint(c.q%8) - 1
			}
			if g[i]&m != w[i]&m {
				return false
			}
		}
		return true
	case []uint16:
		g, ok := got.([]uint16)
		if !ok {
			return len(w) == 0 && got == nil
		}
		if len(g) != len(w) {
			return false
		}
		for i := range g {
			if g[i] != w[i] {
				return false
			}
		}
		return true
	}
	panic("same")
}

func valText(v any) string {
	switch x := v.(type) {
	case nil:
		return "nothing"
	case []byte:
		return hx(x)
	case []uint16:
		return fmt.Sprintf("%04x", x)
	}
	return fmt.Sprint(v)
}

// Package model is the reference: the Modbus data model and framings written
// directly from the specification (and README/doc comments of the library),
// sharing no code with the library.
package model

import "fmt"

// Node is one unit: four banks, each a contiguous address range.
type Node struct {
	CoilStart, DiscStart, InStart, HoldStart int
	Coil, Disc                               []bool
	In, Hold                                 []uint16
}

// Layout of a node.
type Layout struct{ CS, CN, DS, DN, IS, IN, HS, HN int }

// New makes a zeroed node.
func New(l Layout) *Node {
	return &Node{l.CS, l.DS, l.IS, l.HS, make([]bool, l.CN), make([]bool, l.DN), make([]uint16, l.IN), make([]uint16, l.HN)}
}

// Clone copies a node.
func (n *Node) Clone() *Node {
	c := *n
	c.Coil = append([]bool(nil), n.Coil...)
	c.Disc = append([]bool(nil), n.Disc...)
	c.In = append([]uint16(nil), n.In...)
	c.Hold = append([]uint16(nil), n.Hold...)
	return &c
}

// InRange tells whether [addr, addr+q) lies in [start, start+size).
func InRange(addr, q, start, size int) bool {
	return addr >= start && addr+q <= start+size
}

// PackBits packs bits LSB first, zero padded.
func PackBits(b []bool) []byte {
	out := make([]byte, (len(b)+7)/8)
	for i, v := range b {
		if v {
			out[i/8] |= 1 << uint(i%8)
		}
	}
	return out
}

// UnpackBits takes q bits, LSB first.
func UnpackBits(b []byte, q int) []bool {
	out := make([]bool, q)
	for i := range out {
		out[i] = b[i/8]>>(uint(i)%8)&1 == 1
	}
	return out
}

// PackRegs is big endian.
func PackRegs(r []uint16) []byte {
	out := make([]byte, 0, 2*len(r))
	for _, v := range r {
		out = append(out, byte(v>>8), byte(v))
	}
	return out
}

// UnpackRegs is big endian.
func UnpackRegs(b []byte) []uint16 {
	out := make([]uint16, len(b)/2)
	for i := range out {
		out[i] = uint16(b[2*i])<<8 | uint16(b[2*i+1])
	}
	return out
}

// Outcome is one acceptable reaction to a request: the reply PDU and its effect.
type Outcome struct {
	PDU    []byte
	Effect func(*Node)
	What   string
}

func exc(fc, code byte) Outcome {
	return Outcome{PDU: []byte{fc | 0x80, code}, What: fmt.Sprintf("exception %d", code)}
}

func be(b []byte, i int) int { return int(b[i])<<8 | int(b[i+1]) }

// Supported are the function codes the server implements.
var Supported = []byte{1, 2, 3, 4, 5, 6, 15, 16, 22, 23}

// Outcomes lists the acceptable reactions of a unit to a request PDU. All but a
// few malformed requests have exactly one.
func (n *Node) Outcomes(fc byte, d []byte) []Outcome {
	one := func(o Outcome) []Outcome { return []Outcome{o} }
	bad := func(code byte) []Outcome { return one(exc(fc, code)) }
	// declared and real payload length disagree: refused; 3 is the proper code,
	// the library also uses 2 here
	mism := []Outcome{exc(fc, 3), exc(fc, 2)}
	ok := func(data []byte, eff func(*Node)) []Outcome {
		return one(Outcome{PDU: append([]byte{fc}, data...), Effect: eff, What: "ok"})
	}
	switch fc {
	case 1, 2:
		if len(d) != 4 {
			return bad(3)
		}
		a, q := be(d, 0), be(d, 2)
		if q < 1 || q > 2000 {
			return bad(3)
		}
		st, bank := n.CoilStart, n.Coil
		if fc == 2 {
			st, bank = n.DiscStart, n.Disc
		}
		if !InRange(a, q, st, len(bank)) {
			return bad(2)
		}
		v := PackBits(bank[a-st : a-st+q])
		return ok(append([]byte{byte(len(v))}, v...), nil)
	case 3, 4:
		if len(d) != 4 {
			return bad(3)
		}
		a, q := be(d, 0), be(d, 2)
		if q < 1 || q > 125 {
			return bad(3)
		}
		st, bank := n.HoldStart, n.Hold
		if fc == 4 {
			st, bank = n.InStart, n.In
		}
		if !InRange(a, q, st, len(bank)) {
			return bad(2)
		}
		v := PackRegs(bank[a-st : a-st+q])
		return ok(append([]byte{byte(len(v))}, v...), nil)
	case 5:
		if len(d) != 4 {
			return bad(3)
		}
		a, v := be(d, 0), be(d, 2)
		if v != 0 && v != 0xff00 {
			return bad(3)
		}
		if !InRange(a, 1, n.CoilStart, len(n.Coil)) {
			return bad(2)
		}
		return ok(d, func(n *Node) { n.Coil[a-n.CoilStart] = v != 0 })
	case 6:
		if len(d) != 4 {
			return bad(3)
		}
		a, v := be(d, 0), be(d, 2)
		if !InRange(a, 1, n.HoldStart, len(n.Hold)) {
			return bad(2)
		}
		return ok(d, func(n *Node) { n.Hold[a-n.HoldStart] = uint16(v) })
	case 15:
		if len(d) < 5 {
			return bad(3)
		}
		a, q, bc := be(d, 0), be(d, 2), int(d[4])
		if q < 1 || q > 1968 || bc != (q+7)/8 {
			return bad(3)
		}
		if len(d)-5 != bc {
			return mism
		}
		if !InRange(a, q, n.CoilStart, len(n.Coil)) {
			return bad(2)
		}
		bits := UnpackBits(d[5:], q)
		return ok(d[:4], func(n *Node) { copy(n.Coil[a-n.CoilStart:], bits) })
	case 16:
		if len(d) < 5 {
			return bad(3)
		}
		a, q, bc := be(d, 0), be(d, 2), int(d[4])
		if q < 1 || q > 123 || bc != 2*q {
			return bad(3)
		}
		if len(d)-5 != bc {
			return mism
		}
		if !InRange(a, q, n.HoldStart, len(n.Hold)) {
			return bad(2)
		}
		regs := UnpackRegs(d[5:])
		return ok(d[:4], func(n *Node) { copy(n.Hold[a-n.HoldStart:], regs) })
	case 22:
		if len(d) != 6 {
			return bad(3)
		}
		a, and, or := be(d, 0), uint16(be(d, 2)), uint16(be(d, 4))
		if !InRange(a, 1, n.HoldStart, len(n.Hold)) {
			return bad(2)
		}
		return ok(d, func(n *Node) {
			p := &n.Hold[a-n.HoldStart]
			*p = *p&and | or&^and
		})
	case 23:
		if len(d) < 9 {
			return bad(3)
		}
		ra, rq, wa, wq, bc := be(d, 0), be(d, 2), be(d, 4), be(d, 6), int(d[8])
		if rq < 1 || rq > 125 || wq < 1 || wq > 121 || bc != 2*wq {
			return bad(3)
		}
		if len(d)-9 != bc {
			return mism
		}
		if !InRange(ra, rq, n.HoldStart, len(n.Hold)) || !InRange(wa, wq, n.HoldStart, len(n.Hold)) {
			return bad(2)
		}
		regs := UnpackRegs(d[9:])
		after := append([]uint16(nil), n.Hold...)
		copy(after[wa-n.HoldStart:], regs)
		v := PackRegs(after[ra-n.HoldStart : ra-n.HoldStart+rq])
		return ok(append([]byte{byte(len(v))}, v...), func(n *Node) { copy(n.Hold[wa-n.HoldStart:], regs) })
	}
	return bad(1)
}

// CRC16 is the Modbus CRC, bit by bit.
func CRC16(b []byte) uint16 {
	crc := uint16(0xffff)
	for _, v := range b {
		crc ^= uint16(v)
		for i := 0; i < 8; i++ {
			odd := crc&1 == 1
			crc >>= 1
			if odd {
				crc ^= 0xa001
			}
		}
	}
	return crc
}

// LRC is the value that makes the byte sum zero mod 256.
func LRC(b []byte) byte {
	s := 0
	for _, v := range b {
		s += int(v)
	}
	return byte((256 - s%256) % 256)
}

// TCP frames a PDU.
func TCP(tid uint16, unit byte, pdu []byte) []byte {
	l := len(pdu) + 1
	return append([]byte{byte(tid >> 8), byte(tid), 0, 0, byte(l >> 8), byte(l), unit}, pdu...)
}

// RTU frames a PDU.
func RTU(unit byte, pdu []byte) []byte {
	f := append([]byte{unit}, pdu...)
	c := CRC16(f)
	return append(f, byte(c), byte(c>>8))
}

// ASCII frames a PDU.
func ASCII(unit byte, pdu []byte) []byte {
	b := append([]byte{unit}, pdu...)
	b = append(b, LRC(b))
	return []byte(fmt.Sprintf(":%X\r\n", b))
}

// DecodeRTU returns unit and PDU if f is exactly one valid frame.
func DecodeRTU(f []byte) (byte, []byte, bool) {
	if len(f) < 4 || len(f) > 256 {
		return 0, nil, false
	}
	c := CRC16(f[:len(f)-2])
	if f[len(f)-2] != byte(c) || f[len(f)-1] != byte(c>>8) {
		return 0, nil, false
	}
	return f[0], f[1 : len(f)-2], true
}

func hexv(c byte) (byte, bool) {
	switch {
	case c >= '0' && c <= '9':
		return c - '0', true
	case c >= 'A' && c <= 'F':
		return c - 'A' + 10, true
	case c >= 'a' && c <= 'f':
		return c - 'a' + 10, true
	}
	return 0, false
}

// DecodeASCII returns unit and PDU if f is exactly one valid frame (either hex case).
func DecodeASCII(f []byte) (byte, []byte, bool) {
	if len(f) < 9 || len(f) > 513 || len(f)%2 == 0 || f[0] != ':' || f[len(f)-2] != '\r' || f[len(f)-1] != '\n' {
		return 0, nil, false
	}
	h := f[1 : len(f)-2]
	b := make([]byte, len(h)/2)
	for i := range b {
		x, ok1 := hexv(h[2*i])
		y, ok2 := hexv(h[2*i+1])
		if !ok1 || !ok2 {
			return 0, nil, false
		}
		b[i] = x<<4 | y
	}
	if LRC(b[:len(b)-1]) != b[len(b)-1] {
		return 0, nil, false
	}
	return b[0], b[1 : len(b)-1], true
}

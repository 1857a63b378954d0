package props

import (
	"fmt"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

type unit struct {
	id byte
	nd *modbus.NodeRegister
	m  *model.Node
}

func genUnits(t *T, max int) []*unit { return genUnitsIn(t, max, 0, 255) }

// genUnitsIn draws units with addresses within lo..hi.
func genUnitsIn(t *T, max int, lo, hi byte) []*unit {
	var us []*unit
	used := map[byte]bool{}
	t.Repeat(1, max, func(int) {
		var id byte
		switch t.Intn(3) {
		case 0:
			id = byte(t.Range(1, 5))
		case 1:
			id = byte(t.OneOf(1, 247, 248, 255, 0, 17))
		case 2:
			id = t.Byte()
		}
		for used[id] || id < lo || id > hi {
			id++
		}
		used[id] = true
		l := genLayout(t, t.Chance(1, 8))
		u := &unit{id, newNode(id, l), model.New(l)}
		t.Note("unit %d: coils %d+%d, discretes %d+%d, inputs %d+%d, holdings %d+%d", id, l.CS, l.CN, l.DS, l.DN, l.IS, l.IN, l.HS, l.HN)
		fill(t, u.nd, u.m)
		us = append(us, u)
	})
	return us
}

func checkUnits(t *T, us []*unit) {
	for _, u := range us {
		if d := diffNode(u.nd, u.m); d != "" {
			t.Failf("unit %d: %s", u.id, d)
		}
	}
}

// history drives a TCP server with a sequence of requests over a few
// connections and compares every reply and the registers with the model.
func history(t *T, validOnly bool, minOps, maxOps int) {
	srv := modbus.NewTCPServer()
	us := genUnits(t, 3)
	for _, u := range us {
		srv.AddNodes(u.nd)
	}
	s := startServer(t, srv)
	conns := make([]*conn, t.Range(1, 3))
	for i := range conns {
		conns[i] = dial(t, s.addr)
	}
	oks, excs, writes := 0, 0, 0
	t.Repeat(minOps, maxOps, func(i int) {
		u := us[t.Intn(len(us))]
		c := conns[t.Intn(len(conns))]
		var r req
		if validOnly {
			ok := false
			// prefer functions whose bank is not empty
			for k := 0; k < 4 && !ok; k++ {
				r, ok = genValid(t, u.m, validFC[t.Intn(len(validFC))])
			}
			if t.Chance(1, 12) { // the application changes registers locally
				localChange(t, u)
			}
		} else {
			r = genRequest(t, u.m)
		}
		t.Note("unit %d fc %d data %s", u.id, r.fc, hx(r.data))
		o := judge(t, u.m, r, c.exchange(t, u.id, r))
		t.Sub(1)
		t.Class(fmt.Sprintf("fc%d:%s", min(int(r.fc), 24), o.What))
		if o.What == "ok" {
			oks++
			if o.Effect != nil {
				writes++
			}
		} else {
			excs++
		}
		if i%8 == 0 || !validOnly {
			if d := diffNode(u.nd, u.m); d != "" {
				t.Failf("after fc=%d data=%s, unit %d: %s", r.fc, hx(r.data), u.id, d)
			}
		}
	})
	checkUnits(t, us)
	if validOnly && writes > 0 && oks > writes {
		t.NonTrivial()
	}
	if !validOnly && excs > 0 {
		t.NonTrivial()
	}
}

func localChange(t *T, u *unit) {
	switch t.Intn(4) {
	case 0:
		if a, q, ok := genRange(t, u.m.DiscStart, len(u.m.Disc), 300); ok {
			v := t.Bytes((q + 7) / 8)
			if err := u.nd.WriteDiscretes(uint16(a), uint16(q), v); err != nil {
				t.Failf("WriteDiscretes(%d,%d): %v", a, q, err)
			}
			copy(u.m.Disc[a-u.m.DiscStart:], model.UnpackBits(v, q))
			t.Note("local: discretes %d+%d = %s", a, q, hx(v))
		}
	case 1:
		if a, q, ok := genRange(t, u.m.InStart, len(u.m.In), 300); ok {
			v := t.Bytes(2 * q)
			if err := u.nd.WriteInputsBytes(uint16(a), uint16(q), v); err != nil {
				t.Failf("WriteInputsBytes(%d,%d): %v", a, q, err)
			}
			copy(u.m.In[a-u.m.InStart:], model.UnpackRegs(v))
			t.Note("local: inputs %d+%d = %s", a, q, hx(v))
		}
	case 2:
		if a, q, ok := genRange(t, u.m.HoldStart, len(u.m.Hold), 300); ok {
			v := model.UnpackRegs(t.Bytes(2 * q))
			if err := u.nd.WriteHoldings(uint16(a), v); err != nil {
				t.Failf("WriteHoldings(%d,%d): %v", a, q, err)
			}
			copy(u.m.Hold[a-u.m.HoldStart:], v)
			t.Note("local: holdings %d+%d = %04x", a, q, v)
		}
	case 3:
		if a, _, ok := genRange(t, u.m.CoilStart, len(u.m.Coil), 1); ok {
			b := t.Bool()
			if err := u.nd.WriteSingleCoil(uint16(a), b); err != nil {
				t.Failf("WriteSingleCoil(%d): %v", a, err)
			}
			u.m.Coil[a-u.m.CoilStart] = b
			t.Note("local: coil %d = %v", a, b)
		}
	}
}

func init() {
	register(&pbt.Property{
		ID: "C01", Quick: 40000, Thorough: 400000, Workers: 8,
		Rule: "a case is 1-3 units with generated bank layouts (starts 0..65535, sizes 0..65535, random contents), 1-3 connections and 5-60 well-formed in-range requests of the ten functions " +
			"mixed with local register changes, against a live TCP server; non-trivial = at least one write and one read succeeded",
		Run: func(t *T) { history(t, true, 5, 60) },
	})
	register(&pbt.Property{
		ID: "C02", Quick: 40000, Thorough: 400000, Workers: 8,
		Rule: "as C01, with requests that are out of range, of illegal quantity, malformed, truncated, overlong or of unsupported functions mixed with valid ones; " +
			"the whole register file of the unit is compared after every request; non-trivial = at least one exception reply",
		Run: func(t *T) { history(t, false, 5, 40) },
	})
}

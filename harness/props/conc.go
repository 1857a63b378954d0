package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// xs is a tiny per-goroutine generator seeded by a drawn choice: which of many
// concurrent operations comes next is data of the goroutine, so a case remains
// a function of its choices (up to the schedule).
type xs uint64

func newXS(seed uint64) *xs { x := xs(seed*0x9e3779b97f4a7c15 + 1); return &x }

func (x *xs) next() uint64 {
	s := uint64(*x)
	s ^= s << 13
	s ^= s >> 7
	s ^= s << 17
	*x = xs(s)
	return s
}

func (x *xs) n(n int) int { return int(x.next() >> 11 % uint64(n)) }

// try is an exchange that reports trouble as an error (for use in goroutines).
func (c *conn) try(t *T, unit byte, r req) ([]byte, error) {
	c.tid++
	_ = c.SetWriteDeadline(time.Now().Add(wait(t, replyBudget)))
	if _, err := c.Write(model.TCP(c.tid, unit, r.pdu())); err != nil {
		return nil, fmt.Errorf("send: %v", err)
	}
	f, err := c.recv(wait(t, replyBudget))
	if err != nil {
		if isTimeout(err) {
			return nil, timeoutErr("no reply to " + hx(r.pdu()))
		}
		return nil, fmt.Errorf("no reply to %s: %v", hx(r.pdu()), err)
	}
	if f.tid != c.tid || f.unit != unit || f.pid != 0 {
		return nil, fmt.Errorf("request %s (tid %d): reply %s", hx(r.pdu()), c.tid, hx(f.raw))
	}
	return f.pdu, nil
}

// access is one way to the registers of a node: direct or over TCP.
type access struct {
	nd   *modbus.NodeRegister
	c    *conn
	t    *T
	unit byte
}

func (a *access) writeBits(disc bool, addr, q int, v []byte, single bool) error {
	if a.c == nil || disc {
		switch {
		case disc && single:
			return a.nd.WriteSingleDiscrete(uint16(addr), v[0]&1 == 1)
		case disc:
			return a.nd.WriteDiscretes(uint16(addr), uint16(q), v)
		case single:
			return a.nd.WriteSingleCoil(uint16(addr), v[0]&1 == 1)
		}
		return a.nd.WriteCoils(uint16(addr), uint16(q), v)
	}
	r := req{15, append(append(u16b(addr, q), byte(len(v))), v...)}
	if single {
		r = req{5, u16b(addr, int(v[0]&1)*0xff00)}
	}
	return a.wr(r)
}

func (a *access) wr(r req) error {
	p, err := a.c.try(a.t, a.unit, r)
	if err != nil {
		return err
	}
	if !bytes.Equal(p, append([]byte{r.fc}, cut(r.data, map[byte]int{15: 4, 16: 4, 5: 4, 6: 4, 22: 6}[r.fc])...)) {
		return fmt.Errorf("request %s: reply %s", hx(r.pdu()), hx(p))
	}
	return nil
}

func (a *access) rd(r req, n int) ([]byte, error) {
	p, err := a.c.try(a.t, a.unit, r)
	if err != nil {
		return nil, err
	}
	if len(p) != n+2 || p[0] != r.fc || int(p[1]) != n {
		return nil, fmt.Errorf("request %s: reply %s", hx(r.pdu()), hx(p))
	}
	return p[2:], nil
}

func (a *access) readBits(disc bool, addr, q int) ([]byte, error) {
	if a.c != nil {
		fc := byte(1)
		if disc {
			fc = 2
		}
		return a.rd(req{fc, u16b(addr, q)}, (q+7)/8)
	}
	if disc {
		return a.nd.ReadDiscretes(uint16(addr), uint16(q))
	}
	return a.nd.ReadCoils(uint16(addr), uint16(q))
}

func (a *access) writeWords(input bool, addr int, w []uint16, x *xs) error {
	b := model.PackRegs(w)
	if a.c != nil && !input {
		if x.n(4) == 0 && len(w) <= 121 {
			o := x.n(len(w))
			n := 1 + x.n(len(w)-o)
			r := req{23, append(append(u16b(addr+o, n, addr, len(w)), byte(len(b))), b...)}
			got, err := a.rd(r, 2*n)
			if err == nil && !bytes.Equal(got, b[2*o:2*o+2*n]) {
				err = fmt.Errorf("read/write multiple %s returns %x, not what it wrote itself", hx(r.pdu()), got)
			}
			return err
		}
		return a.wr(req{16, append(append(u16b(addr, len(w)), byte(len(b))), b...)})
	}
	switch {
	case input && x.n(2) == 0:
		return a.nd.WriteInputs(uint16(addr), w)
	case input:
		return a.nd.WriteInputsBytes(uint16(addr), uint16(len(w)), b)
	case x.n(2) == 0:
		return a.nd.WriteHoldings(uint16(addr), w)
	}
	return a.nd.WriteHoldingsBytes(uint16(addr), uint16(len(w)), b)
}

func (a *access) readWords(input bool, addr, q int, x *xs) ([]uint16, error) {
	if a.c != nil {
		fc := byte(3)
		if input {
			fc = 4
		}
		b, err := a.rd(req{fc, u16b(addr, q)}, 2*q)
		return model.UnpackRegs(b), err
	}
	direct := x.n(2) == 0
	switch {
	case input && direct:
		return a.nd.ReadInputs(uint16(addr), uint16(q))
	case input:
		b, err := a.nd.ReadInputsBytes(uint16(addr), uint16(q))
		return model.UnpackRegs(b), err
	case direct:
		return a.nd.ReadHoldings(uint16(addr), uint16(q))
	}
	b, err := a.nd.ReadHoldingsBytes(uint16(addr), uint16(q))
	return model.UnpackRegs(b), err
}

func (a *access) mask(addr int, and, or uint16) error {
	if a.c != nil {
		return a.wr(req{22, u16b(addr, int(and), int(or))})
	}
	return a.nd.MaskWriteHolding(uint16(addr), and, or)
}

// ---- C06 ----

func runConcurrentNode(t *T) {
	srv := modbus.NewTCPServer()
	nBits := t.OneOf(16, 24, 64, 200)
	nWords := t.OneOf(8, 20, 100)
	base := t.OneOf(0, 3, 1000)
	nd := modbus.NewNodeRegister(1, uint16(base), uint16(nBits), uint16(base), uint16(nBits), uint16(base), uint16(nWords), uint16(base), uint16(nWords))
	srv.AddNodes(nd)
	s := startServer(t, srv)
	ops := t.Range(20, 120)
	nG := t.Range(2, 6)
	var fs []func() error
	kind := t.Freq(6, 8, 6, 3, 6, 2)
	name := []string{"own bits", "blocks", "mask bits", "set of units", "own words", "units removed altogether"}[kind]
	mkAccess := func() *access {
		a := &access{nd: nd, t: t, unit: 1}
		if t.Bool() {
			a.c = dial(t, s.addr)
		}
		return a
	}
	overTCP := 0
	gate := make(chan struct{})
	var after func()
	yield := t.Bool()
	spin := func(x *xs) {
		if yield && x.n(4) == 0 {
			runtime.Gosched()
		}
	}
	switch kind {
	case 0: // every goroutine owns some bits; neighbours share bytes
		disc := t.Chance(1, 3)
		per := max(1, nBits/nG)
		for g := 0; g < nG && g*per+per <= nBits; g++ {
			a, seed := mkAccess(), uint64(t.U16())<<8|uint64(g)
			if a.c != nil && !disc {
				overTCP++
			}
			from := base + g*per
			fs = append(fs, func() error {
				<-gate
				x := newXS(seed)
				own := make([]bool, per)
				for i := 0; i < ops; i++ {
					o := x.n(per)
					q := 1 + x.n(per-o)
					single := x.n(3) == 0
					if single {
						q = 1
					}
					v := make([]byte, (q+7)/8)
					for k := range v {
						v[k] = byte(x.next() >> 20)
					}
					if err := a.writeBits(disc, from+o, q, v, single); err != nil {
						return err
					}
					copy(own[o:], model.UnpackBits(v, q))
					spin(x)
					got, err := a.readBits(disc, from, per)
					if err != nil {
						return err
					}
					if want := model.PackBits(own); !bytes.Equal(got, want) {
						return fmt.Errorf("goroutine %d wrote bits %d+%d and owns %d+%d alone: reads %x, expected %x", g, from+o, q, from, per, got, want)
					}
				}
				return nil
			})
		}
	case 1: // blocks written in one go are seen whole
		bits := t.Chance(1, 3)
		second := t.Chance(1, 3)
		nW := t.Range(1, max(1, nG-1))
		from, q := base+t.Intn(3), 0
		if bits {
			q = nBits - (from - base)
		} else {
			q = min(nWords-(from-base), 121)
		}
		if t.Chance(1, 3) {
			q = t.Range(1, q)
		}
		for g := 0; g < nG; g++ {
			a, seed := mkAccess(), uint64(t.U16())<<8|uint64(g)
			if a.c != nil {
				overTCP++
			}
			writer := g < nW
			fs = append(fs, func() error {
				<-gate
				x := newXS(seed)
				for i := 0; i < ops; i++ {
					spin(x)
					if writer {
						val := uint16(x.next() >> 16)
						if bits {
							v := bytes.Repeat([]byte{byte(0 - val&1)}, (q+7)/8)
							if err := a.writeBits(second, from, q, v, false); err != nil {
								return err
							}
							continue
						}
						w := make([]uint16, q)
						for k := range w {
							w[k] = val
						}
						if err := a.writeWords(second, from, w, x); err != nil {
							return err
						}
						continue
					}
					if bits {
						got, err := a.readBits(second, from, q)
						if err != nil {
							return err
						}
						u := model.UnpackBits(got, q)
						for k := range u {
							if u[k] != u[0] {
								return fmt.Errorf("a block of %d equal bits written in one go was read as %x", q, got)
							}
						}
						continue
					}
					got, err := a.readWords(second, from, q, x)
					if err != nil {
						return err
					}
					for k := range got {
						if got[k] != got[0] {
							return fmt.Errorf("a block of %d equal registers written in one go was read as %04x", q, got)
						}
					}
				}
				return nil
			})
		}
	case 2: // every goroutine owns one bit of one register, through mask writes
		reg := base + t.Intn(nWords)
		perm := t.Intn(16)
		final := make([]uint16, nG)
		for g := 0; g < nG; g++ {
			a, seed := mkAccess(), uint64(t.U16())<<8|uint64(g)
			if a.c != nil {
				overTCP++
			}
			bit := uint16(1) << uint((g*3+perm)%16)
			fs = append(fs, func() error {
				<-gate
				x := newXS(seed)
				for i := 0; i < ops; i++ {
					var or uint16
					if x.n(2) == 0 {
						or = bit
					}
					if err := a.mask(reg, ^bit, or); err != nil {
						return err
					}
					final[g] = or
					spin(x)
					got, err := a.readWords(false, reg, 1, x)
					if err != nil {
						return err
					}
					if len(got) != 1 || got[0]&bit != or {
						return fmt.Errorf("goroutine %d alone changes bit %04x of register %d by mask writes: wrote %04x, reads %04x", g, bit, reg, or, got)
					}
				}
				return nil
			})
		}
		after = func() {
			var want uint16
			for _, f := range final {
				want |= f
			}
			if v, err := nd.ReadHoldings(uint16(reg), 1); err != nil || v[0] != want {
				t.Failf("after concurrent mask writes of single bits register %d = %04x, expected %04x", reg, v, want)
			}
		}
	case 4: // every goroutine owns some registers, writes them in every way and masks them
		input := t.Chance(1, 3)
		per := max(1, nWords/nG)
		for g := 0; g < nG && g*per+per <= nWords; g++ {
			a, seed := mkAccess(), uint64(t.U16())<<8|uint64(g)
			if a.c != nil {
				overTCP++
			}
			from := base + g*per
			fs = append(fs, func() error {
				<-gate
				x := newXS(seed)
				own := make([]uint16, per)
				for i := 0; i < ops; i++ {
					o := x.n(per)
					q := 1
					if x.n(3) == 0 {
						q += x.n(min(per-o, 121))
					}
					w := make([]uint16, q)
					for k := range w {
						w[k] = uint16(x.next() >> 16)
					}
					var err error
					switch {
					case q == 1 && !input && x.n(2) == 0:
						and := uint16(x.next() >> 16)
						err = a.mask(from+o, and, w[0])
						w[0] = own[o]&and | w[0]&^and
					case q == 1 && !input && a.c != nil && x.n(2) == 0:
						err = a.wr(req{6, u16b(from+o, int(w[0]))})
					default:
						err = a.writeWords(input, from+o, w, x)
					}
					if err != nil {
						return err
					}
					copy(own[o:], w)
					spin(x)
					lo, n := from, per
					if x.n(4) == 0 { // the neighbours' as well
						lo, n = base, nWords
					}
					got, err := a.readWords(input, lo, min(n, 125), x)
					if err != nil {
						return err
					}
					if k := from - lo; k < len(got) {
						got = got[k:min(k+per, len(got))]
						if fmt.Sprint(got) != fmt.Sprint(own[:len(got)]) {
							return fmt.Errorf("goroutine %d owns registers %d+%d alone, wrote %04x at %d: reads %04x, expected %04x", g, from, per, w, from+o, got, own)
						}
					}
				}
				return nil
			})
		}
	case 3: // units come and go while others are served
		var stop atomic.Bool
		var wg sync.WaitGroup
		wg.Add(nG)
		for g := 0; g < nG; g++ {
			c := dial(t, s.addr)
			overTCP++
			seed := uint64(t.U16())
			fs = append(fs, func() error {
				defer wg.Done()
				<-gate
				x := newXS(seed)
				for i := 0; i < ops; i++ {
					v := uint16(x.next() >> 16)
					a := base + x.n(nWords)
					if _, err := c.try(t, 1, req{6, u16b(a, int(v))}); err != nil {
						return err
					}
				}
				return nil
			})
		}
		fs = append(fs, func() error {
			<-gate
			for !stop.Load() {
				for id := byte(2); id < 12; id++ {
					srv.AddNodes(modbus.NewNodeRegister(id, 0, 1, 0, 1, 0, 1, 0, 1))
				}
				if n := len(srv.GetNodeList()); n < 1 {
					return errors.New("unit 1 vanished")
				}
				srv.Range(func(byte, *modbus.NodeRegister) bool { return true })
				for id := byte(2); id < 12; id++ {
					srv.DeleteNode(id)
				}
			}
			return nil
		})
		fs = append(fs, func() error {
			<-gate
			for !stop.Load() { // and the one that is served is added and named again
				srv.AddNodes(nd)
				nd.SetSlaveID(1)
			}
			return nil
		}, func() error {
			<-gate
			for !stop.Load() {
				srv.AddNodes(nd)
				if n, err := srv.GetNode(1); err != nil || n != nd {
					return fmt.Errorf("unit 1, added again: GetNode: %v", err)
				}
			}
			return nil
		})
		go func() { wg.Wait(); stop.Store(true) }()
	case 5: // units of another server are added by their owner and removed by everybody
		other := modbus.NewTCPServer()
		os := startServer(t, other)
		own := make([]*modbus.NodeRegister, nG)
		for g := 0; g < nG; g++ {
			id := byte(g*40 + 1)
			n := modbus.NewNodeRegister(id, 0, 8, 0, 8, 0, 4, 0, 4)
			own[g] = n
			seed := uint64(t.U16())<<8 | uint64(g)
			fs = append(fs, func() error {
				<-gate
				x := newXS(seed)
				for i := 0; i < ops; i++ {
					other.AddNodes(n)
					spin(x)
					if v, err := other.GetNode(id); err == nil && v != n {
						return fmt.Errorf("unit %d: GetNode gave another unit (%d)", id, v.SlaveID())
					}
					seen := 0
					for _, v := range other.GetNodeList() {
						if v == n {
							seen++
						}
					}
					if seen > 1 {
						return fmt.Errorf("unit %d is %d times in the list", id, seen)
					}
					switch x.n(4) {
					case 0:
						continue
					case 1:
						other.DeleteAllNode()
					default:
						other.DeleteNode(id)
					}
					if v, err := other.GetNode(id); err == nil {
						return fmt.Errorf("unit %d was removed by the only one who adds it and is still there: %v", id, v == n)
					}
					other.Range(func(k byte, v *modbus.NodeRegister) bool { seen += int(k - v.SlaveID()); return true })
					if seen > 1 {
						return fmt.Errorf("a unit is found at an address that is not its own")
					}
				}
				other.AddNodes(n)
				return nil
			})
		}
		for g := t.Range(1, 2); g > 0; g-- { // and asked for meanwhile; whether there is an answer is open
			c := dial(t, os.addr)
			overTCP++
			fs = append(fs, func() error {
				<-gate
				x := newXS(uint64(g))
				for i := 0; i < ops; i++ {
					id := byte(x.n(nG)*40 + 1)
					c.tid++
					if _, err := c.Write(model.TCP(c.tid, id, u16bPDU(3, 0, 1))); err != nil {
						return err
					}
					spin(x)
				}
				return nil
			})
		}
		after = func() {
			for _, n := range own {
				other.AddNodes(n)
			}
			if n := len(other.GetNodeList()); n != nG {
				t.Failf("%d units were added last, %d are listed", nG, n)
			}
			c := dial(t, os.addr)
			for _, n := range own {
				if _, err := c.try(t, n.SlaveID(), req{3, u16b(0, 1)}); err != nil {
					t.Failf("unit %d, added last: %v", n.SlaveID(), err)
				}
			}
			other.DeleteAllNode()
			if n := len(other.GetNodeList()); n != 0 {
				t.Failf("after DeleteAllNode %d units are listed", n)
			}
		}
	}
	if t.Chance(1, 3) { // an onlooker reads everything in every way
		name += " watched"
		a, seed := mkAccess(), uint64(t.U16())
		fs = append(fs, func() error {
			<-gate
			x := newXS(seed)
			for i := 0; i < ops; i++ {
				o, b := x.n(nWords), x.n(nBits)
				if _, err := a.readWords(x.n(2) == 0, base+o, 1+x.n(min(nWords-o, 125)), x); err != nil {
					return err
				}
				if _, err := a.readBits(x.n(2) == 0, base+b, 1+x.n(nBits-b)); err != nil {
					return err
				}
				_, _ = nd.ReadSingleCoil(uint16(base + b))
				_, _ = nd.ReadSingleDiscrete(uint16(base + b))
				_, _ = nd.SlaveID(), srv.GetNodeList()
				spin(x)
			}
			return nil
		})
	}
	t.Note("%s: %d goroutines (%d over TCP), %d operations each, %d bits, %d words from %d, yield %v", name, len(fs), overTCP, ops, nBits, nWords, base, yield)
	t.Class(name)
	t.Sub(len(fs) * ops)
	if len(fs) > 1 {
		t.NonTrivial()
	}
	close(gate)
	parallel(t, fs)
	if after != nil {
		after()
	}
}

// ---- C15: one client, many goroutines ----

// slave answers every request from a function of the request.
func serveTCP(ln net.Listener, answer func(pdu []byte) []byte, bad func(string)) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		go func() {
			defer c.Close()
			for {
				h := make([]byte, 7)
				if _, err := io.ReadFull(c, h); err != nil {
					return
				}
				n := be(h, 4) - 1
				if be(h, 2) != 0 || n < 1 || n > 253 {
					bad(fmt.Sprintf("request header % x", h))
					return
				}
				p := make([]byte, n)
				if _, err := io.ReadFull(c, p); err != nil {
					return
				}
				if k := spoil(p); k >= 0 {
					f := model.TCP(uint16(be(h, 0)), h[6], []byte{p[0] | 0x80, 2})
					switch k {
					case 1: // of another transaction
						f[1]++
					case 2: // of another unit
						f[6]++
					case 3: // of an impossible length
						f[4] = 2
					case 4: // none
						return
					}
					if _, err := c.Write(f); err != nil {
						return
					}
				} else if a := answer(p); a == nil {
					bad(fmt.Sprintf("request % x % x", h, p))
					return
				} else if _, err := c.Write(model.TCP(uint16(be(h, 0)), h[6], a)); err != nil {
					return
				}
			}
		}()
	}
}

// spoil tells which failure, if any, the played slave of C15 has for a request.
func spoil(p []byte) int {
	if len(p) == 5 && (p[0] == 3 || p[0] == 4) && be(p, 1) >= 60000 && be(p, 1) < 60005 {
		return be(p, 1) - 60000
	}
	return -1
}

// regFn is the content of register a in the played slave of C15.
func regFn(a int) uint16 { return uint16(a)*40503 + 77 }

// answerFn is the played slave of C15: registers that are a function of their address.
func answerFn(p []byte) []byte {
	switch p[0] {
	case 3, 4:
		if len(p) != 5 {
			return nil
		}
		a, q := be(p, 1), be(p, 3)
		if q < 1 || q > 125 {
			return nil
		}
		r := []byte{p[0], byte(2 * q)}
		for i := 0; i < q; i++ {
			r = append(r, u16b(int(regFn(a+i)))...)
		}
		return r
	case 6:
		if len(p) != 5 {
			return nil
		}
		return p
	case 16:
		if len(p) < 6 || len(p) != 6+int(p[5]) || int(p[5]) != 2*be(p, 3) {
			return nil
		}
		return p[:5]
	case 22:
		if len(p) != 7 {
			return nil
		}
		return p
	}
	return nil
}

func runShared(t *T) {
	kind := genKind(t, 6, 1, 1)
	nG := t.Range(2, 6)
	ops := t.Range(10, 80)
	if kind != TCP {
		ops = t.Range(2, 5)
	}
	var mu sync.Mutex
	badMsg := ""
	bad := func(s string) {
		mu.Lock()
		if badMsg == "" {
			badMsg = s
		}
		mu.Unlock()
	}
	var l *link
	realSrv := false
	var cli modbus.Client
	chaos := false
	if kind == TCP {
		realSrv = t.Bool()
		addr := ""
		if realSrv {
			srv := modbus.NewTCPServer()
			nd := modbus.NewNodeRegister(1, 0, 8, 0, 8, 0, 2000, 0, 2000)
			w := make([]uint16, 2000)
			for i := range w {
				w[i] = regFn(i)
			}
			if nd.WriteInputs(0, w) != nil || nd.WriteHoldings(0, w) != nil {
				t.Failf("cannot load the registers")
			}
			srv.AddNodes(nd)
			addr = startServer(t, srv).addr
		} else {
			ln := listenLoop(t)
			addr = ln.Addr().String()
			go serveTCP(ln, answerFn, bad)
		}
		p := modbus.NewTCPClientProvider(addr, modbus.WithTCPTimeout(wait(t, 8*time.Second)))
		cli = modbus.NewClient(p)
		t.Cleanup(func() { closeQuietly(cli) })
		chaos = t.Chance(1, 4)
		if t.Bool() || chaos { // otherwise the first call connects
			if err := cli.Connect(); err != nil {
				t.Failf("Connect: %v", err)
			}
		}
	} else {
		l = newLink(t, kind, linkOpt{timeout: 8 * time.Second})
		cli = l.cli
		stop := make(chan struct{})
		stopped := make(chan struct{})
		t.Cleanup(func() { close(stop); <-stopped })
		go func() {
			defer close(stopped)
			var acc []byte
			buf := make([]byte, 1024)
			for {
				select {
				case <-stop:
					return
				default:
				}
				_ = l.m.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
				n, err := l.m.Read(buf)
				acc = append(acc, buf[:n]...)
				if err != nil && n == 0 && !isTimeout(err) {
					time.Sleep(time.Millisecond)
				}
				if len(acc) == 0 {
					continue
				}
				var u byte
				var p []byte
				ok := false
				if kind == ASCII {
					u, p, ok = model.DecodeASCII(acc)
				} else {
					u, p, ok = model.DecodeRTU(acc)
				}
				if !ok {
					if len(acc) > 600 {
						bad("bytes on the line that are no request: " + hx(acc))
						return
					}
					continue
				}
				a := answerFn(p)
				if a == nil {
					bad("request on the line " + hx(acc))
					return
				}
				acc = nil
				var f []byte
				switch spoil(p) {
				case -1:
					f = frameADU(kind, 0, u, a)
				case 0, 1:
					f = frameADU(kind, 0, u, []byte{p[0] | 0x80, 2})
				case 2:
					f = frameADU(kind, 0, u+1, []byte{p[0] | 0x80, 2})
				default: // a wrong checksum
					f = frameADU(kind, 0, u, []byte{p[0] | 0x80, 2})
					f[len(f)-3] ^= 1
				}
				_ = l.m.SetWriteDeadline(time.Now().Add(time.Second))
				_, _ = l.m.Write(f)
			}
		}()
	}
	t.Note("%s, real server %v, %d goroutines, %d calls each, others close and connect %v", kindName[kind], realSrv, nG, ops, chaos)
	t.Class(fmt.Sprintf("%s real=%v chaos=%v", kindName[kind], realSrv, chaos))
	t.NonTrivial()
	t.Sub(nG * ops)
	gate := make(chan struct{})
	var fs []func() error
	var done atomic.Int32
	for g := 0; g < nG; g++ {
		seed := uint64(t.U16())<<8 | uint64(g)
		fs = append(fs, func() error {
			defer done.Add(1)
			<-gate
			x := newXS(seed)
			mine := map[int]uint16{}
			dead := map[int]bool{} // a failed write may still arrive
			okCalls := 0
			for i := 0; i < ops; i++ {
				var err error
				what := ""
				switch k := x.n(12); {
				case k >= 10: // a call that fails, beside those of the others
					var exc *modbus.ExceptionError
					bad := 60000 + x.n(5)
					switch n := x.n(8); {
					case n == 0:
						what = "too long a request"
						_, err = cli.Send(1, modbus.ProtocolDataUnit{FuncCode: 3, Data: make([]byte, 600)})
					case n == 1:
						what = "too long a pdu"
						_, err = cli.SendPdu(1, make([]byte, 300))
					case n < 5 || realSrv:
						what = fmt.Sprintf("failing read %d", bad)
						_, err = cli.ReadInputRegisters(1, uint16(bad), 1)
					default:
						what = fmt.Sprintf("failing pdu, read %d", bad)
						_, err = cli.SendPdu(1, append([]byte{3}, u16b(bad, 1)...))
					}
					if err == nil {
						return fmt.Errorf("%s: no error", what)
					}
					if !chaos && (realSrv || bad == 60000) && what[:4] == "fail" && (!errors.As(err, &exc) || exc.ExceptionCode != 2) {
						return fmt.Errorf("%s by one of %d goroutines: %v, expected exception 2", what, nG, err)
					}
					if isTimeout(err) && !chaos {
						return timeoutErr(what + ": " + err.Error())
					}
					continue
				case k < 6: // read what is a function of the address
					a, q := x.n(1000), 1+x.n(20)
					var v []uint16
					what = fmt.Sprintf("read %d+%d", a, q)
					if k < 4 {
						v, err = cli.ReadInputRegisters(1, uint16(a), uint16(q))
					} else if !realSrv {
						v, err = cli.ReadHoldingRegisters(1, uint16(a), uint16(q))
					} else {
						continue
					}
					if err == nil {
						for j := range v {
							if len(v) != q || v[j] != regFn(a+j) {
								return fmt.Errorf("%s by one of %d goroutines: %04x, register %d is %04x: another call's response", what, nG, v, a+j, regFn(a+j))
							}
						}
					}
				case k < 8: // own register
					a := 1000 + g*100 + x.n(20)
					val := uint16(x.next() >> 16)
					what = fmt.Sprintf("write %d", a)
					err = cli.WriteSingleRegister(1, uint16(a), val)
					if err == nil {
						mine[a] = val
					} else {
						dead[a] = true
					}
				default:
					a := 1000 + g*100 + x.n(20)
					w := []uint16{uint16(x.next() >> 16), uint16(x.next() >> 16)}
					what = fmt.Sprintf("write %d+2", a)
					err = cli.WriteMultipleRegisters(1, uint16(a), 2, w)
					for j := range w {
						if err == nil {
							mine[a+j] = w[j]
						} else {
							dead[a+j] = true
						}
					}
				}
				if err != nil && !chaos {
					if isTimeout(err) {
						return timeoutErr(what + ": " + err.Error())
					}
					return fmt.Errorf("%s by one of %d goroutines: %v", what, nG, err)
				}
				if err == nil {
					okCalls++
				}
				if realSrv && x.n(3) == 0 {
					for a, want := range mine {
						if dead[a] {
							continue
						}
						v, err := cli.ReadHoldingRegisters(1, uint16(a), 1)
						if err == nil && v[0] != want {
							return fmt.Errorf("register %d: wrote %04x, reads %04x", a, want, v[0])
						}
						if err != nil && !chaos {
							return fmt.Errorf("read back %d: %v", a, err)
						}
						break
					}
				}
			}
			return nil
		})
	}
	if chaos {
		seed := uint64(t.U16())
		fs = append(fs, func() error {
			<-gate
			x := newXS(seed)
			for int(done.Load()) < nG {
				switch x.n(3) {
				case 0:
					_ = cli.Close()
				case 1:
					_ = cli.Connect()
				default:
					cli.IsConnected()
				}
				time.Sleep(time.Duration(x.n(300)) * time.Microsecond)
			}
			return nil
		})
	}
	close(gate)
	within(t, 60*time.Second, "the concurrent calls", func() { parallel(t, fs) })
	mu.Lock()
	defer mu.Unlock()
	if badMsg != "" {
		t.Failf("the slave received a request nobody made: %s", badMsg)
	}
	// and the client is still good for a call
	if v, err := cli.ReadInputRegisters(1, 5, 3); err != nil {
		if v, err = cli.ReadInputRegisters(1, 5, 3); err != nil || v[0] != regFn(5) {
			t.Failf("a call after the concurrent ones: %v, %v", v, err)
		}
	}
}

func init() {
	register(&pbt.Property{
		ID: "C06", Quick: 8000, Thorough: 80000, Workers: 6, Race: true, CaseMax: 90 * time.Second,
		Rule:   "a case is 2-6 goroutines that access one node directly and over TCP, 20-120 operations each, under the race detector: bits or registers owned by one goroutine beside those of others, blocks written in one go, single bits changed by mask writes, units that come and go, in a third of the cases with an onlooker that reads everything; non-trivial = more than one goroutine",
		Run:    runConcurrentNode,
		Assume: []string{"interleavings are those the Go scheduler produces on this machine with generated yields; the race detector reports only races on executed paths"},
	})
	register(&pbt.Property{
		ID: "C15", Quick: 3000, Thorough: 30000, Workers: 8, Race: true, CaseMax: 120 * time.Second,
		Rule:   "a case is one client (TCP to a real or a played server, RTU or ASCII to a played slave) used by 2-6 goroutines, 2-80 calls each, some with concurrent Close and Connect, under the race detector; every register has a value that identifies it; always non-trivial",
		Run:    runShared,
		Assume: []string{"interleavings are those the Go scheduler produces on this machine; the race detector reports only races on executed paths"},
	})
}

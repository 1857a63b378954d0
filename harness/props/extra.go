package props

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"path/filepath"
	"sync"
	"syscall"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C27: the connection of a client ----

// Addresses tell the played server of C27 what to do.
const (
	aSilent = 40000 // no answer
	aExc    = 50000 // exception 2
	aBad    = 60000 // an answer of the wrong size
)

func answerLife(p []byte) []byte {
	if len(p) >= 3 {
		switch a := be(p, 1); {
		case a >= aBad:
			return []byte{p[0], 1, 0}
		case a >= aExc:
			return []byte{p[0] | 0x80, 2}
		case a >= aSilent:
			return nil
		}
	}
	return answerFn(p)
}

// peer is a played server that keeps count of its connections.
type peer struct {
	addr  string
	mu    sync.Mutex
	ln    net.Listener
	total int
	open  map[net.Conn]bool
	reqs  int
	busy  sync.WaitGroup
}

func newPeer(t *T) *peer {
	p := &peer{addr: freshAddr(), open: map[net.Conn]bool{}}
	p.up(t)
	t.Cleanup(p.down)
	return p
}

func (p *peer) up(t *T) {
	ln, err := net.Listen("tcp", p.addr)
	if err != nil {
		t.Envf("listen %s: %v", p.addr, err)
	}
	p.mu.Lock()
	p.ln = ln
	p.mu.Unlock()
	p.busy.Add(1)
	go func() {
		defer p.busy.Done()
		for {
			c, err := ln.Accept()
			if errors.Is(err, syscall.EMFILE) { // C32
				time.Sleep(time.Millisecond)
				continue
			}
			if err != nil {
				return
			}
			p.mu.Lock()
			p.total++
			p.open[c] = true
			p.mu.Unlock()
			p.busy.Add(1)
			go p.serve(c)
		}
	}()
}

func (p *peer) serve(c net.Conn) {
	defer p.busy.Done()
	defer func() {
		c.Close()
		p.mu.Lock()
		delete(p.open, c)
		p.mu.Unlock()
	}()
	for {
		h := make([]byte, 7)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		n := be(h, 4) - 1
		if n < 1 || n > 253 {
			return
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(c, b); err != nil {
			return
		}
		p.mu.Lock()
		p.reqs++
		p.mu.Unlock()
		if a := answerLife(b); a != nil {
			if _, err := c.Write(model.TCP(uint16(be(h, 0)), h[6], a)); err != nil {
				return
			}
		}
	}
}

func (p *peer) down() {
	p.mu.Lock()
	ln := p.ln
	p.ln = nil
	var l []net.Conn
	for c := range p.open {
		l = append(l, c)
	}
	p.mu.Unlock()
	if ln != nil {
		ln.Close()
	}
	for _, c := range l {
		c.Close()
	}
	p.busy.Wait()
}

func (p *peer) counts() (total, open int) {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.total, len(p.open)
}

// fdsOf counts the descriptors of this process that are the given file.
func fdsOf(path string) int {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range es {
		if s, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && s == path {
			n++
		}
	}
	return n
}

// slaveOn answers the requests on the master side of a pty until stop.
func slaveOn(t *T, m *os.File, kind int, answer func([]byte) []byte) {
	stop, stopped := make(chan struct{}), make(chan struct{})
	t.Cleanup(func() { close(stop); <-stopped })
	go func() {
		defer close(stopped)
		var acc []byte
		buf := make([]byte, 1024)
		for {
			select {
			case <-stop:
				return
			default:
			}
			_ = m.SetReadDeadline(time.Now().Add(5 * time.Millisecond))
			n, err := m.Read(buf)
			acc = append(acc, buf[:n]...)
			if err != nil && n == 0 && !isTimeout(err) {
				time.Sleep(time.Millisecond)
			}
			if len(acc) == 0 {
				continue
			}
			var u byte
			var p []byte
			ok := false
			if kind == ASCII {
				u, p, ok = model.DecodeASCII(acc)
			} else {
				u, p, ok = model.DecodeRTU(acc)
			}
			if !ok {
				if len(acc) > 600 {
					acc = nil
				}
				continue
			}
			acc = nil
			if a := answer(p); a != nil {
				_ = m.SetWriteDeadline(time.Now().Add(time.Second))
				_, _ = m.Write(frameADU(kind, 0, u, a))
			}
		}
	}()
}

func runConnection(t *T) {
	kind := genKind(t, 8, 1, 1)
	to := wait(t, 250*time.Millisecond)
	var cli modbus.Client
	var p *peer
	var pts, path string
	reach := true
	var setReach func(bool)
	// openNow is the number of connections the client holds; -1: unknown
	var openNow func() int
	if kind == TCP {
		p = newPeer(t)
		cli = modbus.NewClient(modbus.NewTCPClientProvider(p.addr, modbus.WithTCPTimeout(to)))
		setReach = func(b bool) {
			if b {
				p.up(t)
			} else {
				p.down()
			}
		}
		openNow = func() int { _, n := p.counts(); return n }
	} else {
		dir, err := os.MkdirTemp("", "vpty")
		if err != nil {
			t.Envf("%v", err)
		}
		t.Cleanup(func() { os.RemoveAll(dir) })
		path = filepath.Join(dir, "tty")
		var m *os.File
		m, pts = openPty(t)
		t.Cleanup(func() { m.Close() })
		slaveOn(t, m, kind, answerLife)
		setReach = func(b bool) {
			if b {
				if err := os.Symlink(pts, path); err != nil {
					t.Envf("%v", err)
				}
			} else {
				_ = os.Remove(path)
			}
		}
		setReach(true)
		cfg := modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: to})
		if kind == RTU {
			cli = modbus.NewClient(modbus.NewRTUClientProvider(cfg))
		} else {
			cli = modbus.NewClient(modbus.NewASCIIClientProvider(cfg))
		}
		openNow = func() int { return fdsOf(pts) }
		if openNow() < 0 {
			openNow = func() int { return -1 }
		}
	}
	t.Cleanup(func() { closeQuietly(cli) })
	t.Class(kindName[kind])
	connected := false
	total := 0 // connections so far
	what := ""
	// settle compares the peer's view with the expected one
	settle := func() {
		want := 0
		if connected {
			want = 1
		}
		if cli.IsConnected() != connected {
			t.Failf("%s %s: IsConnected is %v", kindName[kind], what, !connected)
		}
		end := time.Now().Add(wait(t, promptly))
		for {
			n := openNow()
			all := total
			if p != nil {
				all, _ = p.counts()
			}
			if (n == want || n < 0) && all == total {
				return
			}
			if all > total {
				t.Failf("%s %s: the client opened %d connections so far, expected %d", kindName[kind], what, all, total)
			}
			if time.Now().After(end) {
				t.FailTimeoutf("%s %s: the client holds %d connections, expected %d (%d opened so far, expected %d)", kindName[kind], what, n, want, all, total)
			}
			time.Sleep(200 * time.Microsecond)
		}
	}
	opened := func() {
		if !connected {
			connected = true
			total++
		}
	}
	read := func(a int) error {
		v, err := cli.ReadHoldingRegisters(1, uint16(a), 2)
		if err == nil && (len(v) != 2 || v[0] != regFn(a) || v[1] != regFn(a+1)) {
			t.Failf("%s %s: read %04x", kindName[kind], what, v)
		}
		return err
	}
	ok := func(err error) {
		if err == nil {
			return
		}
		if isTimeout(err) || errors.Is(err, serial.ErrTimeout) {
			t.FailTimeoutf("%s %s: %v", kindName[kind], what, err)
		}
		t.Failf("%s %s: %v", kindName[kind], what, err)
	}
	lost := func() { // after a failed exchange the client may keep the connection or not
		if !cli.IsConnected() {
			connected = false
		}
	}
	silences := 0
	reopened := 0
	t.Repeat(2, 14, func(i int) {
		op := t.Freq(6, 3, 4, 2, 1, 2, 2, 1)
		t.Sub(1)
		switch op {
		case 0:
			what = fmt.Sprintf("op %d: call (connected %v, reachable %v)", i, connected, reach)
			if !connected && !reach {
				if read(t.Intn(1000)) == nil {
					t.Failf("%s %s: succeeded", kindName[kind], what)
				}
				break
			}
			if !connected && total > 0 {
				reopened++
			}
			ok(read(t.Intn(1000)))
			opened()
		case 1:
			what = fmt.Sprintf("op %d: Connect (connected %v, reachable %v)", i, connected, reach)
			err := cli.Connect()
			if !connected && !reach {
				if err == nil {
					t.Failf("%s %s: succeeded", kindName[kind], what)
				}
				break
			}
			ok(err)
			opened()
		case 2:
			what = fmt.Sprintf("op %d: Close (connected %v)", i, connected)
			if err := cli.Close(); err != nil {
				t.Failf("%s %s: %v", kindName[kind], what, err)
			}
			connected = false
		case 3:
			what = fmt.Sprintf("op %d: call answered by an exception", i)
			if !connected && !reach {
				break
			}
			err := read(aExc + t.Intn(100))
			var ee *modbus.ExceptionError
			if !errors.As(err, &ee) || ee.ExceptionCode != 2 {
				ok(err)
				t.Failf("%s %s: %v", kindName[kind], what, err)
			}
			opened()
		case 4:
			if !connected && !reach || silences > 1 {
				break
			}
			silences++
			what = fmt.Sprintf("op %d: call without an answer", i)
			if read(aSilent+t.Intn(100)) == nil {
				t.Failf("%s %s: succeeded", kindName[kind], what)
			}
			opened()
			lost()
		case 5: // the peer goes away or comes back; connections cut off are C16
			if reach && connected {
				break
			}
			reach = !reach
			setReach(reach)
			what = fmt.Sprintf("op %d: reachable %v", i, reach)
		case 6: // all at once
			if !connected && !reach {
				break
			}
			k := t.Range(2, 8)
			mix := t.Intn(3)
			what = fmt.Sprintf("op %d: %d at once (%d) (connected %v)", i, k, mix, connected)
			var fs []func() error
			gate := make(chan struct{})
			for j := 0; j < k; j++ {
				fs = append(fs, func() error {
					<-gate
					if mix == 1 || mix == 2 && j%2 == 0 {
						return cli.Connect()
					}
					_, err := cli.ReadHoldingRegisters(1, uint16(j), 1)
					return err
				})
			}
			errs := make([]error, k)
			var wg sync.WaitGroup
			for j := range fs {
				wg.Add(1)
				go func() { defer wg.Done(); errs[j] = fs[j]() }()
			}
			close(gate)
			within(t, 20*time.Second, what, wg.Wait)
			for _, err := range errs {
				ok(err)
			}
			opened()
			t.Class(kindName[kind] + " at once")
		case 7:
			if !connected && !reach || kind != TCP {
				break
			}
			what = fmt.Sprintf("op %d: call answered wrongly", i)
			if read(aBad+t.Intn(100)) == nil {
				t.Failf("%s %s: succeeded", kindName[kind], what)
			}
			opened()
			lost()
		}
		t.Note("%s", what)
		settle()
	})
	what = "Close at the end"
	if err := cli.Close(); err != nil {
		t.Failf("%s %s: %v", kindName[kind], what, err)
	}
	connected = false
	settle()
	if total > 1 {
		t.NonTrivial()
	}
	if reopened > 0 {
		t.Class("reopened by a call")
	}
}

func init() {
	register(&pbt.Property{
		ID: "C27", Quick: 5000, Thorough: 50000, Workers: 24, CaseMax: 90 * time.Second,
		Rule: "a case is 2-14 operations of one client (TCP, RTU, ASCII): calls answered normally, by an exception, wrongly or not at all, Connect, Close, the peer away and back, 2-8 calls and Connects at once; the peer counts the connections after each; non-trivial = more than one connection was opened",
		Run:  runConnection,
		Assume: []string{"a client may keep or drop its connection after a failed exchange; IsConnected tells which",
			"on serial lines connections are counted as descriptors of the terminal in /proc/self/fd"},
	})
}

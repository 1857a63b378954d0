package props

import (
	"bufio"
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C28: timeouts, intervals and port settings ----
//
// Lower limits are certain: the time is taken around the operation. Upper
// limits are generous and confirmed before they are reported.

func atLeast(t *T, what string, got, set time.Duration) {
	if got < set*85/100 {
		t.Failf("%s: over after %v, the setting is %v", what, got.Round(time.Millisecond), set)
	}
}

// silentPeer accepts, swallows requests, and answers with what the case says.
type silentPeer struct {
	ln    *net.TCPListener
	reply func(c net.Conn, tid uint16, unit byte)
}

func newSilentPeer(t *T, reply func(c net.Conn, tid uint16, unit byte)) *silentPeer {
	s := &silentPeer{ln: listenLoop(t), reply: reply}
	go func() {
		for {
			c, err := s.ln.Accept()
			if err != nil {
				return
			}
			go func() {
				defer rst(c)
				buf := make([]byte, 512)
				for {
					n, err := c.Read(buf)
					if err != nil {
						return
					}
					if s.reply != nil && n >= 7 {
						s.reply(c, uint16(be(buf, 0)), buf[6])
					}
				}
			}()
		}
	}()
	return s
}

// genTimeout draws a timeout different enough from the defaults.
func genTimeout(t *T) time.Duration {
	return time.Duration(t.OneOf(60, 120, 200, 350, 1500, 1800, 2300)) * time.Millisecond
}

// genOptions mixes the option that counts with others that must not matter.
func genOptions(t *T, mine func(d time.Duration) modbus.ClientProviderOption, noise []modbus.ClientProviderOption, d time.Duration) []modbus.ClientProviderOption {
	var o []modbus.ClientProviderOption
	some := func() {
		t.Repeat(0, 2, func(int) {
			if k := t.Intn(len(noise) + 1); k < len(noise) {
				o = append(o, noise[k])
			} else { // overridden by the last one
				o = append(o, mine(time.Duration(t.Range(20, 3000))*time.Millisecond))
			}
		})
	}
	some()
	o = append(o, mine(d))
	t.Repeat(0, 2, func(int) { o = append(o, noise[t.Intn(len(noise))]) })
	return o
}

func tcpTimeoutCase(t *T) {
	def := t.Chance(1, 4)
	d := genTimeout(t)
	if def {
		d = time.Second
	}
	part := t.Intn(4) // what the peer sends before it falls silent
	noise := []modbus.ClientProviderOption{
		modbus.WithSerialConfig(serial.Config{Address: "/nowhere", Timeout: 40 * time.Millisecond}),
		modbus.WithLogProvider(&recorder{}), modbus.WithEnableLogger(), modbus.WithLogProvider(nil),
	}
	popts := genOptions(t, modbus.WithTCPTimeout, noise, d)
	if def {
		popts = noise[:t.Intn(3)]
		popts = append(popts, modbus.WithLogProvider(&recorder{}))
	} else {
		popts = append(popts, modbus.WithLogProvider(&recorder{}))
	}
	pe := newSilentPeer(t, func(c net.Conn, tid uint16, unit byte) {
		full := model.TCP(tid, unit, []byte{3, 2, 1, 2})
		_, _ = c.Write(full[:[]int{0, 3, 7, 9}[part]])
	})
	cli := modbus.NewClient(modbus.NewTCPClientProvider(pe.ln.Addr().String(), popts...))
	t.Cleanup(func() { closeQuietly(cli) })
	t.Note("TCP client, timeout %v (default %v), %d options, the peer stalls at %d", d, def, len(popts), part)
	t.Class(fmt.Sprintf("client timeout default=%v", def))
	best := time.Hour
	for i := 0; i < 4; i++ {
		begin := time.Now()
		r := await(t, start(func() (any, error) { return nw(cli.ReadHoldingRegisters(1, 0, 1)) }), promptly+d, "call without an answer")
		e := time.Since(begin)
		if r.err == nil {
			t.Failf("call without an answer succeeded")
		}
		atLeast(t, "TCP client: call without an answer", e, d)
		if e < best {
			best = e
		}
		if d >= 500*time.Millisecond || best < 850*time.Millisecond {
			break
		}
	}
	if d < 500*time.Millisecond && best > 850*time.Millisecond {
		t.FailTimeoutf("TCP client with a timeout of %v: the fastest of four failing calls took %v", d, best)
	}
	if best > d+6*time.Second {
		t.FailTimeoutf("TCP client with a timeout of %v: the call took %v", d, best)
	}
}

// slowAnswerCase: an answer later than the default timeout, but in time.
func slowAnswerCase(t *T) {
	d := time.Duration(t.OneOf(0, 6000, 20000)) * time.Millisecond
	delay := time.Duration(t.Range(1150, 1500)) * time.Millisecond
	kind := t.Freq(4, 1, 1)
	t.Note("%s client, timeout %v (0: none), the answer comes after %v", kindName[kind], d, delay)
	t.Class(kindName[kind] + " slow answer")
	var cli modbus.Client
	switch kind {
	case TCP:
		pe := newSilentPeer(t, func(c net.Conn, tid uint16, unit byte) {
			time.Sleep(delay)
			_, _ = c.Write(model.TCP(tid, unit, []byte{3, 2, 1, 2}))
		})
		cli = modbus.NewClient(modbus.NewTCPClientProvider(pe.ln.Addr().String(),
			modbus.WithSerialConfig(serial.Config{Timeout: 30 * time.Millisecond}), modbus.WithTCPTimeout(wait(t, d))))
	default:
		m, path := openPty(t)
		t.Cleanup(func() { m.Close() })
		slaveOn(t, m, kind, func([]byte) []byte { time.Sleep(delay); return []byte{3, 2, 1, 2} })
		o := []modbus.ClientProviderOption{
			modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: wait(t, d)}),
			modbus.WithTCPTimeout(30 * time.Millisecond)}
		if kind == RTU {
			cli = modbus.NewClient(modbus.NewRTUClientProvider(o...))
		} else {
			cli = modbus.NewClient(modbus.NewASCIIClientProvider(o...))
		}
	}
	t.Cleanup(func() { closeQuietly(cli) })
	r := await(t, start(func() (any, error) { return nw(cli.ReadHoldingRegisters(1, 0, 1)) }), 20*time.Second, "call with a slow answer")
	if r.err != nil {
		t.FailTimeoutf("%s client, timeout %v: an answer after %v was not waited for: %v", kindName[kind], d, delay, r.err)
	}
	if w, _ := r.val.([]uint16); len(w) != 1 || w[0] != 0x0102 {
		t.Failf("%s client: slow answer gave %s", kindName[kind], valText(r.val))
	}
}

// steadyCase: a series of calls, each answered late but in time; the timeout is one for
// every call, not for the connection or what is left of it.
func steadyCase(t *T) {
	d := time.Duration(t.OneOf(500, 800, 1200)) * time.Millisecond
	n := t.Range(2, 4)
	part := make([]int, n)
	for i := range part {
		part[i] = t.OneOf(0, 5, 10, 20, 25, 40, 60, 75, 75, 85) // of the timeout, in percent
	}
	rev, server := t.Bool(), t.Bool()
	delay := func(i int) time.Duration { return wait(t, d) * time.Duration(part[i]) / 100 }
	if server { // idle for less than the read timeout, again and again
		t.Note("server (reverse %v), read timeout %v, requests after pauses of %v percent of it", rev, d, part)
		t.Class("server, pauses shorter than the read timeout")
		u := smallUnit(t, 1)
		var c *conn
		if rev {
			sp := modbus.NewTCPServerSpecial()
			sp.SetReadTimeout(wait(t, d)).EnableAutoReconnect(false)
			sp.AddNodes(u.nd)
			m := newMaster(t, freshAddr())
			m.up(t)
			if err := sp.AddRemoteServer(m.addr); err != nil {
				t.Failf("AddRemoteServer: %v", err)
			}
			t.Cleanup(func() { _ = sp.Close() })
			if err := sp.Start(); err != nil {
				t.Failf("Start: %v", err)
			}
			nc := m.next(wait(t, promptly))
			if nc == nil {
				t.FailTimeoutf("no connection")
			}
			t.Cleanup(func() { rst(nc) })
			c = &conn{Conn: nc, soft: true}
		} else {
			srv := modbus.NewTCPServer()
			srv.SetReadTimeout(wait(t, d))
			srv.AddNodes(u.nd)
			c = dial(t, startServer(t, srv).addr)
			c.soft = true
		}
		x := &access{t: t, unit: 1, c: c}
		for i := range part {
			time.Sleep(delay(i))
			if _, err := x.c.try(t, 1, req{3, u16b(u.m.HoldStart, 1)}); err != nil {
				t.FailTimeoutf("server (reverse %v) with a read timeout of %v: request %d, %v after the one before: %v", rev, wait(t, d), i, delay(i), err)
			}
		}
		return
	}
	kind := t.Freq(4, 1, 1)
	t.Note("%s client, timeout %v, answers after %v percent of it", kindName[kind], d, part)
	t.Class(kindName[kind] + " answers late but in time")
	var cli modbus.Client
	var k atomic.Int32
	next := func() { time.Sleep(delay(int(k.Add(1)-1) % n)) }
	if kind == TCP {
		pe := newSilentPeer(t, func(c net.Conn, tid uint16, unit byte) {
			next()
			_, _ = c.Write(model.TCP(tid, unit, []byte{3, 2, 1, 2}))
		})
		cli = modbus.NewClient(modbus.NewTCPClientProvider(pe.ln.Addr().String(), modbus.WithTCPTimeout(wait(t, d))))
	} else {
		m, path := openPty(t)
		t.Cleanup(func() { m.Close() })
		slaveOn(t, m, kind, func([]byte) []byte { next(); return []byte{3, 2, 1, 2} })
		o := modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: wait(t, d)})
		if kind == RTU {
			cli = modbus.NewClient(modbus.NewRTUClientProvider(o))
		} else {
			cli = modbus.NewClient(modbus.NewASCIIClientProvider(o))
		}
	}
	t.Cleanup(func() { closeQuietly(cli) })
	for i := 0; i < n; i++ {
		r := await(t, start(func() (any, error) { return nw(cli.ReadHoldingRegisters(1, 0, 1)) }), 20*time.Second, "call with a late answer")
		if r.err != nil {
			t.FailTimeoutf("%s client, timeout %v: the answer to call %d, %v after it, was not waited for: %v", kindName[kind], wait(t, d), i, delay(i), r.err)
		}
		if w, _ := r.val.([]uint16); len(w) != 1 || w[0] != 0x0102 {
			t.Failf("%s client: late answer gave %s", kindName[kind], valText(r.val))
		}
	}
}

// manyFailuresCase: the interval between attempts does not depend on how many failed.
func manyFailuresCase(t *T) {
	d := time.Duration(t.OneOf(40, 100)) * time.Millisecond
	n := t.Range(9, 14)
	by := t.Intn(2)
	t.Note("reverse server, reconnect interval %v, failing %s %d times", d, []string{"by the handler", "by the handshake"}[by], n)
	t.Class("reconnect interval, many failures")
	sp := modbus.NewTCPServerSpecial()
	t.Cleanup(func() { _ = sp.Close() })
	m := newMaster(t, freshAddr())
	m.up(t)
	sp.SetReconnectInterval(d).SetConnectTimeout(time.Hour)
	sp.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error { return errors.New("no") })
	a := m.addr
	if by == 1 {
		a = "ssl://" + a
		sp.SetTLSConfig(&tls.Config{InsecureSkipVerify: true})
	}
	if err := sp.AddRemoteServer(a); err != nil {
		t.Failf("AddRemoteServer: %v", err)
	}
	if err := sp.Start(); err != nil {
		t.Failf("Start: %v", err)
	}
	fastest := time.Hour
	var last time.Time
	for i := 0; i <= n; i++ {
		c := m.next(d*20 + wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("reverse server with a reconnect interval of %v: no further attempt after %d", d, i)
		}
		if i > n-4 {
			fastest = min(fastest, time.Since(last))
		}
		last = time.Now()
		rst(c)
	}
	if fastest > 3*d+wait(t, 200*time.Millisecond) {
		t.FailTimeoutf("reverse server with a reconnect interval of %v: the fastest of the last 4 of %d attempts came after %v", d, n, fastest)
	}
}

// blackhole is an address where connecting hangs.
func blackhole(t *T) string {
	addr := freshAddr()
	ta, err := net.ResolveTCPAddr("tcp", addr)
	if err != nil {
		t.Envf("%v", err)
	}
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		t.Envf("socket: %v", err)
	}
	t.Cleanup(func() { syscall.Close(fd) })
	sa := &syscall.SockaddrInet4{Port: ta.Port}
	copy(sa.Addr[:], ta.IP.To4())
	_ = syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
	if err := syscall.Bind(fd, sa); err != nil {
		t.Envf("bind: %v", err)
	}
	if err := syscall.Listen(fd, 0); err != nil {
		t.Envf("listen: %v", err)
	}
	for i := 0; i < 8; i++ {
		c, err := net.DialTimeout("tcp", addr, 150*time.Millisecond)
		if err != nil {
			if isTimeout(err) {
				return addr
			}
			t.Envf("dial: %v", err)
		}
		t.Cleanup(func() { rst(c) })
	}
	t.Envf("connecting to a full listener does not hang here")
	return ""
}

func connectTimeoutCase(t *T) {
	addr := blackhole(t)
	d := time.Duration(t.OneOf(100, 250, 1500, 2000)) * time.Millisecond
	byCall := t.Bool()
	t.Note("TCP client, timeout %v, connecting hangs, by a call %v", d, byCall)
	t.Class("connect timeout")
	cli := modbus.NewClient(modbus.NewTCPClientProvider(addr, modbus.WithTCPTimeout(d)))
	t.Cleanup(func() { closeQuietly(cli) })
	best := time.Hour
	for i := 0; i < 4; i++ {
		begin := time.Now()
		r := await(t, start(func() (any, error) {
			if byCall {
				return nw(cli.ReadHoldingRegisters(1, 0, 1))
			}
			return nil, cli.Connect()
		}), promptly+d, "Connect that hangs")
		e := time.Since(begin)
		if r.err == nil {
			t.Failf("Connect to an address that does not accept succeeded")
		}
		if cli.IsConnected() {
			t.Failf("connected after a failed Connect")
		}
		if isTimeout(r.err) {
			atLeast(t, "TCP client: Connect", e, d)
		}
		best = min(best, e)
		if d >= 500*time.Millisecond || best < 850*time.Millisecond {
			break
		}
	}
	if d < 500*time.Millisecond && best > 850*time.Millisecond {
		t.FailTimeoutf("TCP client with a timeout of %v: the fastest of four failing Connects took %v", d, best)
	}
}

func serialTimeoutCase(t *T) {
	kind := RTU + t.Intn(2)
	d := genTimeout(t)
	m, path := openPty(t)
	t.Cleanup(func() { m.Close() })
	part := t.Intn(3)
	slaveOn(t, m, kind, func([]byte) []byte {
		if part > 0 {
			b := frameADU(kind, 0, 1, []byte{3, 2, 1, 2})
			_, _ = m.Write(b[:[]int{0, 2, 6}[part]])
		}
		return nil
	})
	mine := func(d time.Duration) modbus.ClientProviderOption {
		return modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: d})
	}
	noise := []modbus.ClientProviderOption{modbus.WithTCPTimeout(25 * time.Millisecond), modbus.WithTCPTimeout(5 * time.Second),
		modbus.WithLogProvider(nil), modbus.WithLogProvider(&recorder{})}
	popts := genOptions(t, mine, noise, d)
	var cli modbus.Client
	if kind == RTU {
		cli = modbus.NewClient(modbus.NewRTUClientProvider(popts...))
	} else {
		cli = modbus.NewClient(modbus.NewASCIIClientProvider(popts...))
	}
	t.Cleanup(func() { closeQuietly(cli) })
	t.Note("%s client, timeout %v, %d options, the slave stalls at %d", kindName[kind], d, len(popts), part)
	t.Class("serial timeout")
	if err := cli.Connect(); err != nil {
		t.Failf("Connect: %v", err)
	}
	begin := time.Now()
	r := await(t, start(func() (any, error) { return nw(cli.ReadHoldingRegisters(1, 0, 1)) }), promptly+3*d, "call without an answer")
	e := time.Since(begin)
	if r.err == nil {
		t.Failf("call without an answer succeeded")
	}
	atLeast(t, kindName[kind]+" client: call without an answer", e, d)
}

var baudBits = map[int]uint32{1200: syscall.B1200, 2400: syscall.B2400, 4800: syscall.B4800, 9600: syscall.B9600, 19200: syscall.B19200,
	38400: syscall.B38400, 57600: syscall.B57600, 115200: syscall.B115200, 230400: syscall.B230400, 921600: syscall.B921600}
var bauds = []int{1200, 2400, 4800, 9600, 19200, 38400, 57600, 115200, 230400, 921600}

const cbaud = 0o010017

func termiosOf(t *T, path string) syscall.Termios {
	var x syscall.Termios
	f, err := os.OpenFile(path, os.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK, 0)
	if err != nil {
		t.Envf("%v", err)
	}
	defer f.Close()
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, f.Fd(), syscall.TCGETS, uintptr(unsafe.Pointer(&x))); e != 0 {
		t.Envf("TCGETS: %v", e)
	}
	return x
}

func portSettingsCase(t *T) {
	kind := RTU + t.Intn(2)
	conf := func(o ...modbus.ClientProviderOption) (modbus.ClientProvider, serial.Config) {
		if kind == RTU {
			p := modbus.NewRTUClientProvider(o...)
			return p, p.Config
		}
		p := modbus.NewASCIIClientProvider(o...)
		return p, p.Config
	}
	t.Class("port settings")
	// the documented default
	_, got := conf(modbus.WithTCPTimeout(time.Minute), modbus.WithEnableLogger(), modbus.WithLogProvider(&recorder{}))
	if def := (serial.Config{Address: "/dev/ttyS0", BaudRate: 19200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: time.Second}); got != def {
		t.Failf("%s client: default port configuration %+v, documented is %+v", kindName[kind], got, def)
	}
	m, path := openPty(t)
	t.Cleanup(func() { m.Close() })
	want := serial.Config{Address: path, BaudRate: bauds[t.Intn(len(bauds))], DataBits: 8, StopBits: t.Range(1, 2), Parity: "N",
		Timeout: time.Duration(t.Range(1, 5000)) * time.Millisecond}
	bad := t.Freq(6, 1, 1, 1)
	switch bad {
	case 0:
		want.DataBits = t.OneOf(8, 7)
		want.Parity = []string{"N", "E", "O"}[t.Intn(3)]
	case 1:
		want.BaudRate = t.OneOf(12345, 1, -1)
	case 2:
		want.StopBits = t.OneOf(3, 4, -1)
	case 3:
		want.Parity = []string{"X", "n", "none"}[t.Intn(3)]
	}
	popts := []modbus.ClientProviderOption{modbus.WithSerialConfig(serial.Config{Address: "/nowhere", BaudRate: 300, StopBits: 2}),
		modbus.WithTCPTimeout(time.Millisecond), modbus.WithSerialConfig(want), modbus.WithEnableLogger(), modbus.WithTCPTimeout(time.Hour)}
	popts = append(popts[t.Intn(3):], modbus.WithLogProvider(&recorder{}))
	t.Note("%s client, port configuration %+v", kindName[kind], want)
	p, got := conf(popts...)
	if got != want {
		t.Failf("%s client: port configuration %+v, set was %+v", kindName[kind], got, want)
	}
	t.Cleanup(func() { closeQuietly(p) })
	err := p.Connect()
	if bad != 0 {
		if err == nil {
			t.Failf("%s client: Connect with %+v succeeded", kindName[kind], want)
		}
		if p.IsConnected() {
			t.Failf("%s client: connected after a failed Connect", kindName[kind])
		}
		return
	}
	if err != nil {
		t.Failf("%s client: Connect with %+v: %v", kindName[kind], want, err)
	}
	x := termiosOf(t, path)
	if x.Cflag&cbaud != baudBits[want.BaudRate] {
		t.Failf("%s client: the port has speed bits %o, %d baud is %o", kindName[kind], x.Cflag&cbaud, want.BaudRate, baudBits[want.BaudRate])
	}
	if two := x.Cflag&syscall.CSTOPB != 0; two != (want.StopBits == 2) {
		t.Failf("%s client: the port has two stop bits: %v, set were %d", kindName[kind], two, want.StopBits)
	}
	if n := fdsOf(path); n >= 0 && n != 1 {
		t.Failf("%s client: %d descriptors of the configured port are open", kindName[kind], n)
	}
}

// ends waits for the end of a connection and returns when it came.
func ends(t *T, c net.Conn, max time.Duration, what string) {
	if _, err := drain(c, wait(t, max)); isTimeout(err) {
		t.FailTimeoutf("%s: the connection is still open after %v", what, wait(t, max))
	}
}

func serverReadTimeoutCase(t *T) {
	d := genTimeout(t)
	partial := t.Bool()
	rev := t.Chance(1, 3)
	u := smallUnit(t, 1)
	used := t.Bool()
	tight := t.Chance(1, 4)
	if tight { // more than one read timeout is too much
		partial, used, d = true, t.Chance(1, 4), 4*time.Second
	}
	var c *conn
	begin := time.Now()
	var lost atomic.Int32
	if rev {
		sp := modbus.NewTCPServerSpecial()
		sp.SetReadTimeout(3 * time.Hour)
		if t.Bool() {
			sp.SetReadTimeout(d).SetWriteTimeout(time.Hour)
		} else {
			sp.SetWriteTimeout(time.Hour).SetReadTimeout(d)
		}
		sp.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { lost.Add(1) }).SetReconnectInterval(time.Hour).EnableAutoReconnect(false)
		sp.AddNodes(u.nd)
		m := newMaster(t, freshAddr())
		m.up(t)
		if err := sp.AddRemoteServer(m.addr); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		t.Cleanup(func() { _ = sp.Close() })
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		nc := m.next(wait(t, promptly))
		if nc == nil {
			t.FailTimeoutf("no connection")
		}
		t.Cleanup(func() { rst(nc) })
		c = &conn{Conn: nc, soft: true}
	} else {
		srv := modbus.NewTCPServer()
		srv.SetReadTimeout(3 * time.Hour)
		if t.Bool() {
			srv.SetReadTimeout(d).SetWriteTimeout(time.Hour)
		} else {
			srv.SetWriteTimeout(time.Hour).SetReadTimeout(d)
		}
		srv.AddNodes(u.nd)
		s := startServer(t, srv)
		begin = time.Now()
		c = dial(t, s.addr)
		c.soft = true
	}
	t.Note("server (reverse %v), read timeout %v, used %v, partial %v", rev, d, used, partial)
	t.Class("server read timeout")
	if used && d > time.Second {
		for i := 0; i < 3; i++ {
			time.Sleep(d / 4)
			r, ok := genValid(t, u.m, 3)
			if ok {
				begin = time.Now()
				judge(t, u.m, r, c.exchange(t, 1, r))
			}
		}
	}
	if partial {
		b := model.TCP(9, 1, u16bPDU(3, 0, 1))
		_, _ = c.Write(b[:t.Range(1, len(b)-1)])
	}
	if tight {
		at := time.Now()
		if _, err := drain(c, d+wait(t, time.Second)); isTimeout(err) {
			t.FailTimeoutf("server (reverse %v) with a read timeout of %v: the connection is still open %v after the client stopped within a frame", rev, d, time.Since(at))
		}
	}
	ends(t, c, d+promptly, fmt.Sprintf("server with a read timeout of %v", d))
	atLeast(t, fmt.Sprintf("server (reverse %v): silent connection", rev), time.Since(begin), d)
	if rev {
		eventually(t, promptly, "lost callback after the read timeout", func() bool { return lost.Load() == 1 })
	}
}

func serverWriteTimeoutCase(t *T) {
	def := t.Chance(1, 3)
	d := time.Duration(t.OneOf(200, 400, 2500, 4000)) * time.Millisecond
	if def {
		d = time.Second
	}
	l := model.Layout{HN: 125, CN: 8, DN: 8, IN: 8}
	u := &unit{1, newNode(1, l), model.New(l)}
	fill(t, u.nd, u.m)
	var c *conn
	rev := t.Chance(1, 3)
	if rev {
		sp := modbus.NewTCPServerSpecial()
		t.Cleanup(func() { _ = sp.Close() })
		m := newMaster(t, freshAddr())
		m.up(t)
		if err := sp.AddRemoteServer(m.addr); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		sp.EnableAutoReconnect(false)
		switch {
		case def:
			sp.SetReadTimeout(time.Hour)
		case t.Bool():
			sp.SetReadTimeout(time.Hour).SetWriteTimeout(d)
		default:
			sp.SetWriteTimeout(d).SetReadTimeout(time.Hour)
		}
		sp.AddNodes(u.nd)
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		nc := m.next(wait(t, promptly))
		if nc == nil {
			t.FailTimeoutf("no connection")
		}
		t.Cleanup(func() { rst(nc) })
		c = &conn{Conn: nc}
	} else {
		srv := modbus.NewTCPServer()
		switch {
		case def:
			srv.SetReadTimeout(time.Hour)
		case t.Bool():
			srv.SetReadTimeout(time.Hour).SetWriteTimeout(d)
		default:
			srv.SetWriteTimeout(d).SetReadTimeout(time.Hour)
		}
		srv.AddNodes(u.nd)
		c = dial(t, startServer(t, srv).addr)
	}
	r := req{3, u16b(0, 125)}
	want := model.TCP(1, 1, append([]byte{3, 250}, wordBytes(u.m.Hold)...))
	batch := bytes.Repeat(model.TCP(1, 1, r.pdu()), 100)
	patient := t.Bool() && d >= time.Second
	if tc, ok := c.Conn.(*net.TCPConn); ok {
		if patient { // keeps the number of requests under way bounded
			_ = tc.SetReadBuffer(1 << 16)
			_ = tc.SetWriteBuffer(1 << 16)
		} else {
			_ = tc.SetReadBuffer(4096)
		}
	}
	t.Note("server (reverse %v) with a write timeout of %v (default %v), the client reads again in time: %v", rev, d, def, patient)
	t.Class(fmt.Sprintf("server write timeout, reverse %v, reads again %v", rev, patient))
	begin := time.Now()
	sent := 0
	// ask until the server is stuck in a write and our own requests pile up
	for {
		_ = c.SetWriteDeadline(time.Now().Add(30 * time.Millisecond))
		n, err := c.Write(batch[sent%12:])
		sent += n
		if err != nil && !isTimeout(err) {
			if patient && time.Since(begin) < d*85/100 {
				t.Failf("server with a write timeout of %v: the connection broke after %v: %v", d, time.Since(begin), err)
			}
			return
		}
		if n == 0 || time.Since(begin) > d/2 {
			break
		}
	}
	if !patient {
		if time.Since(begin) < 20*time.Millisecond || sent < 12*1000 {
			t.Envf("the server did not get stuck (%d bytes sent)", sent)
		}
		time.Sleep(d + wait(t, 1500*time.Millisecond))
		n, err := drain(c, wait(t, 20*time.Second))
		if n/len(want) >= sent/12 || isTimeout(err) {
			t.FailTimeoutf("server with a write timeout of %v: a connection that took no answers for much longer was still served (%d requests, %d bytes of answers, %v)", d, sent/12, n, err)
		}
		return
	}
	// stay deaf for a while, within the limit counted from the beginning
	if pause := d*6/10 - time.Since(begin); pause > 0 {
		time.Sleep(pause)
	}
	// every complete request is answered
	deaf := time.Since(begin)
	soft := deaf > d*8/10
	rd := bufio.NewReaderSize(c, 1<<16)
	buf := make([]byte, len(want))
	for i := 0; i < sent/12; i++ {
		if i%200 == 0 { // as long as there is progress
			_ = c.SetReadDeadline(time.Now().Add(wait(t, 20*time.Second)))
		}
		if _, err := io.ReadFull(rd, buf); err != nil {
			if soft {
				t.Envf("the machine is too slow for this case")
			}
			t.FailTimeoutf("server with a write timeout of %v: the connection broke after the client had been deaf for %v: %v (%d of %d answers)", d, deaf, err, i, sent/12)
		}
		if !bytes.Equal(buf, want) {
			t.Failf("reply %d after a stall: %s, expected %s", i, hx(buf), hx(want))
		}
	}
	t.Sub(sent / 12)
	t.Note("%d answers", sent/12)
}

func wordBytes(w []uint16) []byte {
	var b []byte
	for _, x := range w {
		b = append(b, byte(x>>8), byte(x))
	}
	return b
}

func reverseIntervalsCase(t *T) {
	kind := t.Intn(4)
	d := time.Duration(t.OneOf(150, 300, 700, 1500)) * time.Millisecond
	sp := modbus.NewTCPServerSpecial()
	t.Cleanup(func() { _ = sp.Close() })
	m := newMaster(t, freshAddr())
	m.up(t)
	switch kind {
	case 0: // the connect timeout covers the handshake
		t.Note("reverse server, connect timeout %v, the TLS peer is silent", d)
		t.Class("reverse connect timeout (TLS)")
		sp.SetConnectTimeout(time.Hour).SetReconnectInterval(time.Hour).SetConnectTimeout(d).SetTLSConfig(&tls.Config{InsecureSkipVerify: true})
		if err := sp.AddRemoteServer("tls://" + m.addr); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		begin := time.Now()
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		c := m.next(wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("no connection")
		}
		t.Cleanup(func() { rst(c) })
		ends(t, c, d+promptly, "silent TLS peer")
		atLeast(t, "reverse server: connect timeout", time.Since(begin), d)
	case 1: // plain connect
		addr := blackhole(t)
		t.Note("reverse server, connect timeout %v, connecting hangs", d)
		t.Class("reverse connect timeout")
		sp.SetConnectTimeout(d).SetReconnectInterval(time.Millisecond).EnableAutoReconnect(false)
		if err := sp.AddRemoteServer(addr); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		begin := time.Now()
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		eventually(t, d+promptly, "the connect timeout", sp.IsClosed)
		if e := time.Since(begin); e < d*85/100 && e > 5*time.Millisecond {
			atLeast(t, "reverse server: connect timeout", e, d)
		}
	case 2: // intervals between attempts that fail
		by := t.Intn(2)
		n := t.Range(2, 3)
		t.Note("reverse server, reconnect interval %v, failing %s %d times", d, []string{"by the handler", "by the handshake"}[by], n)
		t.Class("reconnect interval")
		sp.SetReconnectInterval(d).SetConnectTimeout(time.Hour)
		calls := make(chan time.Time, 100)
		sp.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error { calls <- time.Now(); return errors.New("no") })
		a := m.addr
		if by == 1 {
			a = "ssl://" + a
			sp.SetTLSConfig(&tls.Config{InsecureSkipVerify: true})
		}
		if err := sp.AddRemoteServer(a); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		var last time.Time
		for i := 0; i <= n; i++ {
			c := m.next(d + wait(t, promptly))
			if c == nil {
				t.FailTimeoutf("reverse server with a reconnect interval of %v: no further attempt", d)
			}
			now := time.Now()
			// the attempt before was seen before it failed
			if !last.IsZero() && by == 1 {
				atLeast(t, "reverse server: reconnect interval", now.Sub(last), d)
			}
			last = time.Now()
			rst(c)
		}
		if by == 0 {
			before := <-calls
			for i := 0; i < n; i++ {
				now := <-calls
				atLeast(t, "reverse server: reconnect interval after a refusal by the handler", now.Sub(before), d)
				before = now
			}
		}
	case 3: // keep alive
		off := t.Chance(1, 4)
		var beats atomic.Int32
		f := func(*modbus.TCPServerSpecial) { beats.Add(1) }
		g := func(*modbus.TCPServerSpecial) { beats.Add(1000) }
		switch t.Intn(4) {
		case 0:
			sp.SetKeepAlive(!off, d, f)
		case 1: // a nil handler and a zero interval keep the ones before
			sp.SetKeepAlive(off, d, f).SetKeepAlive(!off, 0, nil)
		case 2:
			sp.SetKeepAlive(true, time.Hour, g).SetKeepAlive(!off, d, f)
		case 3:
			sp.SetKeepAlive(false, d, g).SetKeepAlive(!off, -1, f)
		}
		t.Note("reverse server, keep alive %v every %v", !off, d)
		t.Class(fmt.Sprintf("keep alive %v", !off))
		if err := sp.AddRemoteServer(m.addr); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		begin := time.Now()
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		c := m.next(wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("no connection")
		}
		t.Cleanup(func() { rst(c) })
		if off {
			time.Sleep(d*2 + 50*time.Millisecond)
			if n := beats.Load(); n != 0 {
				t.Failf("keep alive is off, %d calls of its handler", n)
			}
			return
		}
		n := int32(t.Range(1, 4))
		eventually(t, time.Duration(n)*d+promptly, fmt.Sprintf("%d keep alive calls", n), func() bool { return beats.Load() >= n })
		if b := beats.Load(); b >= 1000 {
			t.Failf("a keep alive handler that had been replaced was called")
		}
		atLeast(t, fmt.Sprintf("reverse server: %d keep alive intervals", n), time.Since(begin), time.Duration(n)*d)
	}
}

// slowDefaults: the documented defaults that take long.
func slowDefaults(t *T, k int) {
	names := []string{"read timeout 60s", "reverse read timeout 60s", "reconnect interval 60s", "keep alive interval 30s", "connect timeout 15s"}
	t.Note("default %s", names[k])
	t.Class("default " + names[k])
	between := func(what string, e, lo time.Duration) {
		if e < lo {
			t.Failf("%s: over after %v", what, e)
		}
	}
	sp := modbus.NewTCPServerSpecial()
	t.Cleanup(func() { _ = sp.Close() })
	u := smallUnit(t, 1)
	startSp := func(a string) {
		sp.AddNodes(u.nd)
		if err := sp.AddRemoteServer(a); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
	}
	switch k {
	case 0:
		srv := modbus.NewTCPServer().SetWriteTimeout(5 * time.Second)
		srv.AddNodes(u.nd)
		s := startServer(t, srv)
		begin := time.Now()
		a, b := dial(t, s.addr), dial(t, s.addr)
		b.soft = true
		time.Sleep(50 * time.Second)
		r := req{3, u16b(u.m.HoldStart, 1)}
		judge(t, u.m, r, b.exchange(t, 1, r))
		ends(t, a, 25*time.Second, "server with the default read timeout")
		between("silent connection", time.Since(begin), 55*time.Second)
		judge(t, u.m, r, b.exchange(t, 1, r))
	case 1:
		m := newMaster(t, freshAddr())
		m.up(t)
		sp.SetWriteTimeout(5 * time.Second)
		begin := time.Now()
		startSp(m.addr)
		c := m.next(wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("no connection")
		}
		t.Cleanup(func() { rst(c) })
		ends(t, c, 75*time.Second, "reverse server with the default read timeout")
		between("silent connection of the reverse server", time.Since(begin), 55*time.Second)
	case 2:
		m := newMaster(t, freshAddr())
		begin := time.Now()
		startSp(m.addr)
		time.Sleep(time.Second)
		m.up(t)
		c := m.next(wait(t, 75*time.Second))
		if c == nil {
			t.FailTimeoutf("the reverse server does not try again within 75s")
		}
		rst(c)
		between("default reconnect interval", time.Since(begin), 55*time.Second)
	case 3:
		m := newMaster(t, freshAddr())
		m.up(t)
		var beats atomic.Int32
		sp.SetKeepAlive(true, 0, func(*modbus.TCPServerSpecial) { beats.Add(1) })
		begin := time.Now()
		startSp(m.addr)
		eventually(t, 45*time.Second, "first keep alive call", func() bool { return beats.Load() > 0 })
		between("default keep alive interval", time.Since(begin), 27*time.Second)
	case 4:
		m := newMaster(t, freshAddr())
		m.up(t)
		begin := time.Now()
		startSp("tls://" + m.addr)
		c := m.next(wait(t, promptly))
		if c == nil {
			t.FailTimeoutf("no connection")
		}
		t.Cleanup(func() { rst(c) })
		ends(t, c, 30*time.Second, "silent TLS peer")
		between("default connect timeout", time.Since(begin), 13*time.Second)
	}
}

func runSettings(t *T) {
	const slow, rest = 5, 3000
	k := t.Enum(slow + rest)
	t.NonTrivial()
	if k < slow {
		slowDefaults(t, k)
		return
	}
	switch (k - slow) % 11 {
	case 0, 1:
		tcpTimeoutCase(t)
	case 2:
		slowAnswerCase(t)
	case 3:
		connectTimeoutCase(t)
	case 4:
		serialTimeoutCase(t)
	case 5:
		portSettingsCase(t)
	case 6:
		serverReadTimeoutCase(t)
	case 7:
		serverWriteTimeoutCase(t)
	case 8:
		reverseIntervalsCase(t)
	case 9:
		steadyCase(t)
	case 10:
		manyFailuresCase(t)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C28", Quick: 2400, Thorough: 12000, Workers: 64, CaseMax: 150 * time.Second,
		Rule: "a case is one setting with a generated value or its default: client timeout (silent or stalling peer, slow answer, connecting that hangs), a series of answers or requests that are late but in time, serial timeout and port settings, read and write timeout of both servers, connect timeout, reconnect and keep alive interval of the reverse server, also after 9-14 failures; other options are mixed in; always non-trivial",
		Run:  runSettings,
		Assume: []string{"lower limits are certain (the time is taken around the operation), upper limits are generous and confirmed with longer budgets",
			"of the port settings speed and stop bits are visible on a pseudo terminal; data bits and parity are compared in the provider's Config only"},
	})
}

package props

import (
	"errors"
	"fmt"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// ---- C32: no file descriptors left ----

// dearth is a phase in which the process gets no further file descriptors: the
// soft limit lies below those that are open.
type dearth struct {
	old syscall.Rlimit
	on  bool
}

// the limit of this process, and whether its cases are over (some may have
// been left behind).
var (
	fileLimit    syscall.Rlimit
	errFileLimit = syscall.Getrlimit(syscall.RLIMIT_NOFILE, &fileLimit)
	dearthMu     sync.Mutex
	dearthOver   bool
)

// Finish ends what cases left behind may do to the process.
func Finish() {
	dearthMu.Lock()
	defer dearthMu.Unlock()
	if !dearthOver && errFileLimit == nil {
		_ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &fileLimit)
	}
	dearthOver = true
}

func newDearth(t *T) *dearth {
	if errFileLimit != nil {
		t.Envf("getrlimit: %v", errFileLimit)
	}
	d := &dearth{old: fileLimit}
	t.Cleanup(d.end)
	return d
}

func (d *dearth) begin(t *T) {
	dearthMu.Lock()
	defer dearthMu.Unlock()
	if dearthOver {
		t.Envf("the run is over")
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: 0, Max: d.old.Max}); err != nil {
		t.Envf("setrlimit: %v", err)
	}
	d.on = true
	if f, err := os.Open("/dev/null"); err == nil {
		f.Close()
		t.Envf("the limit of file descriptors has no effect here")
	} else if !errors.Is(err, syscall.EMFILE) {
		t.Envf("open: %v", err)
	}
}

func (d *dearth) end() {
	if d.on {
		_ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &d.old)
		d.on = false
	}
}

// socketAhead is a socket made before the dearth, to connect within it.
type socketAhead struct {
	fd   int
	addr string
	c    *conn
}

func newSocketAhead(t *T, addr string) *socketAhead {
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		t.Envf("socket: %v", err)
	}
	s := &socketAhead{fd: fd, addr: addr}
	t.Cleanup(func() {
		if s.fd >= 0 {
			syscall.Close(s.fd)
		}
	})
	return s
}

func (s *socketAhead) connect(t *T, first []byte) {
	ta, err := net.ResolveTCPAddr("tcp", s.addr)
	if err != nil {
		t.Envf("%v", err)
	}
	sa := &syscall.SockaddrInet4{Port: ta.Port}
	copy(sa.Addr[:], ta.IP.To4())
	if err := syscall.Connect(s.fd, sa); err != nil {
		t.Failf("no descriptors left: a client cannot even connect: %v", err)
	}
	if len(first) > 0 {
		if _, err := syscall.Write(s.fd, first); err != nil {
			t.Failf("no descriptors left: the connection of a waiting client broke: %v", err)
		}
	}
}

// conn turns it into an ordinary connection (after the dearth).
func (s *socketAhead) conn(t *T) *conn {
	f := os.NewFile(uintptr(s.fd), "socket")
	s.fd = -1
	nc, err := net.FileConn(f)
	f.Close()
	if err != nil {
		t.Envf("FileConn: %v", err)
	}
	t.Cleanup(func() { rst(nc) })
	return &conn{Conn: nc}
}

func genDearth(t *T) time.Duration {
	if t.Chance(1, 12) {
		return time.Duration(t.OneOf(700, 1500, 2600)) * time.Millisecond
	}
	return time.Duration(t.Range(0, 120)) * time.Millisecond
}

func dearthServer(t *T) {
	srv := modbus.NewTCPServer()
	u := smallUnit(t, byte(t.Range(1, 247)))
	srv.AddNodes(u.nd)
	s := startServer(t, srv)
	d := newDearth(t)
	some := func(c *conn, n int) {
		for ; n > 0; n-- {
			r, ok := genValid(t, u.m, validFC[t.Intn(len(validFC))])
			if t.Chance(1, 4) || !ok {
				r = genRequest(t, u.m)
			}
			judge(t, u.m, r, c.exchange(t, u.id, r))
			t.Sub(1)
		}
	}
	var cs []*conn
	for i := t.Range(1, 3); i > 0; i-- {
		cs = append(cs, dial(t, s.addr))
		some(cs[len(cs)-1], 1)
	}
	cycles := t.Range(1, 4)
	for k := 0; k < cycles; k++ {
		var ahead []*socketAhead
		for i := t.Range(1, 4); i > 0; i-- {
			ahead = append(ahead, newSocketAhead(t, s.addr))
		}
		what := fmt.Sprintf("server, phase %d without descriptors", k+1)
		long := genDearth(t)
		t.Note("%s: %v, %d clients wait", what, long, len(ahead))
		d.begin(t)
		rq := req{3, u16b(u.m.HoldStart, 1)}
		asked := make([]bool, len(ahead))
		for i, a := range ahead {
			var b []byte
			if asked[i] = t.Bool(); asked[i] {
				b = model.TCP(1, u.id, rq.pdu())
			}
			a.connect(t, b)
		}
		end := time.Now().Add(long)
		for first := true; first || time.Now().Before(end); first = false {
			some(cs[t.Intn(len(cs))], t.Range(1, 3))
			time.Sleep(time.Millisecond)
		}
		select {
		case err := <-s.done:
			t.Failf("%s: ListenAndServe returned %v", what, err)
		default:
		}
		if t.Chance(1, 6) {
			t.Note("closed meanwhile")
			t.Class("server closed without descriptors")
			within(t, promptly, "Close while there are no descriptors", func() { _ = srv.Close() })
			select {
			case <-s.done:
			case <-time.After(wait(t, promptly)):
				t.FailTimeoutf("ListenAndServe has not returned after Close")
			}
			within(t, promptly, "ListenAndServe without descriptors", func() {
				if err := srv.ListenAndServe(s.addr); err == nil {
					t.Failf("ListenAndServe without descriptors returned no error")
				}
			})
			d.end()
			for _, c := range cs {
				if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
					t.FailTimeoutf("a connection stays open after Close")
				}
			}
			for _, a := range ahead {
				c := a.conn(t)
				if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
					t.FailTimeoutf("a connection that waited stays open after Close")
				}
			}
			s.done = make(chan error, 1)
			s.listen(t)
			cs = []*conn{dial(t, s.addr)}
			some(cs[0], 2)
			continue
		}
		t.Class("server")
		d.end()
		var late []*conn
		for i, a := range ahead {
			c := a.conn(t)
			late = append(late, c)
			if !asked[i] {
				continue
			}
			c.tid = 1
			f, err := c.recv(wait(t, promptly))
			if err != nil {
				if isTimeout(err) {
					t.FailTimeoutf("%s is over: a client that waited gets no answer", what)
				}
				t.Failf("%s is over: the connection of a client that waited broke: %v", what, err)
			}
			if f.tid != 1 || f.unit != u.id {
				t.Failf("%s is over: a client that waited got %s", what, hx(f.raw))
			}
			judge(t, u.m, rq, f.pdu)
		}
		for _, c := range late {
			some(c, t.Range(1, 3))
			if t.Bool() {
				cs = append(cs, c)
			} else {
				rst(c.Conn)
			}
		}
		c := dial(t, s.addr)
		some(c, 1)
		cs = append(cs, c)
		if x := diffOf(t, u); x != "" {
			t.Failf("%s", x)
		}
	}
}

func dearthClient(t *T) {
	kind := genKind(t, 4, 1, 1)
	to := wait(t, 6*time.Second)
	var cli modbus.Client
	if kind == TCP {
		p := newPeer(t)
		cli = modbus.NewClient(modbus.NewTCPClientProvider(p.addr, modbus.WithTCPTimeout(to)))
	} else {
		m, path := openPty(t)
		t.Cleanup(func() { m.Close() })
		slaveOn(t, m, kind, answerLife)
		cfg := modbus.WithSerialConfig(serial.Config{Address: path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: to})
		if kind == RTU {
			cli = modbus.NewClient(modbus.NewRTUClientProvider(cfg))
		} else {
			cli = modbus.NewClient(modbus.NewASCIIClientProvider(cfg))
		}
	}
	t.Cleanup(func() { closeQuietly(cli) })
	d := newDearth(t)
	call := func(what string, ok bool) {
		a := uint16(t.Intn(90))
		r := await(t, start(func() (any, error) { return cli.ReadHoldingRegistersBytes(1, a, 1) }), 3*to, what)
		t.Sub(1)
		if !ok {
			if r.err == nil {
				t.Failf("%s: succeeded without a connection", what)
			}
			return
		}
		if r.err != nil {
			if isTimeout(r.err) || errors.Is(r.err, serial.ErrTimeout) {
				t.FailTimeoutf("%s: %v", what, r.err)
			}
			t.Failf("%s: %v", what, r.err)
		}
		want := answerLife([]byte{3, byte(a >> 8), byte(a), 0, 1})[2:]
		if b, _ := r.val.([]byte); string(b) != string(want) {
			t.Failf("%s: %s, expected %s", what, hx(b), hx(want))
		}
	}
	t.Class("client " + kindName[kind])
	n := t.Range(1, 5)
	for i := 0; i < n; i++ {
		up := t.Bool()
		if up {
			call("call before", true)
		} else {
			_ = cli.Close()
		}
		t.Note("%s client, connected %v, no descriptors", kindName[kind], up)
		d.begin(t)
		for k := t.Range(1, 3); k > 0; k-- {
			switch {
			case up && t.Chance(1, 5):
				_ = cli.Close()
				up = false
			case t.Bool():
				err := await(t, start(func() (any, error) { return nil, cli.Connect() }), 3*to, "Connect without descriptors").err
				if up != (err == nil) {
					t.Failf("without descriptors, connected %v: Connect returned %v", up, err)
				}
			default:
				call(fmt.Sprintf("call without descriptors, connected %v", up), up)
			}
			if cli.IsConnected() != up {
				t.Failf("without descriptors: IsConnected %v, expected %v", cli.IsConnected(), up)
			}
		}
		d.end()
		call("call when there are descriptors again", true)
		if !cli.IsConnected() {
			t.Failf("not connected after a call")
		}
	}
}

func dearthReverse(t *T) {
	sp := modbus.NewTCPServerSpecial()
	u := smallUnit(t, 1)
	sp.AddNodes(u.nd)
	auto := !t.Chance(1, 4)
	sp.SetReconnectInterval(5 * time.Millisecond).EnableAutoReconnect(auto)
	var on, lost atomic.Int32
	sp.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error { on.Add(1); return nil })
	sp.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { lost.Add(1) })
	m := newMaster(t, freshAddr())
	m.up(t)
	if err := sp.AddRemoteServer(m.addr); err != nil {
		t.Failf("AddRemoteServer: %v", err)
	}
	t.Cleanup(func() { _ = sp.Close() })
	d := newDearth(t)
	t.Class(fmt.Sprintf("reverse, auto reconnect %v", auto))
	served := int32(0)
	serve := func() *conn {
		nc := m.next(wait(t, promptly))
		if nc == nil {
			t.FailTimeoutf("there are descriptors again: no connection")
		}
		t.Cleanup(func() { rst(nc) })
		served++
		c := &conn{Conn: nc}
		rq := req{3, u16b(u.m.HoldStart, 1)}
		judge(t, u.m, rq, c.exchange(t, 1, rq))
		return c
	}
	d.begin(t)
	if err := sp.Start(); err != nil {
		t.Failf("Start: %v", err)
	}
	long := genDearth(t)
	if !auto {
		t.Note("reverse server without auto reconnect, started without descriptors")
		eventually(t, promptly, "no descriptors, auto reconnect off: IsClosed", sp.IsClosed)
		d.end()
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
		serve()
	} else {
		t.Note("reverse server, started without descriptors for %v", long)
		time.Sleep(long)
		if sp.IsConnected() || sp.IsClosed() || on.Load() != 0 {
			t.Failf("no descriptors: connected %v, closed %v, %d connect callbacks", sp.IsConnected(), sp.IsClosed(), on.Load())
		}
		d.end()
		c := serve()
		for k := t.Intn(3); k > 0; k-- { // and a loss within such a phase
			eventually(t, promptly, "IsConnected", sp.IsConnected)
			long = genDearth(t)
			t.Note("connection lost, no descriptors for %v", long)
			d.begin(t)
			for i := t.Intn(3); i > 0; i-- {
				rq := genRequest(t, u.m)
				judge(t, u.m, rq, c.exchange(t, 1, rq))
			}
			rst(c.Conn)
			eventually(t, promptly, "lost callback", func() bool { return lost.Load() == served })
			time.Sleep(long)
			if sp.IsConnected() || sp.IsClosed() {
				t.Failf("no descriptors: connected %v, closed %v", sp.IsConnected(), sp.IsClosed())
			}
			d.end()
			c = serve()
		}
	}
	if on.Load() != served {
		t.Failf("%d connect callbacks for %d connections", on.Load(), served)
	}
	_ = sp.Close()
	eventually(t, promptly, "IsClosed", sp.IsClosed)
	if lost.Load() != served {
		t.Failf("%d lost callbacks for %d connections", lost.Load(), served)
	}
}

// longDearth: how long there were none does not tell how long it takes
// afterwards.
func longDearth(t *T) {
	srv := modbus.NewTCPServer()
	u := smallUnit(t, 1)
	srv.AddNodes(u.nd)
	s := startServer(t, srv)
	d := newDearth(t)
	a := newSocketAhead(t, s.addr)
	long := 22 * time.Second
	if t.Tier == pbt.Thorough {
		long = 45 * time.Second
	}
	t.Note("server, no descriptors for %v", long)
	t.Class("long")
	d.begin(t)
	rq := req{3, u16b(u.m.HoldStart, 1)}
	a.connect(t, model.TCP(0, 1, rq.pdu()))
	time.Sleep(long)
	d.end()
	c := a.conn(t)
	f, err := c.recv(wait(t, 4*time.Second))
	if err != nil {
		if isTimeout(err) {
			t.FailTimeoutf("no descriptors for %v: a client that waited gets no answer within %v afterwards", long, wait(t, 4*time.Second))
		}
		t.Failf("no descriptors for %v: the connection of a client that waited broke: %v", long, err)
	}
	judge(t, u.m, rq, f.pdu)
}

func runDearth(t *T) {
	t.NonTrivial()
	if t.Enum(1<<20) == 0 {
		longDearth(t)
		return
	}
	switch t.Freq(3, 2, 1) {
	case 0:
		dearthServer(t)
	case 1:
		dearthClient(t)
	case 2:
		dearthReverse(t)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C32", Quick: 100, Thorough: 3000, Workers: 1, CaseMax: 120 * time.Second,
		Rule:   "a case is a server, a client or a reverse server through 1-5 phases in which the process can open no further file descriptor (the soft limit is set below the open ones), with connections, requests, losses and closes in them; always non-trivial",
		Run:    runDearth,
		Assume: []string{"one case at a time: the limit is the process's", "after the phase a server may take up to 8 s (its own retry delay is at most 1 s) to accept again, confirmed with three times that"},
	})
}

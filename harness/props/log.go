package props

import (
	"encoding/binary"
	"errors"
	"fmt"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
)

// What the library writes to the standard output (its default log) goes to all
// cases that listen; a case recognises its own frames by a token in them.

type sink struct {
	mu    sync.Mutex
	lines []string
}

func (s *sink) all() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.lines...)
}

var stdout struct {
	once  sync.Once
	saved int
	mu    sync.Mutex
	sinks map[*sink]bool
	err   error
}

// listenStdout replaces the standard output of this process by a pipe.
func listenStdout(t *T) *sink {
	stdout.once.Do(func() {
		r, w, err := os.Pipe()
		if err == nil {
			stdout.saved, err = syscall.Dup(1)
		}
		if err == nil {
			err = syscall.Dup3(int(w.Fd()), 1, 0)
		}
		w.Close()
		if stdout.err = err; err != nil {
			return
		}
		stdout.sinks = map[*sink]bool{}
		go func() {
			var rest []byte
			b := make([]byte, 1<<16)
			for {
				n, err := r.Read(b)
				if err != nil {
					return
				}
				rest = append(rest, b[:n]...)
				var ls []string
				for {
					i := strings.IndexByte(string(rest), '\n')
					if i < 0 {
						break
					}
					ls = append(ls, string(rest[:i]))
					rest = append([]byte(nil), rest[i+1:]...)
				}
				stdout.mu.Lock()
				for s := range stdout.sinks {
					s.mu.Lock()
					s.lines = append(s.lines, ls...)
					s.mu.Unlock()
				}
				stdout.mu.Unlock()
			}
		}()
	})
	if stdout.err != nil {
		t.Envf("standard output: %v", stdout.err)
	}
	s := &sink{}
	stdout.mu.Lock()
	stdout.sinks[s] = true
	stdout.mu.Unlock()
	t.Cleanup(func() {
		stdout.mu.Lock()
		delete(stdout.sinks, s)
		stdout.mu.Unlock()
	})
	return s
}

// ReleaseStdout gives the process its standard output back.
func ReleaseStdout() {
	if stdout.sinks != nil {
		_ = syscall.Dup3(stdout.saved, 1, 0)
	}
}

var tokenCtr uint64

// token is a value no other case of any process logs.
func token() []byte {
	return binary.BigEndian.AppendUint64(nil, 0xA5<<56|uint64(os.Getpid())<<32|atomic.AddUint64(&tokenCtr, 1)*0x10001&0xffffffff)
}

// mentions counts the lines which contain the bytes in hex, however separated.
func mentions(lines []string, b []byte) int {
	want := fmt.Sprintf("%x", b)
	n := 0
	for _, l := range lines {
		l = strings.Map(func(r rune) rune {
			switch r {
			case ' ', ',', ':', '-':
				return -1
			}
			return r
		}, strings.ToLower(l))
		if strings.Contains(l, want) {
			n++
		}
	}
	return n
}

type logged struct {
	what string
	tok  []byte
	on   bool
	n    int // lines, if on
}

// runDefaultLog: what a client or server writes to the standard output, its log
// being switched on and off, also while it has connections.
func runDefaultLog(t *T) {
	out := listenStdout(t)
	var seen []logged
	on := false
	ever := false
	needed := func(what string, tok []byte, frames ...[]byte) {
		seen = append(seen, logged{what: what, tok: tok, on: on})
		if !on {
			return
		}
		for _, f := range frames {
			end := time.Now().Add(wait(t, 5*time.Second))
			for !reports(out.all(), f) {
				if time.Now().After(end) {
					t.FailTimeoutf("%s: logging is on, but frame %s is not reported on the standard output", what, hx(f))
				}
				time.Sleep(200 * time.Microsecond)
			}
		}
	}
	var setMode func(bool)
	var step func(i int)
	end := func() {}
	var addrs []string // of the server or its remote end, which no message mentions if the log was never on
	k := t.Freq(4, 2, 3)
	switch k {
	case 0, 1: // the servers
		u := smallUnit(t, byte(t.Range(1, 247)))
		echo := func(_ *modbus.NodeRegister, data []byte) ([]byte, error) {
			return append([]byte{}, data...), nil
		}
		boom := func(_ *modbus.NodeRegister, data []byte) ([]byte, error) {
			if len(data) == 8 {
				panic(fmt.Sprintf("boom%x", data))
			}
			return nil, errors.New("length")
		}
		var conns []*conn
		exchange := func(c *conn) {
			tok := token()
			r := req{fc: 0x42, data: append(t.Bytes(t.OneOf(0, 1, 20)), tok...)}
			pdu := c.exchange(t, u.id, r)
			t.Sub(1)
			needed(fmt.Sprintf("request %s to the server", hx(r.pdu())), tok, model.TCP(c.tid, u.id, r.pdu()), model.TCP(c.tid, u.id, pdu))
		}
		panics := func(c *conn) {
			tok := token()
			c.tid++
			if _, err := c.Write(model.TCP(c.tid, u.id, append([]byte{0x43}, tok...))); err != nil {
				t.Failf("send: %v", err)
			}
			exchange(c) // the connection has survived, the panic is in the past
			seen = append(seen, logged{what: "panic of a handler", tok: tok, on: on})
			if on {
				eventually(t, 5*time.Second, "logging is on, but the panic of a handler is not reported on the standard output", func() bool {
					return strings.Contains(strings.Join(out.all(), "\n"), fmt.Sprintf("boom%x", tok))
				})
			}
		}
		var dialNew func()
		if k == 0 {
			srv := modbus.NewTCPServer()
			srv.AddNodes(u.nd)
			srv.RegisterFunctionHandler(0x42, echo)
			srv.RegisterFunctionHandler(0x43, boom)
			setMode = srv.LogMode
			var s *server
			run := func() {
				s = startServer(t, srv)
			}
			dialNew = func() {
				if s == nil {
					run()
				}
				c := dial(t, s.addr)
				c.tid = uint16(len(conns) * 500)
				conns = append(conns, c)
				addrs = append(addrs, s.addr)
			}
			end = func() {
				if s != nil {
					s.stop()
				}
			}
			t.Class("server, standard output")
		} else {
			sp := modbus.NewTCPServerSpecial()
			sp.AddNodes(u.nd)
			sp.RegisterFunctionHandler(0x42, echo)
			sp.RegisterFunctionHandler(0x43, boom)
			sp.SetReconnectInterval(time.Millisecond)
			m := newMaster(t, freshAddr())
			m.up(t)
			if err := sp.AddRemoteServer(m.addr); err != nil {
				t.Failf("AddRemoteServer: %v", err)
			}
			setMode = sp.LogMode
			started := false
			dialNew = func() {
				if !started {
					if err := sp.Start(); err != nil {
						t.Failf("Start: %v", err)
					}
					t.Cleanup(func() { closeQuietly(sp) })
					started = true
				} else {
					rst(conns[0].Conn)
				}
				c := m.next(wait(t, 10*time.Second))
				if c == nil {
					t.FailTimeoutf("the reverse-connecting server does not connect")
				}
				t.Cleanup(func() { rst(c) })
				conns = []*conn{{Conn: c}}
				addrs = append(addrs, m.addr)
				exchange(conns[0])
			}
			end = func() { closeQuietly(sp) }
			t.Class("reverse-connecting server, standard output")
		}
		step = func(i int) {
			switch {
			case len(conns) == 0 || len(conns) < 4 && t.Chance(1, 4):
				dialNew()
				t.Note("new connection")
			case t.Chance(1, 6):
				panics(conns[t.Intn(len(conns))])
				t.Note("panic")
			default:
				n := t.Intn(len(conns))
				exchange(conns[n])
				t.Note("request on %d", n)
			}
		}
	case 2: // a client
		kind := genKind(t, 8, 1, 3)
		l := newLink(t, kind, linkOpt{})
		viaClient := t.Bool()
		setMode = func(b bool) {
			if viaClient {
				l.cli.LogMode(b)
			} else {
				l.prov.LogMode(b)
			}
		}
		t.Class(kindName[kind] + ", standard output")
		step = func(i int) {
			unit := genUnit(t)
			out, in := token(), token()
			w := u16s(out)
			ch := start(func() (any, error) {
				v, err := l.cli.ReadWriteMultipleRegisters(unit, 1, 4, 2, 4, append([]byte{}, out...))
				return v, err
			})
			pdu := append([]byte{23, 0, 1, 0, 4, 0, 2, 0, 4, 8}, out...)
			tid := l.request(t, unit, pdu)
			rsp := frameADU(kind, tid, unit, append([]byte{23, 8}, in...))
			l.send(t, rsp, nil, 0)
			r := await(t, ch, callBudget, "ReadWriteMultipleRegisters")
			if r.err != nil {
				if isTimeout(r.err) {
					t.FailTimeoutf("ReadWriteMultipleRegisters: %v", r.err)
				}
				t.Failf("ReadWriteMultipleRegisters: %v", r.err)
			}
			t.Sub(1)
			if v, ok := r.val.([]uint16); !ok || valText(v) != valText(u16s(in)) {
				t.Failf("ReadWriteMultipleRegisters returned %s, answered %s (sent %s)", valText(r.val), hx(in), valText(w))
			}
			t.Note("call")
			needed(kindName[kind]+" request", out, frameADU(kind, tid, unit, pdu))
			needed(kindName[kind]+" response", in, rsp)
		}
	}
	t.NonTrivial()
	never := t.Chance(1, 4)
	t.Repeat(2, 14, func(i int) {
		if !never && t.Chance(1, 3) {
			on = t.Freq(1, 2) == 1
			setMode(on)
			ever = ever || on
			t.Note("LogMode(%v)", on)
		}
		step(i)
	})
	end()
	time.Sleep(time.Millisecond)
	lines := out.all()
	for _, s := range seen {
		if !s.on && (mentions(lines, s.tok) > 0 || mentions(lines, []byte(fmt.Sprintf("%x", s.tok))) > 0 || strings.Contains(strings.Join(lines, "\n"), fmt.Sprintf("boom%x", s.tok))) {
			t.Failf("%s: logging was off, but it is reported on the standard output", s.what)
		}
	}
	if !ever {
		for _, a := range addrs {
			for _, l := range lines {
				if strings.Contains(l, a) {
					t.Failf("logging was never on, but the standard output says %q", l)
				}
			}
		}
	}
}

// runSwitchConcurrently: the log is switched while requests run.
func runSwitchConcurrently(t *T) {
	var setMode func(bool)
	var calls func() error
	t.NonTrivial()
	n := t.Range(3, 30)
	if t.Bool() {
		kind := genKind(t, 8, 1, 2)
		rec := &recorder{}
		l := newLink(t, kind, linkOpt{popts: []modbus.ClientProviderOption{modbus.WithLogProvider(rec)}})
		setMode = l.prov.LogMode
		if kind == RTU {
			n = min(n, 4)
		}
		t.Class(kindName[kind] + ": switched while calls run")
		calls = func() error {
			for i := 0; i < n; i++ {
				tok := token()
				ch := start(func() (any, error) { return l.cli.ReadHoldingRegistersBytes(1, 5, 4) })
				tid := l.request(t, 1, []byte{3, 0, 5, 0, 4})
				l.send(t, frameADU(kind, tid, 1, append([]byte{3, 8}, tok...)), nil, 0)
				r := await(t, ch, callBudget, "ReadHoldingRegistersBytes")
				if isTimeout(r.err) {
					t.FailTimeoutf("ReadHoldingRegistersBytes while the log is switched: %v", r.err)
				}
				if b, _ := r.val.([]byte); r.err != nil || string(b) != string(tok) {
					t.Failf("ReadHoldingRegistersBytes while the log is switched: %s, %v; answered %s", valText(r.val), r.err, hx(tok))
				}
			}
			return nil
		}
	} else {
		listenStdout(t) // swallows it
		srv := modbus.NewTCPServer()
		u := smallUnit(t, 1)
		srv.AddNodes(u.nd)
		s := startServer(t, srv)
		setMode = srv.LogMode
		t.Class("server: switched while requests run")
		calls = func() error {
			var c *conn
			for i := 0; i < n; i++ {
				if c == nil || i%5 == 4 {
					c = dial(t, s.addr)
				}
				r := genRequest(t, u.m)
				judge(t, u.m, r, c.exchange(t, 1, r))
			}
			return nil
		}
	}
	t.Note("%d requests while the log is switched", n)
	stop := make(chan struct{})
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for i := 0; ; i++ {
			select {
			case <-stop:
				return
			default:
			}
			setMode(i%2 == 0)
			time.Sleep(20 * time.Microsecond)
		}
	}()
	defer wg.Wait()
	defer close(stop)
	_ = calls()
	t.Sub(n)
}

func u16s(b []byte) (w []uint16) {
	for i := 0; i+1 < len(b); i += 2 {
		w = append(w, uint16(be(b, i)))
	}
	return
}

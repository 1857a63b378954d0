package props

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"

	"github.com/goburrow/serial"
	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
)

// Transports.
const (
	TCP = iota
	RTU
	ASCII
)

var kindName = []string{"TCP", "RTU", "ASCII"}

// endpoint is the slave side of a byte stream.
type endpoint interface {
	io.ReadWriter
	SetReadDeadline(time.Time) error
	SetWriteDeadline(time.Time) error
}

// link is a client provider of the library connected to a slave the test plays.
type link struct {
	kind int
	prov modbus.ClientProvider
	cli  modbus.Client

	ln   *net.TCPListener // TCP
	sc   net.Conn         // TCP: the accepted connection
	m    *os.File         // serial: the pty master
	path string

	got     []byte // bytes read from the client and not consumed yet
	lastTid int
}

type linkOpt struct {
	timeout time.Duration // client read timeout
	opts    []modbus.Option
	popts   []modbus.ClientProviderOption
	noDial  bool // do not connect
}

func openPty(t *T) (*os.File, string) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY|syscall.O_NONBLOCK, 0)
	if err != nil {
		t.Envf("ptmx: %v", err)
	}
	rc, err := m.SyscallConn()
	if err != nil {
		t.Envf("ptmx: %v", err)
	}
	var n uint32
	var z int32
	var e1, e2 syscall.Errno
	tooHigh := false
	_ = rc.Control(func(fd uintptr) {
		tooHigh = fd > 900
		_, _, e1 = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n)))
		_, _, e2 = syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&z)))
	})
	if tooHigh { // the serial package waits by select, which ends at 1023
		m.Close()
		t.Envf("too many open files for serial lines")
	}
	if e1 != 0 || e2 != 0 {
		m.Close()
		t.Envf("pty: %v %v", e1, e2)
	}
	return m, fmt.Sprintf("/dev/pts/%d", n)
}

func listenLoop(t *T) *net.TCPListener {
	ln, err := net.Listen("tcp", freshAddr())
	if err != nil {
		t.Envf("listen: %v", err)
	}
	t.Cleanup(func() { ln.Close() })
	return ln.(*net.TCPListener)
}

// newLink makes a client of the given kind and connects it.
func newLink(t *T, kind int, o linkOpt) *link {
	if o.timeout == 0 {
		o.timeout = 10 * time.Second
	}
	o.timeout = wait(t, o.timeout)
	l := &link{kind: kind, lastTid: -1}
	switch kind {
	case TCP:
		l.ln = listenLoop(t)
		l.prov = modbus.NewTCPClientProvider(l.ln.Addr().String(), append([]modbus.ClientProviderOption{modbus.WithTCPTimeout(o.timeout)}, o.popts...)...)
	default:
		l.m, l.path = openPty(t)
		t.Cleanup(func() { l.m.Close() })
		cfg := modbus.WithSerialConfig(serial.Config{Address: l.path, BaudRate: 115200, DataBits: 8, StopBits: 1, Parity: "N", Timeout: o.timeout})
		po := append([]modbus.ClientProviderOption{cfg}, o.popts...)
		if kind == RTU {
			l.prov = modbus.NewRTUClientProvider(po...)
		} else {
			l.prov = modbus.NewASCIIClientProvider(po...)
		}
	}
	l.cli = modbus.NewClient(l.prov, o.opts...)
	t.Cleanup(func() { closeQuietly(l.cli) })
	if !o.noDial {
		l.connect(t)
	}
	return l
}

// closeQuietly does not wait for ever for a client whose lock is held.
func closeQuietly(c interface{ Close() error }) {
	d := make(chan struct{})
	go func() { _ = c.Close(); close(d) }()
	select {
	case <-d:
	case <-time.After(5 * time.Second):
	}
}

func (l *link) connect(t *T) {
	if err := l.cli.Connect(); err != nil {
		t.Failf("%s Connect: %v", kindName[l.kind], err)
	}
	if l.kind == TCP {
		l.accept(t)
	}
}

// accept takes the client's (new) connection.
func (l *link) accept(t *T) {
	_ = l.ln.SetDeadline(time.Now().Add(wait(t, 5*time.Second)))
	c, err := l.ln.Accept()
	if err != nil {
		t.FailTimeoutf("the client did not connect: %v", err)
	}
	if l.sc != nil {
		rst(l.sc)
	}
	l.sc = c
	l.got = nil
	t.Cleanup(func() { rst(c) })
}

func (l *link) ep() endpoint {
	if l.kind == TCP {
		return l.sc
	}
	return l.m
}

// readN reads exactly n bytes the client sent; less only after budget.
func (l *link) readN(n int, budget time.Duration) ([]byte, error) {
	ep := l.ep()
	_ = ep.SetReadDeadline(time.Now().Add(budget))
	buf := make([]byte, 4096)
	for len(l.got) < n {
		k, err := ep.Read(buf)
		l.got = append(l.got, buf[:k]...)
		if err != nil {
			if errors.Is(err, syscall.EIO) && l.kind != TCP && budget > 0 { // nobody has the slave side open (yet)
				time.Sleep(time.Millisecond)
				budget -= time.Millisecond
				continue
			}
			return l.got, err
		}
	}
	b := append([]byte(nil), l.got[:n]...)
	l.got = append([]byte(nil), l.got[n:]...)
	return b, nil
}

// pending returns everything the client has sent and nobody consumed.
func (l *link) pending() []byte {
	ep := l.ep()
	buf := make([]byte, 4096)
	for {
		_ = ep.SetReadDeadline(time.Now().Add(2 * time.Millisecond))
		k, err := ep.Read(buf)
		l.got = append(l.got, buf[:k]...)
		if err != nil || k == 0 {
			break
		}
	}
	b := l.got
	l.got = nil
	return b
}

// frameReq is the reference encoding of a request (tid only for TCP).
func frameADU(kind int, tid uint16, unit byte, pdu []byte) []byte {
	switch kind {
	case TCP:
		return model.TCP(tid, unit, pdu)
	case RTU:
		return model.RTU(unit, pdu)
	}
	return model.ASCII(unit, pdu)
}

// request reads one request of the client and demands that it is exactly the
// reference frame for (unit, pdu). It returns the transaction id.
func (l *link) request(t *T, unit byte, pdu []byte) uint16 {
	want := frameADU(l.kind, 0, unit, pdu)
	got, err := l.readN(len(want), wait(t, 6*time.Second))
	if err != nil {
		t.FailTimeoutf("%s: request unit=%d pdu=%s: only %d of %d bytes arrived: %s (%v)", kindName[l.kind], unit, hx(pdu), len(got), len(want), hx(got), err)
	}
	tid := uint16(0)
	if l.kind == TCP {
		tid = uint16(be(got, 0))
		want = frameADU(TCP, tid, unit, pdu)
		if int(tid) == l.lastTid {
			t.Failf("TCP: transaction id %d used for two requests in a row", tid)
		}
		l.lastTid = int(tid)
	}
	if !bytes.Equal(got, want) {
		t.Failf("%s: request unit=%d pdu=%s on the wire: %s, expected %s", kindName[l.kind], unit, hx(pdu), hx(got), hx(want))
	}
	if len(l.got) > 0 {
		t.Failf("%s: surplus bytes after the request unit=%d pdu=%s: %s", kindName[l.kind], unit, hx(pdu), hx(l.got))
	}
	return tid
}

// send writes bytes to the client, cut into the given chunk lengths (rest in one).
func (l *link) send(t *T, b []byte, chunks []int, pause time.Duration) {
	ep := l.ep()
	_ = ep.SetWriteDeadline(time.Now().Add(wait(t, 5*time.Second)))
	for i := 0; len(b) > 0; i++ {
		n := len(b)
		if i < len(chunks) && chunks[i] < n {
			n = chunks[i]
		}
		if n == 0 {
			n = 1
		}
		if _, err := ep.Write(b[:n]); err != nil {
			return // the client is gone: its result tells
		}
		b = b[n:]
		if len(b) > 0 && pause > 0 {
			time.Sleep(pause)
		}
	}
}

// sendCut sends a whole response, now and then in pieces.
func (l *link) sendCut(t *T, b []byte) {
	var chunks []int
	if t.Chance(1, 6) {
		for i := t.Range(1, 3); i > 0; i-- {
			chunks = append(chunks, t.OneOf(1, 4, 7, 8, 9, 64, t.Range(1, len(b))))
		}
	}
	l.send(t, b, chunks, 300*time.Microsecond)
}

// sendResp sends a response; a right one in pieces, now and then.
func (l *link) sendResp(t *T, b []byte, what string) {
	if what == "valid" || what == "exception" {
		l.sendCut(t, b)
	} else {
		l.send(t, b, nil, 0)
	}
}

// result of a client call.
type result struct {
	val any // []byte, []uint16 or nil
	err error
	pan any
}

// start runs a client call in the background.
func start(f func() (any, error)) chan result {
	ch := make(chan result, 1)
	go func() {
		var r result
		defer func() {
			if p := recover(); p != nil {
				r = result{pan: p}
			}
			ch <- r
		}()
		r.val, r.err = f()
	}()
	return ch
}

// await takes the result; a call that does not return within d is a failure.
func await(t *T, ch chan result, d time.Duration, what string) result {
	tm := time.NewTimer(wait(t, d))
	defer tm.Stop()
	select {
	case r := <-ch:
		if r.pan != nil {
			t.Failf("%s: panic: %v", what, r.pan)
		}
		return r
	case <-tm.C:
		if never(ch) {
			t.Failf("%s: the call did not return within %v and %d s more", what, wait(t, d), patience)
		}
		t.FailTimeoutf("%s: the call did not return within %v", what, wait(t, d))
	}
	panic("unreachable")
}

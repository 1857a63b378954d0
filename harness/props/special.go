package props

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	modbus "github.com/things-go/go-modbus"

	"verif/harness/model"
	"verif/harness/pbt"
)

// master is the played remote end a reverse connecting server dials.
type master struct {
	addr  string
	tls   *tls.Config
	mu    sync.Mutex
	ln    net.Listener
	gone  chan struct{}
	conns chan net.Conn
	n     atomic.Int32
}

func newMaster(t *T, addr string) *master {
	m := &master{addr: addr, conns: make(chan net.Conn, 1000)}
	t.Cleanup(func() {
		m.down()
		for {
			select {
			case c := <-m.conns:
				rst(c)
				continue
			default:
			}
			break
		}
	})
	return m
}

func (m *master) up(t *T) {
	ln, err := net.Listen("tcp", m.addr)
	if err != nil {
		t.Envf("listen %s: %v", m.addr, err)
	}
	m.addr = ln.Addr().String()
	gone := make(chan struct{})
	m.mu.Lock()
	m.ln, m.gone = ln, gone
	m.mu.Unlock()
	go func() {
		defer close(gone)
		for {
			c, err := ln.Accept()
			if errors.Is(err, syscall.EMFILE) { // C32
				time.Sleep(time.Millisecond)
				continue
			}
			if err != nil {
				return
			}
			m.n.Add(1)
			m.conns <- c
		}
	}()
}

func (m *master) down() {
	m.mu.Lock()
	ln, gone := m.ln, m.gone
	m.ln = nil
	m.mu.Unlock()
	if ln != nil {
		ln.Close()
		<-gone
	}
}

func (m *master) isUp() bool { m.mu.Lock(); defer m.mu.Unlock(); return m.ln != nil }

// next takes the next connection, nil if there is none within d.
func (m *master) next(d time.Duration) net.Conn {
	tm := time.NewTimer(d)
	defer tm.Stop()
	select {
	case c := <-m.conns:
		return c
	case <-tm.C:
		return nil
	}
}

// eventually polls a condition.
func eventually(t *T, d time.Duration, what string, f func() bool) {
	end := time.Now().Add(wait(t, d))
	for !f() {
		if time.Now().After(end) {
			t.FailTimeoutf("%s: not within %v", what, wait(t, d))
		}
		time.Sleep(500 * time.Microsecond)
	}
}

var hello = model.TCP(0xfffe, 0xee, []byte{0x55})
var beat = model.TCP(0xffff, 0xee, []byte{0x66})

// mconn is a connection of the master: frames of the keep alive handler are
// taken out of the stream and counted.
type mconn struct {
	conn
	beats int
}

func (c *mconn) ask(t *T, unit byte, r req) []byte {
	c.tid++
	_ = c.SetWriteDeadline(time.Now().Add(wait(t, replyBudget)))
	if _, err := c.Write(model.TCP(c.tid, unit, r.pdu())); err != nil {
		t.Failf("request %s: the connection broke on send: %v", hx(r.pdu()), err)
	}
	for {
		f, err := c.recv(wait(t, replyBudget))
		if err != nil {
			if isTimeout(err) {
				if mute(c) {
					t.Failf("request %s: no reply within %v and %d s more", hx(r.pdu()), wait(t, replyBudget), patience)
				}
				t.FailTimeoutf("request %s: no reply", hx(r.pdu()))
			}
			t.Failf("request %s: no reply: %v", hx(r.pdu()), err)
		}
		if bytes.Equal(f.raw, beat) {
			c.beats++
			continue
		}
		if f.tid != c.tid || f.pid != 0 || f.unit != unit {
			t.Failf("request %s (tid %d, unit %d): reply %s", hx(r.pdu()), c.tid, unit, hx(f.raw))
		}
		return f.pdu
	}
}

func runSpecial(t *T) {
	interval := time.Duration(t.OneOf(20, 20, 1)) * time.Millisecond
	sp := modbus.NewTCPServerSpecial()
	u := smallUnit(t, byte(t.Range(1, 247)))
	sp.AddNodes(u.nd)
	m := newMaster(t, freshAddr())
	auto := t.Freq(3, 1) == 0
	keep := t.Bool()
	useHello := t.Bool()
	var onConn, onLost, beats, refuse, refusedConn, lostEarly, beatsLost atomic.Int32
	slowLost := keep && t.Chance(1, 3)
	var handlers []func()
	handlers = append(handlers,
		func() { sp.SetReconnectInterval(interval) },
		func() { sp.SetConnectTimeout(wait(t, 10*time.Second)) },
		func() { sp.EnableAutoReconnect(auto) },
		func() {
			sp.SetOnConnectHandler(func(c *modbus.TCPServerSpecial) error {
				onConn.Add(1)
				if refuse.Add(-1) >= 0 {
					if c.IsConnected() {
						refusedConn.Add(1)
					}
					return errors.New("not now")
				}
				if useHello {
					_, _ = c.UnderlyingConn().Write(hello)
				}
				return nil
			})
		},
		func() {
			sp.SetConnectionLostHandler(func(c *modbus.TCPServerSpecial) {
				if c.IsConnected() {
					lostEarly.Add(1)
				}
				if slowLost {
					b := beats.Load()
					time.Sleep(80 * time.Millisecond)
					if n := beats.Load() - b; n > 2 {
						beatsLost.Store(n)
					}
				}
				onLost.Add(1)
			})
		},
		func() {
			if keep {
				sp.SetKeepAlive(true, 15*time.Millisecond, func(c *modbus.TCPServerSpecial) {
					beats.Add(1)
					_, _ = c.UnderlyingConn().Write(beat)
				})
			}
		},
		func() { sp.SetOnConnectHandler(nil); sp.SetConnectionLostHandler(nil) }, // ignored
	)
	first := t.Intn(len(handlers))
	for i := range handlers {
		handlers[(first+i)%len(handlers)]()
	}
	refuse.Store(-1 << 30)
	t.Note("auto reconnect %v every %v, keep alive %v, hello %v", auto, interval, keep, useHello)
	if t.Bool() {
		if err := sp.Start(); err == nil {
			t.Failf("Start without a remote server returned no error")
		}
		if sp.IsConnected() || !sp.IsClosed() {
			t.Failf("a server that did not start is connected or not closed")
		}
	}
	if t.Chance(1, 4) {
		if err := sp.Close(); err != nil {
			t.Failf("Close before the start: %v", err)
		}
	}
	if err := sp.AddRemoteServer(m.addr); err != nil {
		t.Failf("AddRemoteServer(%s): %v", m.addr, err)
	}
	t.Cleanup(func() { _ = sp.Close() })
	wantConn, wantLost := int32(0), int32(0)
	counts := func(when string) {
		eventually(t, promptly, fmt.Sprintf("%s: %d connect and %d lost callbacks (have %d, %d)", when, wantConn, wantLost, onConn.Load(), onLost.Load()), func() bool {
			return onConn.Load() >= wantConn && onLost.Load() >= wantLost
		})
		if refusedConn.Load() > 0 {
			t.Failf("%s: a connection that the connect handler is about to refuse already counts as connected", when)
		}
		if lostEarly.Load() > 0 {
			t.Failf("%s: the lost callback ran while the server still counted as connected", when)
		}
		if n := beatsLost.Load(); n > 0 {
			t.Failf("%s: %d keep alive calls within 80 ms after the connection was lost, while the lost callback ran", when, n)
		}
		if c, l := onConn.Load(), onLost.Load(); c != wantConn || l != wantLost {
			t.Failf("%s: %d connect callbacks, %d lost callbacks, expected %d and %d", when, c, l, wantConn, wantLost)
		}
	}
	stopped := func(when string) {
		eventually(t, promptly, when+": IsClosed", sp.IsClosed)
		if sp.IsConnected() {
			t.Failf("%s: connected and closed", when)
		}
		b := beats.Load()
		if c := m.next(150 * time.Millisecond); c != nil {
			t.Failf("%s: stopped, but it connects again", when)
		}
		if n := beats.Load(); n > b+1 {
			t.Failf("%s: stopped, but %d more keep alive calls", when, n-b)
		}
		counts(when)
	}
	start := func() {
		k := 1
		if auto { // otherwise the first may be over before the second
			k += t.Freq(3, 1, 1)
		}
		t.Note("start x%d", k)
		var wg sync.WaitGroup
		for i := 0; i < k; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if err := sp.Start(); err != nil {
					panic("start")
				}
			}()
		}
		wg.Wait()
	}
	lives := t.Range(1, 2)
	for life := 0; life < lives; life++ {
		if t.Chance(1, 4) {
			// Close right behind Start: it must not come up, or go down again
			m.up(t)
			start()
			if t.Bool() {
				time.Sleep(time.Duration(t.Intn(800)) * time.Microsecond)
			}
			t.Note("close at once")
			t.Class("close at once")
			_ = sp.Close()
			eventually(t, promptly, "Close right after Start: IsClosed", sp.IsClosed)
			// the accept loop may be behind
			for {
				c := m.next(60 * time.Millisecond)
				if c == nil {
					break
				}
				if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
					t.FailTimeoutf("Close right after Start: the connection stays open")
				}
				rst(c)
			}
			if c, l := onConn.Load()-wantConn, onLost.Load()-wantLost; c != l {
				t.Failf("Close right after Start: %d connect callbacks, %d lost callbacks", c, l)
			}
			wantConn, wantLost = onConn.Load(), onLost.Load()
			m.down()
			stopped("after Close right behind Start")
		}
		up := t.Bool()
		if up {
			m.up(t)
		}
		nRefuse := int32(0)
		if t.Chance(1, 3) {
			nRefuse = int32(t.Range(1, 3))
			if interval < 5*time.Millisecond && auto {
				nRefuse = int32(t.Range(1, 20))
			}
		}
		refuse.Store(nRefuse)
		start()
		if !up {
			if auto {
				d := time.Duration(t.Range(1, 120)) * time.Millisecond
				if interval < 5*time.Millisecond && t.Bool() { // some hundred attempts
					d *= 4
				}
				time.Sleep(d)
				if sp.IsConnected() || sp.IsClosed() {
					t.Failf("nobody listens: connected %v, closed %v", sp.IsConnected(), sp.IsClosed())
				}
				if t.Chance(1, 4) { // given up before
					t.Note("close after %v, nobody listening", d)
					t.Class("close while nobody listens")
					_ = sp.Close()
					eventually(t, promptly, "Close while nobody listens: IsClosed", sp.IsClosed)
					m.up(t)
					stopped("Close while nobody listened")
					start()
				}
				t.Note("master comes up after %v", d)
				t.Class("late master")
				if !m.isUp() {
					m.up(t)
				}
			} else {
				t.Note("nobody listens")
				t.Class("no master, no reconnect")
				eventually(t, promptly, "no master, auto reconnect off: IsClosed", sp.IsClosed)
				m.up(t)
				stopped("no master, auto reconnect off")
				start()
			}
		}
		dead := false
		for nRefuse > 0 {
			c := m.next(wait(t, promptly))
			if c == nil {
				t.FailTimeoutf("no connection (%d more to be refused by the handler)", nRefuse)
			}
			wantConn++
			nRefuse--
			t.Note("connection refused by the handler")
			t.Class("refused")
			_, _ = c.Write(model.TCP(1, u.id, u16bPDU(3, u.m.HoldStart, 1)))
			n, err := drain(c, wait(t, promptly))
			if isTimeout(err) {
				t.FailTimeoutf("a connection refused by the connect handler stays open")
			}
			if n > 0 {
				t.Failf("a connection refused by the connect handler was served (%d bytes)", n)
			}
			rst(c)
			if !auto {
				stopped("connection refused by the handler, auto reconnect off")
				dead = true
				break
			}
		}
		if dead {
			refuse.Store(-1 << 30)
			start()
		}
		losses := t.Range(0, 2)
		for k := 0; ; k++ {
			nc := m.next(wait(t, promptly))
			if nc == nil {
				t.FailTimeoutf("no connection (life %d, %d losses before)", life, k)
			}
			c := &mconn{conn: conn{Conn: nc}}
			t.Cleanup(func() { rst(nc) })
			wantConn++
			if useHello {
				f, err := c.recv(wait(t, promptly))
				if err != nil || !bytes.Equal(f.raw, hello) {
					t.FailTimeoutf("expected the hello of the connect handler, got %s, %v", hx(f.raw), err)
				}
			}
			eventually(t, promptly, "IsConnected", sp.IsConnected)
			if sp.IsClosed() {
				t.Failf("connected and closed")
			}
			counts("connected")
			if t.Chance(1, 4) {
				if err := sp.Start(); err != nil {
					t.Failf("Start while running: %v", err)
				}
			}
			for i := t.Intn(6); i > 0; i-- {
				r, ok := genValid(t, u.m, validFC[t.Intn(len(validFC))])
				if t.Chance(1, 4) {
					r, ok = genRequest(t, u.m), true
				}
				if ok {
					judge(t, u.m, r, c.ask(t, u.id, r))
				}
			}
			if d := diffOf(t, u); d != "" {
				t.Failf("%s", d)
			}
			t.Sub(1)
			if keep && t.Bool() {
				n := beats.Load()
				eventually(t, promptly, "two keep alive calls at 15ms", func() bool { return beats.Load() >= n+2 })
				t.Class("keep alive")
			}
			if c2 := m.next(time.Duration(t.Intn(3)) * 10 * time.Millisecond); c2 != nil {
				t.Failf("a second connection while one is up")
			}
			if k >= losses {
				// closed by the application
				t.Note("close")
				if t.Bool() { // within a frame
					_, _ = c.Write(model.TCP(1, u.id, u16bPDU(3, 0, 1))[:5])
				}
				within(t, promptly, "Close", func() { _ = sp.Close() })
				if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
					t.FailTimeoutf("the connection stays open after Close")
				}
				wantLost++
				stopped("after Close")
				if life == lives-1 && t.Bool() {
					_ = sp.Close()
				}
				break
			}
			how := t.Intn(4)
			t.Note("connection lost (%d)", how)
			t.Class("lost")
			// a downtime of the master, too
			outage := t.Chance(1, 3)
			if outage {
				m.down()
			}
			switch how {
			case 0:
				nc.Close()
			case 1:
				rst(nc)
			case 2:
				_, _ = nc.Write(model.TCP(1, u.id, u16bPDU(3, 0, 1))[:t.Range(1, 11)])
				rst(nc)
			case 3:
				_, _ = nc.Write([]byte{0, 1, 0, 0, 0xff, 0xff, 1, 3})
			}
			wantLost++
			eventually(t, promptly, "lost callback", func() bool { return onLost.Load() >= wantLost })
			if how == 3 {
				if _, err := drain(nc, wait(t, promptly)); isTimeout(err) {
					t.FailTimeoutf("the connection is given up but stays open")
				}
				nc.Close()
			}
			if auto {
				eventually(t, promptly, "not connected after the loss", func() bool { return !sp.IsConnected() || onConn.Load() > wantConn })
			}
			if outage {
				time.Sleep(time.Duration(t.Range(0, 700)) * time.Millisecond)
				if auto && t.Chance(1, 4) {
					t.Note("close during the outage")
					t.Class("close during an outage")
					_ = sp.Close()
					eventually(t, promptly, "Close during an outage: IsClosed", sp.IsClosed)
					m.up(t)
					stopped("Close during an outage")
					start()
					continue
				}
				m.up(t)
			}
			if !auto {
				stopped("connection lost, auto reconnect off")
				start()
			} else if t.Chance(1, 8) { // closed while waiting to reconnect
				t.Note("close while disconnected")
				t.Class("close while disconnected")
				_ = sp.Close()
				eventually(t, promptly, "Close while disconnected: IsClosed", sp.IsClosed)
				if c := m.next(50 * time.Millisecond); c != nil { // it had connected already
					if _, err := drain(c, wait(t, promptly)); isTimeout(err) {
						t.FailTimeoutf("Close while disconnected: a connection stays open")
					}
					rst(c)
					wantConn, wantLost = onConn.Load(), onLost.Load()
				}
				stopped("Close while disconnected")
				start()
			}
		}
		m.down()
		if c := m.next(0); c != nil {
			t.Failf("surplus connection")
		}
	}
	t.NonTrivial()
}

// ---- C20: addresses and TLS ----

type pki struct {
	pool           *x509.CertPool
	server, client tls.Certificate
	otherPool      *x509.CertPool
}

var thePKI struct {
	sync.Once
	p   pki
	err error
}

func getPKI(t *T) pki {
	thePKI.Do(func() {
		fail := func(err error) bool {
			if err != nil && thePKI.err == nil {
				thePKI.err = err
			}
			return err != nil
		}
		ca := func() (*x509.Certificate, *ecdsa.PrivateKey) {
			k, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if fail(err) {
				return nil, nil
			}
			tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "test ca"}, NotBefore: time.Now().Add(-24 * time.Hour),
				NotAfter: time.Now().Add(48 * time.Hour), IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}
			der, err := x509.CreateCertificate(rand.Reader, tpl, tpl, &k.PublicKey, k)
			if fail(err) {
				return nil, nil
			}
			c, err := x509.ParseCertificate(der)
			fail(err)
			return c, k
		}
		c, k := ca()
		o, _ := ca()
		if thePKI.err != nil {
			return
		}
		leaf := func(n int64) tls.Certificate {
			lk, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
			if fail(err) {
				return tls.Certificate{}
			}
			tpl := &x509.Certificate{SerialNumber: big.NewInt(n), Subject: pkix.Name{CommonName: "leaf"}, NotBefore: time.Now().Add(-24 * time.Hour),
				NotAfter: time.Now().Add(48 * time.Hour), KeyUsage: x509.KeyUsageDigitalSignature,
				ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth},
				IPAddresses: []net.IP{net.ParseIP("127.0.0.1"), net.ParseIP("127.0.0.2"), net.ParseIP("127.8.9.10"), net.IPv6loopback}, DNSNames: []string{"master.test"}}
			der, err := x509.CreateCertificate(rand.Reader, tpl, c, &lk.PublicKey, k)
			if fail(err) {
				return tls.Certificate{}
			}
			return tls.Certificate{Certificate: [][]byte{der}, PrivateKey: lk}
		}
		p := pki{pool: x509.NewCertPool(), otherPool: x509.NewCertPool(), server: leaf(2), client: leaf(3)}
		p.pool.AddCert(c)
		p.otherPool.AddCert(o)
		thePKI.p = p
	})
	if thePKI.err != nil {
		t.Envf("certificates: %v", thePKI.err)
	}
	return thePKI.p
}

var ipv6 struct {
	sync.Once
	ok bool
}

// haveIPv6 tells whether there is an IPv6 loopback.
func haveIPv6() bool {
	ipv6.Do(func() {
		if ln, err := net.Listen("tcp", "[::1]:0"); err == nil {
			ln.Close()
			ipv6.ok = true
		}
	})
	return ipv6.ok
}

var badAddr = []string{"tcp://127.0.0.1:x", "://127.0.0.1:502", "tcp://[::1", "tcp://127.0.0.1:502\x7f", "1tcp://127.0.0.1:502", "tcp://%zz:502", "127.0.0.1:50x"}

func runSpecialAddr(t *T) {
	p := getPKI(t)
	sp := modbus.NewTCPServerSpecial()
	u := smallUnit(t, byte(t.Range(1, 247)))
	sp.AddNodes(u.nd)
	sp.SetReconnectInterval(50 * time.Millisecond).SetConnectTimeout(wait(t, 5*time.Second))
	var onConn, onLost atomic.Int32
	sp.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error { onConn.Add(1); return nil })
	sp.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { onLost.Add(1) })
	t.Cleanup(func() { _ = sp.Close() })
	form := t.Freq(3, 3, 3, 1, 6, 2, 1, 1)
	host := "127.0.0.1"
	if form > 0 && form < 6 {
		host = []string{host, "127.0.0.2", "127.8.9.10", "[::1]"}[t.Freq(5, 1, 1, 3)]
		if host == "[::1]" && !haveIPv6() {
			host = "127.0.0.1"
		}
	}
	m := newMaster(t, host+":0")
	m.up(t)
	_, port, _ := net.SplitHostPort(m.addr)
	// bad addresses are refused and change nothing
	for i := t.Intn(3); i > 0; i-- {
		bad := badAddr[t.Intn(len(badAddr))]
		t.Note("bad %q", bad)
		if err := sp.AddRemoteServer(bad); err == nil {
			t.Failf("AddRemoteServer(%q) returned no error", bad)
		}
		if err := sp.Start(); err == nil {
			t.Failf("Start after a refused address returned no error")
		}
	}
	if t.Chance(1, 3) { // only the last address counts
		dummy := newMaster(t, "127.0.0.1:0")
		dummy.up(t)
		if err := sp.AddRemoteServer("tcp://" + dummy.addr); err != nil {
			t.Failf("AddRemoteServer: %v", err)
		}
		t.Note("another address first")
		defer func() {
			if dummy.n.Load() != 0 {
				t.Failf("the server connected to an address that had been replaced")
			}
		}()
	}
	var scheme string
	switch form {
	case 0:
		scheme = ":" + port
	case 1:
		scheme = host + ":" + port
	case 2:
		scheme = "tcp://" + host + ":" + port
	case 3:
		scheme = "TCP://" + host + ":" + port
	case 4:
		scheme = []string{"ssl", "tls", "tcps"}[t.Intn(3)] + "://" + host + ":" + port
	case 5:
		scheme = []string{"udp", "http", "mqtt", "unix", "https", "tcp4", "ws"}[t.Intn(7)] + "://" + host + ":" + port
	case 6: // the default host
		scheme = "tcp://:" + port
	case 7:
		scheme = []string{"ssl", "tls", "tcps"}[t.Intn(3)] + "://:" + port
	}
	secure := form == 4 || form == 7
	known := form != 5
	masterTLS := secure
	trust := "ok"
	var cfg *tls.Config
	if secure {
		trust = []string{"ok", "no config", "wrong ca", "skip verify", "name", "wrong name", "mutual", "mutual without certificate", "plain master"}[t.Freq(4, 2, 2, 2, 1, 1, 2, 1, 2)]
		cfg = &tls.Config{RootCAs: p.pool}
		switch trust {
		case "no config":
			cfg = nil
		case "wrong ca":
			cfg.RootCAs = p.otherPool
		case "skip verify":
			cfg = &tls.Config{InsecureSkipVerify: true}
		case "name":
			cfg.ServerName = "master.test"
		case "wrong name":
			cfg.ServerName = "somebody.test"
		case "mutual":
			cfg.Certificates = []tls.Certificate{p.client}
		case "plain master":
			masterTLS = false
		}
		if t.Bool() {
			sp.SetTLSConfig(cfg)
		} else {
			sp.TLSConfig = cfg
		}
	} else if t.Chance(1, 3) { // unused with a plain scheme
		sp.SetTLSConfig(&tls.Config{RootCAs: p.pool})
		trust = "unused config"
	}
	if secure && trust == "plain master" {
		sp.SetConnectTimeout(wait(t, 400*time.Millisecond))
	}
	ok := known && (!secure || strings.Contains("ok skip verify name mutual", trust) && trust != "")
	t.Note("%s, %s, expected to work: %v", strings.ReplaceAll(scheme, port, "PORT"), trust, ok)
	t.Class(strings.ReplaceAll(scheme, port, "PORT"))
	if secure {
		t.Class("tls: " + trust)
	}
	t.NonTrivial()
	if err := sp.AddRemoteServer(scheme); err != nil {
		t.Failf("AddRemoteServer(%q): %v", scheme, err)
	}
	for i := t.Intn(3); i > 0; i-- { // refused ones change nothing
		bad := badAddr[t.Intn(len(badAddr))]
		t.Note("then bad %q", bad)
		t.Class("bad address after a good one")
		if err := sp.AddRemoteServer(bad); err == nil {
			t.Failf("AddRemoteServer(%q) returned no error", bad)
		}
	}
	if err := sp.Start(); err != nil {
		t.Failf("Start with %q: %v", scheme, err)
	}
	if !known {
		if c := m.next(120 * time.Millisecond); c != nil {
			t.Failf("%q: the server connected", scheme)
		}
		if sp.IsConnected() || onConn.Load() != 0 {
			t.Failf("%q: connected", scheme)
		}
	} else {
		nc := m.next(wait(t, promptly))
		if nc == nil {
			t.FailTimeoutf("%q: no connection", scheme)
		}
		t.Cleanup(func() { rst(nc) })
		use := nc
		if masterTLS {
			sc := &tls.Config{Certificates: []tls.Certificate{p.server}}
			if strings.HasPrefix(trust, "mutual") {
				sc.ClientAuth, sc.ClientCAs = tls.RequireAndVerifyClientCert, p.pool
			}
			tc := tls.Server(nc, sc)
			_ = tc.SetDeadline(time.Now().Add(wait(t, promptly)))
			err := tc.Handshake()
			if ok && err != nil {
				if isTimeout(err) {
					t.FailTimeoutf("%q: TLS handshake: %v", scheme, err)
				}
				t.Failf("%q (%s): TLS handshake: %v", scheme, trust, err)
			}
			_ = tc.SetDeadline(time.Time{})
			use = tc
		}
		if ok {
			c := &conn{Conn: use}
			eventually(t, promptly, "IsConnected", sp.IsConnected)
			n := t.Range(1, 12)
			for i := 0; i < n; i++ {
				r := genRequest(t, u.m)
				judge(t, u.m, r, c.exchange(t, u.id, r))
			}
			t.Sub(n)
			if d := diffOf(t, u); d != "" {
				t.Failf("%s", d)
			}
			if onConn.Load() != 1 {
				t.Failf("%d connect callbacks for one connection", onConn.Load())
			}
		} else if trust == "mutual without certificate" {
			// with TLS 1.3 the refusal reaches the other side after its handshake
			nc.Close()
			eventually(t, promptly, "loss of the refused connection", func() bool { return !sp.IsConnected() || onConn.Load() > 1 })
		} else {
			// the other side must not talk Modbus over it
			if trust == "plain master" {
				_, _ = nc.Write(model.TCP(1, u.id, u16bPDU(3, u.m.HoldStart, 1)))
			}
			time.Sleep(20 * time.Millisecond)
			if sp.IsConnected() || onConn.Load() != 0 {
				t.Failf("%q (%s): the server counts itself connected", scheme, trust)
			}
			// it keeps trying
			if c := m.next(wait(t, promptly)); c == nil {
				t.FailTimeoutf("%q (%s): no further attempt", scheme, trust)
			} else {
				c.Close()
			}
			if sp.IsConnected() || onConn.Load() != 0 {
				t.Failf("%q (%s): the server counts itself connected", scheme, trust)
			}
		}
		within(t, promptly, "Close", func() { _ = sp.Close() })
		if ok {
			if n, err := drain(use, wait(t, promptly)); isTimeout(err) || n > 0 {
				t.FailTimeoutf("%q: after Close: %d bytes, %v", scheme, n, err)
			}
		}
		rst(nc)
	}
	_ = sp.Close()
	m.down()
	eventually(t, promptly, "IsClosed after Close", sp.IsClosed)
	if ok && (onConn.Load() != 1 || onLost.Load() != 1) {
		t.Failf("%d connect and %d lost callbacks for one connection", onConn.Load(), onLost.Load())
	}
}

// runRestart: closed and started again at once, in every state.
func runRestart(t *T) {
	sp := modbus.NewTCPServerSpecial()
	u := smallUnit(t, byte(t.Range(1, 247)))
	sp.AddNodes(u.nd)
	m := newMaster(t, freshAddr())
	auto := t.Freq(3, 1) == 0
	var onConn, onLost atomic.Int32
	sp.EnableAutoReconnect(auto)
	// one that takes its time is not waited for by Close and Start
	pause := time.Duration(t.OneOf(0, 0, 5, 100)) * time.Millisecond
	sp.SetOnConnectHandler(func(*modbus.TCPServerSpecial) error { onConn.Add(1); return nil })
	sp.SetConnectionLostHandler(func(*modbus.TCPServerSpecial) { time.Sleep(pause); onLost.Add(1) })
	interval := time.Duration(t.OneOf(5, 50, 400)) * time.Millisecond
	if auto && t.Chance(1, 6) {
		interval = time.Hour
	}
	sp.SetReconnectInterval(interval)
	if err := sp.AddRemoteServer(m.addr); err != nil {
		t.Failf("AddRemoteServer(%s): %v", m.addr, err)
	}
	t.Cleanup(func() { _ = sp.Close() })
	t.Note("restarts; auto reconnect %v, interval %v, lost handler takes %v", auto, interval, pause)
	t.Class("started again at once")
	t.NonTrivial()
	begin := func() {
		if err := sp.Start(); err != nil {
			t.Failf("Start: %v", err)
		}
	}
	away := interval == time.Hour || auto && t.Chance(1, 4)
	if away { // the first life finds nobody
		begin()
		time.Sleep(time.Duration(t.OneOf(0, 1, 30)) * time.Millisecond)
		_ = sp.Close()
		t.Note("started, nobody is there, closed")
		if t.Bool() { // also when it would wait for an hour
			eventually(t, promptly, "IsClosed after Close while it waits to connect again", sp.IsClosed)
		}
	}
	m.up(t)
	begin()
	// a connection that serves; those of former lives end
	serving := func(d time.Duration) *mconn {
		end := time.Now().Add(wait(t, d))
		for {
			nc := m.next(time.Until(end))
			if nc == nil {
				if len(m.conns) == 0 && time.Now().After(end) {
					for i := 0; i < patience; i++ {
						if nc = m.next(time.Second); nc != nil {
							t.FailTimeoutf("started again, but connected late")
						}
					}
					t.Failf("started again after Close: no connection within %v and %d s more (closed %v, connected %v)", wait(t, d), patience, sp.IsClosed(), sp.IsConnected())
				}
				continue
			}
			t.Cleanup(func() { rst(nc) })
			c := &mconn{conn: conn{Conn: nc, tid: 7}}
			req := model.TCP(99, u.id, []byte{8, 1}) // an unknown function is answered by an exception
			_, _ = c.Write(req)
			f, err := c.recv(wait(t, replyBudget))
			if err == nil {
				if !bytes.Equal(f.raw, model.TCP(99, u.id, []byte{0x88, 1})) {
					t.Failf("reply %s to %s", hx(f.raw), hx(req))
				}
				return c
			}
			if isTimeout(err) {
				t.FailTimeoutf("started again: a connection neither serves nor ends")
			}
		}
	}
	t.Repeat(1, 6, func(i int) {
		state := t.Intn(5)
		t.Note("close and start in state %d", state)
		switch state {
		case 0: // at once
		case 1:
			nc := m.next(wait(t, promptly))
			if nc == nil {
				t.FailTimeoutf("no connection")
			}
			t.Cleanup(func() { rst(nc) })
		case 2:
			serving(promptly)
		case 3:
			c := serving(promptly)
			rst(c.Conn)
			time.Sleep(time.Duration(t.OneOf(0, 1, 20)) * time.Millisecond)
		case 4: // started twice
			begin()
		}
		n := t.Range(1, 3)
		for ; n > 0; n-- {
			_ = sp.Close()
		}
		begin()
		t.Sub(1)
	})
	c := serving(promptly)
	eventually(t, promptly, "IsConnected after the restarts", func() bool { return sp.IsConnected() && onConn.Load() == onLost.Load()+1 })
	for i := t.Intn(4); i > 0; i-- {
		if r, ok := genValid(t, u.m, validFC[t.Intn(len(validFC))]); ok {
			judge(t, u.m, r, c.ask(t, u.id, r))
		}
	}
	_ = sp.Close()
	eventually(t, promptly, "IsClosed after the restarts", sp.IsClosed)
	if _, err := drain(c.Conn, wait(t, promptly)); isTimeout(err) {
		t.FailTimeoutf("closed, but the connection is open")
	}
	if nc := m.next(30 * time.Millisecond); nc != nil {
		t.Cleanup(func() { rst(nc) })
		if _, err := drain(nc, wait(t, promptly)); isTimeout(err) {
			t.FailTimeoutf("closed, but another connection is open")
		}
	}
	if c, l := onConn.Load(), onLost.Load(); c != l {
		t.Failf("closed: %d connect callbacks, %d lost callbacks", c, l)
	}
	if d := diffOf(t, u); d != "" {
		t.Failf("%s", d)
	}
}

func init() {
	register(&pbt.Property{
		ID: "C19", Quick: 900, Thorough: 9000, Workers: 96, Race: true, CaseMax: 240 * time.Second,
		Rule: "a case is a reverse connecting server (race-detector build) with generated settings (auto reconnect, keep alive, refusals by the connect handler, master late, away or never there), connections served and lost in four ways, closed by the application in every state and started again, also at once and several times in a row; always non-trivial",
		Run: func(t *T) {
			if t.Chance(1, 4) {
				runRestart(t)
			} else {
				runSpecial(t)
			}
		},
		Assume: []string{"time limits are confirmed with three times the budget before a violation is reported",
			"UnderlyingConn from other goroutines than the handlers, is not covered"},
	})
	register(&pbt.Property{
		ID: "C20", Quick: 6000, Thorough: 60000, Workers: 64, CaseMax: 120 * time.Second,
		Rule:   "a case is one remote server address of generated form (port only, host and port, tcp, TLS schemes; IPv4 and IPv6 hosts, unknown schemes, unparsable) with a generated TLS set-up (trusted, untrusted, wrong name, mutual, plain peer), then model-checked requests over the connection; always non-trivial",
		Run:    runSpecialAddr,
		Assume: []string{"host names that need a resolver are not covered (no network)"},
	})
}

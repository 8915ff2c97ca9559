package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
	"github.com/funny-falcon/go-iproto/net/client"
	"github.com/funny-falcon/go-iproto/net/server"
)

var sockN atomic.Int64

// freeAddr gives an address nobody listens at. TCP ports are taken from below the ephemeral range,
// so that a client which dials a closed port could not connect to itself.
func freeAddr(r *rand.Rand, tcp bool) (network, addr string) {
	if !tcp {
		return "unix", fmt.Sprintf("s%d-%d.sock", os.Getpid(), sockN.Add(1))
	}
	for {
		addr = fmt.Sprintf("127.0.0.1:%d", 10000+rand.IntN(22000))
		if l, err := net.Listen("tcp", addr); err == nil {
			l.Close()
			return "tcp", addr
		}
	}
}

func listenFree(r *rand.Rand, tcp bool) (l net.Listener, network, addr string) {
	for {
		network, addr = freeAddr(r, tcp)
		var err error
		if l, err = net.Listen(network, addr); err == nil {
			return
		}
	}
}

// raw speaks the protocol without the library
type raw struct {
	net.Conn
	br    *bufio.Reader
	wm    sync.Mutex
	resp  bool // reads responses
	rcl   int
	tap   func(b []byte) error // instead of writing
	asked atomic.Int64         // requests which came through it
}

func newRaw(c net.Conn, rcl int, resp bool) *raw {
	return &raw{Conn: c, br: bufio.NewReaderSize(c, 4096), resp: resp, rcl: rcl}
}

func (c *raw) read() (f frame, err error) {
	var h [12]byte
	if _, err = io.ReadFull(c.br, h[:]); err != nil {
		return
	}
	f.msg = binary.LittleEndian.Uint32(h[:])
	n := int(binary.LittleEndian.Uint32(h[4:]))
	f.id = binary.LittleEndian.Uint32(h[8:])
	if n > 1<<28 {
		return f, fmt.Errorf("frame of %d bytes", n)
	}
	f.body = make([]byte, n)
	if _, err = io.ReadFull(c.br, f.body); err != nil {
		return
	}
	if c.resp && f.msg != 0xFF00 {
		if n < c.rcl {
			return f, fmt.Errorf("response of %d bytes has no room for its code", n)
		}
		switch c.rcl {
		case 4:
			f.code = binary.LittleEndian.Uint32(f.body)
		case 1:
			f.code = uint32(f.body[0])
		}
		f.body = f.body[c.rcl:]
	}
	return
}

// send writes frames at once
func (c *raw) send(resp bool, fs ...frame) error {
	var b []byte
	for _, f := range fs {
		b = refFrame(b, f, resp, c.rcl)
	}
	if c.tap != nil {
		return c.tap(b)
	}
	c.wm.Lock()
	defer c.wm.Unlock()
	_, err := c.Conn.Write(b)
	return err
}

func (c *raw) closeWrite() {
	c.Conn.(interface{ CloseWrite() error }).CloseWrite()
}

func (c *raw) reset() {
	if t, ok := c.Conn.(*net.TCPConn); ok {
		t.SetLinger(0)
	}
	c.Conn.Close()
}

func dialRaw(network, addr string, rcl int) *raw {
	for i := 0; ; i++ {
		c, err := net.Dial(network, addr)
		if err == nil {
			return newRaw(c, rcl, true)
		}
		if i > 2000 {
			panic("HARNESS: could not connect to the server: " + err.Error())
		}
		time.Sleep(5 * time.Millisecond)
	}
}

// fake is a server which is not made of the library
type fake struct {
	l             net.Listener
	network, addr string
	rcl           int
	onConn        func(c *raw) bool // nil or true: serve as usual
	onReq         func(c *raw, f frame)
	m             sync.Mutex
	conns         map[*raw]bool
	total         int
	pings         atomic.Int64
	wg            sync.WaitGroup
	closed        bool
	stay          bool // do not close after the client has closed its half, wait until it closes everything
}

func newFake(r *rand.Rand, tcp bool, rc nt.RCType) *fake {
	s := &fake{rcl: rcLen(rc), conns: map[*raw]bool{}}
	s.l, s.network, s.addr = listenFree(r, tcp)
	return s
}

// newFakeAt listens at a given address, nil if it can not
func newFakeAt(network, addr string, rc nt.RCType) *fake {
	s := &fake{rcl: rcLen(rc), conns: map[*raw]bool{}, network: network, addr: addr}
	var err error
	if s.l, err = net.Listen(network, addr); err != nil {
		return nil
	}
	return s
}

func (s *fake) start() {
	s.wg.Add(1)
	go s.accept(s.l)
}

func (s *fake) accept(l net.Listener) {
	defer s.wg.Done()
	for {
		nc, err := l.Accept()
		if err != nil {
			return
		}
		c := newRaw(nc, s.rcl, false)
		s.m.Lock()
		if s.closed {
			s.m.Unlock()
			nc.Close()
			continue
		}
		s.conns[c] = true
		s.total++
		s.wg.Add(1)
		s.m.Unlock()
		go s.serve(c)
	}
}

func (s *fake) serve(c *raw) {
	defer s.wg.Done()
	defer func() {
		s.m.Lock()
		delete(s.conns, c)
		s.m.Unlock()
		c.Close()
	}()
	if s.onConn != nil && !s.onConn(c) {
		return
	}
	for {
		f, err := c.read()
		if err == io.EOF {
			s.linger(c)
		}
		if err != nil {
			return
		}
		if f.msg == 0xFF00 {
			s.pings.Add(1)
			c.send(true, frame{msg: 0xFF00, id: f.id})
			continue
		}
		s.onReq(c, f)
	}
}

// linger waits until the client, which has closed its half, closes everything
func (s *fake) linger(c *raw) {
	for s.stay && c.send(true, frame{msg: 0xFF00, id: 0xFFFFFFFF}) == nil {
		time.Sleep(2 * time.Millisecond)
	}
}

func (s *fake) nconns() int {
	s.m.Lock()
	defer s.m.Unlock()
	return len(s.conns)
}

// dropAll closes all connections; hard: with a reset
func (s *fake) dropAll(hard bool) {
	s.m.Lock()
	for c := range s.conns {
		if hard {
			c.reset()
		} else {
			c.Close()
		}
	}
	s.m.Unlock()
}

func (s *fake) stop() {
	s.l.Close()
	s.m.Lock()
	s.closed = true
	s.m.Unlock()
	s.dropAll(false)
	s.wg.Wait()
}

// newClient starts a client for an address
func newClient(network, addr string, rc nt.RCType, conns int, mod func(c *client.ServerConfig)) *client.Server {
	cfg := client.ServerConfig{Network: network, Address: addr, Connections: conns, RetCodeType: rc, PingInterval: -1}
	if mod != nil {
		mod(&cfg)
	}
	s := cfg.NewServer()
	iproto.Run(s)
	return s
}

// newServer starts a server
func newServer(r *rand.Rand, tcp bool, ep iproto.Service, rc nt.RCType, mod func(c *server.Config)) *server.Server {
	for i := 0; ; i++ {
		cfg := server.Config{EndPoint: ep, RCType: rc}
		cfg.Network, cfg.Address = freeAddr(r, tcp)
		if mod != nil {
			mod(&cfg)
		}
		s := cfg.NewServer()
		err := s.Run()
		if err == nil {
			return s
		}
		if i > 100 {
			panic("HARNESS: server does not start: " + err.Error())
		}
	}
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

func rcOf(r *rand.Rand) nt.RCType { return pick(r, nt.RC4byte, nt.RC1byte, nt.RC0byte) }

// ready waits until calls through a client succeed
func ready(e *Env, cs string, s iproto.Service, msg iproto.RequestType) bool {
	h := newHang()
	for n := 0; ; n++ {
		q := newRec(1, msg, []byte{255, 255, 255, 255})
		s.Send(&q.Request)
		if !closed(q.done) {
			e.hung(cs, "connect", "request is not answered while client connects")
			return false
		}
		if q.code&7 != iproto.RcInternal {
			return true
		}
		if h.over() {
			e.hung(cs, "connect", "client does not connect, though the server is there: %d requests have failed, the last one with %s", n, codeName(q.code))
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

func (s *fake) totalConns() int {
	s.m.Lock()
	defer s.m.Unlock()
	return s.total
}

// reopen listens at the same address again
func (s *fake) reopen() bool {
	for i := 0; i < 2000; i++ {
		l, err := net.Listen(s.network, s.addr)
		if err == nil {
			s.l = l
			s.start()
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

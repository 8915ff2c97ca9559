package main

import (
	"fmt"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

// rec is a request with everything its caller has seen
type rec struct {
	iproto.Request
	n      int64 // answers
	code   iproto.RetCode
	body   []byte
	idOK   bool
	at     time.Time
	done   chan struct{}
	sent   time.Time
	nested func(*iproto.Response)
}

func newRec(id uint32, msg iproto.RequestType, body []byte) *rec {
	r := &rec{done: make(chan struct{})}
	r.Id, r.Msg, r.Body = id, msg, body
	r.Responder = &recResp{r: r, id: id, msg: msg}
	return r
}

// recResp stands apart so that the library may drop its reference to it
type recResp struct {
	r   *rec
	id  uint32
	msg iproto.RequestType
}

func (p *recResp) Respond(res *iproto.Response) {
	r := p.r
	now := time.Now()
	if r.nested != nil {
		r.nested(res)
	}
	if atomic.AddInt64(&r.n, 1) == 1 {
		r.code = res.Code
		r.body = append([]byte(nil), res.Body...)
		r.idOK = res.Id == p.id && res.Msg == p.msg
		r.at = now
		close(r.done)
	}
}

func (r *rec) answers() int { return int(atomic.LoadInt64(&r.n)) }

func (r *rec) answered() bool {
	select {
	case <-r.done:
		return true
	default:
		return false
	}
}

// point is an end point with a loop given as a function
type point struct {
	iproto.SimplePoint
	loop func(p *point)
}

func (p *point) Loop() { p.loop(p) }

func newPoint(loop func(p *point)) *point {
	p := &point{loop: loop}
	p.SimplePoint.Init(p)
	return p
}

// gate lets everyone through once it is open
type gate struct {
	ch   chan struct{}
	once sync.Once
}

func newGate() *gate  { return &gate{ch: make(chan struct{})} }
func (g *gate) open() { g.once.Do(func() { close(g.ch) }) }
func (g *gate) wait() { <-g.ch }
func (g *gate) is() bool {
	select {
	case <-g.ch:
		return true
	default:
		return false
	}
}

func codeName(c iproto.RetCode) string {
	switch c {
	case iproto.RcOK:
		return "ok"
	case iproto.RcShutdown:
		return "shutdown/cancelled"
	case iproto.RcIOError:
		return "I/O error"
	case iproto.RcTimeout:
		return "timeout"
	case iproto.RcInternalError:
		return "internal error"
	}
	return fmt.Sprintf("code 0x%x", uint32(c))
}

// hung reports a hang together with stacks of everyone
func (e *Env) hung(cs, key, f string, a ...interface{}) {
	e.Viol(cs, "hang:"+key, "%s: %s; goroutines:\n%s", cs, fmt.Sprintf(f, a...), stacks())
}

func debugStack() []byte {
	b := make([]byte, 8<<10)
	return b[:runtime.Stack(b, false)]
}

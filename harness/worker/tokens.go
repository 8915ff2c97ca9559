package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

// Every call of network workloads has a token which determines all of the call and all of its answer,
// so that foreign, mixed or damaged data is recognized by whoever gets it.

func mix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func pad(seed uint64, n int) []byte {
	b := make([]byte, n)
	for i := 0; i < n; i += 8 {
		seed += 0x9e3779b97f4a7c15
		v := mix(seed)
		if i+8 <= n {
			binary.LittleEndian.PutUint64(b[i:], v)
		} else {
			for j := i; j < n; j++ {
				b[j] = byte(v)
				v >>= 8
			}
		}
	}
	return b
}

// size class is kept in the lowest byte of a token
func padLen(tok, salt uint64) int {
	h := mix(tok ^ salt)
	switch tok & 0xff {
	case 0:
		return int(h % 24)
	case 1:
		return int(h % 600)
	case 2:
		switch h >> 32 % 8 {
		case 0:
			return 0
		case 1:
			return int(h % 24)
		case 2:
			return 4096 - 50 + int(h%100)
		case 3:
			return 8192 - 60 + int(h%120)
		case 4:
			return int(h % 20000)
		case 5:
			return int(h % 70000)
		}
		return int(h % 300)
	case 3:
		return int(h % 6)
	case 4:
		return 100000 + int(h%400000)
	case 5:
		return 30000
	}
	return 0
}

func newTok(r *rand.Rand, class int) uint64 { return r.Uint64()&^0xff | uint64(class) }

func tokMsg(tok uint64) uint32 { return uint32(mix(tok^1)%60000) + 1 }

func tokAsk(tok uint64) []byte {
	return append(binary.LittleEndian.AppendUint64(nil, tok), pad(tok^0xA5, padLen(tok, 3))...)
}

func tokCode(tok uint64) uint32 {
	switch h := mix(tok ^ 2); h % 4 {
	case 0:
		return uint32(h >> 40)
	case 1:
		return uint32(h>>40) &^ 0xff
	}
	return 0
}

func tokReply(tok uint64) []byte { return pad(tok^0x5A, padLen(tok, 4)) }

// wireCode is what is left of a code after its way
func wireCode(c uint32, rcl int) uint32 {
	switch rcl {
	case 4:
		return c
	case 1:
		return c & 0xff
	}
	return 0
}

// ledger is what a server has seen
type ledger struct {
	m    sync.Mutex
	seen map[uint64]*entry
	e    *Env
	cs   string
	dups bool // library's server on the other side
}

type entry struct {
	n    int
	sent bool // the answer is wholly given to the connection
}

func newLedger(e *Env, cs string) *ledger { return &ledger{seen: map[uint64]*entry{}, e: e, cs: cs} }

// saw checks a request which came to a server
func (l *ledger) saw(f frame) (tok uint64, ok bool) {
	if len(f.body) < 8 {
		l.e.Viol(l.cs, "request", "%s: server got a request of type %d with a body of %d bytes which nobody sent", l.cs, f.msg, len(f.body))
		return 0, false
	}
	tok = binary.LittleEndian.Uint64(f.body)
	if tok == probeTok {
		return tok, true
	}
	if f.msg != tokMsg(tok) || !bytes.Equal(f.body, tokAsk(tok)) {
		l.e.Viol(l.cs, "request", "%s: server got another request than was sent: type %d, body of %d bytes %.40x", l.cs, f.msg, len(f.body), f.body)
		return 0, false
	}
	l.m.Lock()
	defer l.m.Unlock()
	x := l.seen[tok]
	if x == nil {
		x = &entry{}
		l.seen[tok] = x
	}
	x.n++
	if x.n > 1 {
		l.e.Viol(l.cs, "seen-twice", "%s: server got a call %d times", l.cs, x.n)
		return tok, false
	}
	return tok, true
}

func (l *ledger) answered(tok uint64) {
	l.m.Lock()
	if x := l.seen[tok]; x != nil {
		x.sent = true
	}
	l.m.Unlock()
}

func (l *ledger) look(tok uint64) (x entry) {
	l.m.Lock()
	if p := l.seen[tok]; p != nil {
		x = *p
	}
	l.m.Unlock()
	return
}

const probeTok = 0x1122334455667700

func tokFrame(f frame, tok uint64) frame {
	return frame{msg: f.msg, id: f.id, code: tokCode(tok), body: tokReply(tok)}
}

// tcall is a call with a token
type tcall struct {
	*rec
	tok    uint64
	killed atomic.Uint32 // code of the one who cancelled it
}

func newCall(r *rand.Rand, class int, id uint32) *tcall {
	tok := newTok(r, class)
	return &tcall{rec: newRec(id, iproto.RequestType(tokMsg(tok)), tokAsk(tok)), tok: tok}
}

// genuine tells whether a call is answered with its own answer
func (c *tcall) genuine(rcl int) bool {
	return uint32(c.code) == wireCode(tokCode(c.tok), rcl) && bytes.Equal(c.body, tokReply(c.tok))
}

func (c *tcall) String() string {
	return fmt.Sprintf("call %x (request of %d bytes, answer of %d)", c.tok, len(c.Body), padLen(c.tok, 4))
}

// judge checks an answered call. fail: whether a failure is possible
func (c *tcall) judge(e *Env, cs, what string, rcl int, fail func(code iproto.RetCode) bool) (good bool) {
	if c.answers() != 1 || !c.idOK {
		e.Viol(cs, "not-once", "%s: %v is answered %d times, with its own id and type: %v", what, c, c.answers(), c.idOK)
		return
	}
	if c.genuine(rcl) {
		return true
	}
	if k := c.killed.Load(); k != 0 && uint32(c.code) == k && len(c.body) == 0 {
		return
	}
	if len(c.body) == 0 && fail != nil && fail(c.code) {
		return
	}
	e.Viol(cs, "foreign", "%s: %v is answered with %s and %d bytes %.40x instead of code 0x%x and %.40x, %v after it was sent", what, c, codeName(c.code), len(c.body), c.body, wireCode(tokCode(c.tok), rcl), tokReply(c.tok), c.at.Sub(c.sent))
	return
}

// probe is a call which is answered by every server made here
func probe(e *Env, cs string, s iproto.Service) bool {
	h := newHang()
	for n := 0; ; n++ {
		q := newRec(1, 1, binary.LittleEndian.AppendUint64(nil, probeTok))
		s.Send(&q.Request)
		if !closed(q.done) {
			e.hung(cs, "connect", "request is not answered while client connects")
			return false
		}
		if q.code == 0 {
			if string(q.body) != "probe" {
				e.Viol(cs, "foreign", "%s: a request is answered with %.40x instead of its answer", cs, q.body)
				return false
			}
			return true
		}
		if h.over() {
			e.hung(cs, "connect", "client does not connect, though the server is there: %d requests have failed, the last one with %s", n, codeName(q.code))
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

package main

import (
	"bytes"
	"encoding/binary"
	"math/rand/v2"
	"sync"
	"sync/atomic"

	iproto "github.com/funny-falcon/go-iproto"
	nt "github.com/funny-falcon/go-iproto/net"
)

// All ways to make a call by one line, through services of several kinds.

// askData is a body which knows its type of request
type askData struct {
	Tok  uint64
	Tail []uint16 `iproto:"cnt(i8)"`
	S    string
}

func (a askData) IMsg() iproto.RequestType { return iproto.RequestType(tokMsg(a.Tok)) }

func askOf(tok uint64) askData {
	n := int(mix(tok^9) % 12)
	a := askData{Tok: tok, S: string(pad(tok^7, int(mix(tok^8)%40)))}
	for i := 0; i < n; i++ {
		a.Tail = append(a.Tail, uint16(mix(tok+uint64(i))))
	}
	return a
}

func (a askData) encoded() []byte {
	b := binary.LittleEndian.AppendUint64(nil, a.Tok)
	b = append(b, byte(len(a.Tail)))
	for _, x := range a.Tail {
		b = binary.LittleEndian.AppendUint16(b, x)
	}
	b = binary.LittleEndian.AppendUint32(b, uint32(len(a.S)))
	return append(b, a.S...)
}

// what is answered to it
type sayData struct {
	Tok uint64
	V   []uint32
}

func sayOf(tok uint64) sayData {
	s := sayData{Tok: ^tok}
	for i := int(mix(tok^5) % 30); i > 0; i-- {
		s.V = append(s.V, uint32(mix(tok-uint64(i))))
	}
	return s
}

func (s sayData) encoded() []byte {
	b := binary.LittleEndian.AppendUint64(nil, s.Tok)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(s.V)))
	for _, x := range s.V {
		b = binary.LittleEndian.AppendUint32(b, x)
	}
	return b
}

const (
	oneCall = iota
	oneCallMsg
	oneSend
	oneSendMsg
	oneCxCall
	oneCxCallMsg
	oneCxSend
	oneCxSendMsg
	oneMulti
	oneMultiMsg
	oneCallback
	nOneLines
)

var oneNames = []string{"Call", "CallMsgBody", "Send", "SendMsgBody", "Context.Call", "Context.CallMsgBody", "Context.Send", "Context.SendMsgBody", "MultiRequest.Send", "MultiRequest.SendMsgBody", "Callback"}

func c01helpers(e *Env, cs string, r *rand.Rand) {
	var m sync.Mutex
	seen := map[uint64]int{}
	answer := func(q *iproto.Request) (iproto.RetCode, sayData) {
		if len(q.Body) < 8 { // somebody waits for a connection
			return 0, sayData{}
		}
		tok := binary.LittleEndian.Uint64(q.Body)
		m.Lock()
		seen[tok]++
		n := seen[tok]
		m.Unlock()
		if want := askOf(tok); n > 1 || uint32(q.Msg) != tokMsg(tok) || !bytes.Equal(q.Body, want.encoded()) {
			e.Viol(cs, "handler", "%s: handler is given request %x the %d. time, type %d instead of %d, body\n% x instead of\n% x", cs, tok, n, q.Msg, tokMsg(tok), q.Body, want.encoded())
		}
		return iproto.RetCode(tokCode(tok)), sayOf(tok)
	}
	fn := iproto.SF(func(q *iproto.Request) {
		code, s := answer(q)
		switch code % 3 {
		case 0:
			q.Respond(code, s)
		case 1:
			q.Respond(code, &s)
		case 2:
			q.Respond(code, iproto.Body(s.encoded()))
		}
	})
	var serv iproto.Service
	kind := pick(r, "function", "pool", "pool", "network", "delayed")
	var stops []func()
	pool := func() iproto.EndPoint {
		return iproto.BF{N: pick(r, 0, 1, 3, 16)}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			return answer(q)
		})
	}
	switch kind {
	case "function":
		serv = fn
	case "delayed":
		serv = iproto.SF(func(q *iproto.Request) { go fn(q) })
	case "pool":
		p := pool()
		stops = append(stops, p.Stop)
		serv = p
	case "network":
		p := pool()
		s := newServer(r, r.IntN(2) == 0, p, nt.RC4byte, nil)
		c := newClient(s.Network, s.Address, nt.RC4byte, 1+r.IntN(3), nil)
		if !ready(e, cs, c, 77) {
			return
		}
		stops = append(stops, c.Stop, s.Stop, p.Stop)
		serv = c
	}
	sent := map[uint64]bool{}
	var wg sync.WaitGroup
	for g := 1 + r.IntN(4); g > 0; g-- {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 1))
			cx := new(iproto.Context)
			defer cx.Done()
			for k := 5 + r.IntN(30); k > 0 && !e.violated(); k-- {
				tok := newTok(r, 0)
				how := r.IntN(nOneLines)
				dead := false
				if how >= oneCxCall && how <= oneMultiMsg && r.IntN(12) == 0 {
					cx.Cancel()
					dead = true
				}
				m.Lock()
				sent[tok] = !dead
				m.Unlock()
				ask := askOf(tok)
				var body interface{} = ask
				switch enc := iproto.Body(ask.encoded()); r.IntN(6) {
				case 0:
					body = &ask
				case 1:
					body = enc
				case 2:
					body = &enc
				case 3: // a body in its turn is written as it is
					body = struct {
						Tok  uint64
						Rest iproto.Body
					}{tok, enc[8:]}
				case 4:
					body = []interface{}{enc[:0], enc}[1:][0]
				}
				var data iproto.RequestData = ask
				if r.IntN(2) == 0 {
					data = &ask
				}
				typ := ask.IMsg()
				var q *iproto.Request
				var ch <-chan *iproto.Response
				var own iproto.Chan
				var res *iproto.Response
				var id uint32
				byId := false
				switch how {
				case oneCall:
					res = iproto.Call(serv, data)
				case oneCallMsg:
					res = iproto.CallMsgBody(serv, typ, body)
				case oneSend:
					q, own = iproto.Send(serv, data)
					ch = own
				case oneSendMsg:
					q, own = iproto.SendMsgBody(serv, typ, body)
					ch = own
				case oneCxCall:
					res = cx.Call(serv, data)
				case oneCxCallMsg:
					res = cx.CallMsgBody(serv, typ, body)
				case oneCxSend:
					q, ch = cx.Send(serv, data)
				case oneCxSendMsg:
					q, ch = cx.SendMsgBody(serv, typ, body)
				case oneMulti, oneMultiMsg:
					mr := cx.NewMulti()
					if how == oneMulti {
						q = mr.Send(serv, data)
					} else {
						q = mr.SendMsgBody(serv, typ, body)
					}
					out := make(iproto.Chan, 1)
					if !finishes(func() {
						for _, x := range mr.Results() {
							out <- x
						}
					}) {
						e.hung(cs, "answer", "%s: results of %s through %s do not come", cs, oneNames[how], kind)
						return
					}
					ch = out
				case oneCallback:
					c := make(iproto.Chan, 2)
					id = r.Uint32()
					byId = true
					var calls atomic.Int32
					serv.Send(&iproto.Request{Id: id, Msg: typ, Body: ask.encoded(), Responder: iproto.Callback(func(x *iproto.Response) {
						if calls.Add(1) == 1 {
							c <- x
						} else {
							e.Viol(cs, "twice", "%s: callback is called again", cs)
						}
					})})
					ch = c
				}
				if ch != nil {
					var ok bool
					if res, ok = recv(ch); !ok {
						e.hung(cs, "answer", "%s: %s through %s is not answered", cs, oneNames[how], kind)
						return
					}
				}
				what := oneNames[how] + " through " + kind
				code, say := tokCode(tok), sayOf(tok)
				if dead {
					if res == nil || res.Code != iproto.RcCanceled || cx.Alive() {
						e.Viol(cs, "dead", "%s: %s from a cancelled context is answered %+v", cs, what, res)
					}
					cx.Done()
					cx = new(iproto.Context)
					e.Count("calls from dead contexts", 1)
					continue
				}
				kindOf := code & 7
				if kind == "network" && kindOf == 3 { // those are not passed
					code, kindOf = uint32(res.Code), uint32(res.Code&7)
				}
				switch {
				case res == nil:
					e.Viol(cs, "nothing", "%s: %s is answered with nothing", cs, what)
				case uint32(res.Code) != code || !bytes.Equal(res.Body, say.encoded()) || res.Msg != typ || byId && res.Id != id:
					e.Viol(cs, "answer", "%s: %s of type %d is answered with type %d, code %x instead of %x, body\n% x instead of\n% x", cs, what, typ, res.Msg, uint32(res.Code), code, res.Body, say.encoded())
				case res.Valid() != (kindOf == 0) || res.Restartable() != (kindOf == 1):
					e.Viol(cs, "kind", "%s: code %x: valid %v, restartable %v", cs, code, res.Valid(), res.Restartable())
				default:
					// reading of the body
					var a, b, c, d, f sayData
					rd := res.Body.Reader()
					err1, err2, err3 := res.Body.Read(&a), res.Body.ReadTail(&b), rd.Read(&c)
					rd1, rd2 := res.Body.Reader(), res.Body.Reader()
					rd1.Read(&d)
					if rd2.ReadTail(&f); !bytes.Equal(d.encoded(), f.encoded()) || !bytes.Equal(d.encoded(), a.encoded()) || rd1.Err != nil || rd2.Err != nil {
						e.Viol(cs, "read", "%s: body % x is read as %+v and %+v (%v %v)", cs, res.Body, d, f, rd1.Err, rd2.Err)
					}
					if err1 != nil || err2 != nil || err3 != nil || !rd.Done() || !bytes.Equal(a.encoded(), say.encoded()) || !bytes.Equal(b.encoded(), say.encoded()) || !bytes.Equal(c.encoded(), say.encoded()) {
						e.Viol(cs, "read", "%s: body % x is read as %+v %+v %+v (%v %v %v)", cs, res.Body, a, b, c, err1, err2, err3)
					}
				}
				if own != nil && len(own) > 0 {
					e.Viol(cs, "twice", "%s: %s is answered again", cs, what)
				}
				if q != nil && !until(q.Performed) {
					e.Viol(cs, "performed", "%s: %s: an answered request is not performed", cs, what)
				}
				e.Eval(1)
				e.Count("calls by "+oneNames[how], 1)
				e.Distinct("help %s %s %d %T", kind, oneNames[how], kindOf, body)
			}
		}()
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "calls", "%s: calls through %s do not return", cs, kind)
		return
	}
	m.Lock()
	for tok, live := range sent {
		if n := seen[tok]; n != 1 && live || n != 0 && !live {
			e.Viol(cs, "handler", "%s: handler has seen request %x %d times (context alive: %v)", cs, tok, n, live)
		}
	}
	m.Unlock()
	for _, f := range stops {
		f()
	}
}

package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
)

func init() { props["C14"] = c14 }

// sample is a value with everything it is to be encoded as
type encoded struct {
	v                    interface{}
	auto, content, tuple []byte
	isTuple              bool
}

func someValues(r *rand.Rand, n int) (vs []*encoded) {
	for len(vs) < n {
		tup := r.IntN(3) == 0
		var t reflect.Type
		if tup {
			t = tupleType(r)
		} else {
			t, _ = someType(r, r.IntN(2) == 0, false)
		}
		max := pick(r, 2, 9, 30)
		if r.IntN(4) == 0 {
			t, tup = pick(r, reflect.TypeOf([]byte(nil)), reflect.TypeOf([]uint16(nil)), reflect.TypeOf("")), true
			max = pick(r, 100, 600, 5000)
		}
		if misplaced(t, true) {
			continue
		}
		pv := reflect.New(t)
		(&vgen{r, max}).fill(pv.Elem(), false)
		a, c := &ref{}, &ref{}
		a.auto(pv.Elem(), false)
		c.content(pv.Elem(), false)
		if a.bad || c.bad || len(a.b) > 20000 {
			continue
		}
		x := &encoded{v: pv.Interface(), auto: a.b, content: c.b, isTuple: tup}
		if tup {
			var ok bool
			if x.tuple, ok = refTuple(pv.Elem()); !ok {
				continue
			}
		}
		vs = append(vs, x)
	}
	return
}

// kept is a result which somebody has kept
type keptBuf struct {
	b    []byte
	want []byte
	how  string
}

func c14(e *Env) {
	e.Cases(e.N(1200, 14400), 2, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		vals := someValues(r, 12)
		bf := iproto.BF{N: 1 + r.IntN(4)}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			return iproto.RcOK, vals[q.Id].v
		})
		bfr := iproto.BF{N: 1 + r.IntN(4)}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			req, ch := cx.NewRequest(1, vals[q.Id].v) // made by the handler, its body becomes the answer
			iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RcOK, nil) }).Send(req)
			<-ch
			return iproto.RcOK, iproto.Body(req.Body)
		})
		gs := pick(r, 1, 1, 3, 6)
		var wg sync.WaitGroup
		keeps := make([][]*keptBuf, gs)
		for g := 0; g < gs; g++ {
			wg.Add(1)
			r := rand.New(rand.NewPCG(r.Uint64(), uint64(g)))
			go func(g int) {
				defer wg.Done()
				k := &keeper{e: e, cs: cs, r: r, vals: vals, bf: bf, bfr: bfr, w: &marshal.Writer{DefSize: pick(r, 0, 1, 64, 4096)}}
				k.run(pick(r, 20, 100, 250))
				keeps[g] = k.kept
			}(g)
		}
		if !finishes(wg.Wait) {
			e.hung(cs, "encode", "encoding does not end")
			return
		}
		bf.Stop()
		bfr.Stop()
		n := 0
		for _, ks := range keeps {
			for _, k := range ks {
				n++
				if !bytes.Equal(k.b, k.want) {
					e.Viol(cs, "changed", "%s: what %s has returned has changed: % x is now\n% x", cs, k.how, k.want, k.b)
					return
				}
			}
		}
		e.Count("buffers compared at the end", n)
		e.Eval(n)
		e.Distinct("%d %d", i, n)
		e.Sample("%d goroutines keep %d buffers", gs, n)
	})
}

type keeper struct {
	e       *Env
	cs      string
	r       *rand.Rand
	vals    []*encoded
	bf, bfr iproto.Service
	w       *marshal.Writer
	cx      *iproto.Context
	rcx     *iproto.ReqContext // cx is of this one
	req     *iproto.Request    // is not answered yet
	kept    []*keptBuf
	marks   byte
}

// context makes a context of its own or of a request, when there is none. Those who work on a request
// may go on with its context after it is answered, by them or by somebody else.
func (k *keeper) context() {
	if k.cx == nil {
		if k.r.IntN(2) == 0 {
			k.cx = new(iproto.Context)
			return
		}
		k.req = &iproto.Request{Responder: make(iproto.Chan, 1)}
		k.req.SetPending()
		if k.rcx = k.req.Context(); k.rcx == nil {
			panic("no context of a pending request")
		}
		k.cx = &k.rcx.Context
	}
	if k.req != nil && k.r.IntN(4) == 0 {
		q, code := k.req, pick(k.r, iproto.RcOK, iproto.RcIOError, iproto.RcFatal|0x100)
		k.req = nil
		if k.r.IntN(2) == 0 {
			go q.RespondBytes(code, nil)
		} else {
			q.Respond(code, uint32(1))
		}
		k.e.Count("contexts used after an answer", 1)
	}
}

// bomb panics in the middle of its encoding
type bomb int

func (b bomb) IWrite(w *marshal.Writer) {
	for i := 0; i < int(b); i++ {
		w.Uint32(0xbad0bad0)
	}
	panic(b)
}

// explode encodes a value which panics, its user recovers
func (k *keeper) explode() {
	v := []interface{}{uint16(7), bomb(k.r.IntN(300))}
	k.context()
	i := k.r.IntN(5)
	p := guarded(func() {
		switch i {
		case 0:
			marshal.Write(v)
		case 1:
			marshal.WriteTail(v)
		case 2, 3:
			k.cx.NewRequest(5, v)
		case 4:
			(&iproto.Request{}).Respond(iproto.RcOK, v)
		}
	})
	if p == nil {
		k.e.Viol(k.cs, "panic", "%s: panic of a value is hidden from its user (%d)", k.cs, i)
	}
	k.e.Count("values which panicked", 1)
}

func (k *keeper) run(n int) {
	e, r := k.e, k.r
	for ; n > 0 && !e.violated(); n-- {
		if r.IntN(20) == 0 {
			k.explode()
		}
		var x *keptBuf
		if p := guarded(func() { x = k.encode() }); p != nil {
			e.Viol(k.cs, "panic", "%s: encoding panics: %v", k.cs, p)
			return
		}
		if !bytes.Equal(x.b, x.want) {
			e.Viol(k.cs, "wrong", "%s: %s gives\n% x instead of\n% x", k.cs, x.how, x.b, x.want)
			return
		}
		e.Count("buffers made", 1)
		e.Count("of "+x.how, 1)
		x.want = append([]byte(nil), x.want...)
		k.kept = append(k.kept, x)
		for i := 0; i < 2; i++ {
			o := k.kept[r.IntN(len(k.kept))]
			if r.IntN(3) == 0 {
				o = x
			}
			k.marks++
			switch r.IntN(4) {
			case 0: // it is ours
				for j := range o.b {
					o.b[j] = k.marks
				}
				o.want = bytes.Repeat([]byte{k.marks}, len(o.b))
				e.Count("buffers overwritten", 1)
			case 1:
				more := bytes.Repeat([]byte{k.marks}, 1+r.IntN(pick(r, 4, 40, 600)))
				o.b = append(o.b, more...)
				o.want = append(o.want, more...)
				e.Count("buffers appended to", 1)
			case 2:
				for j := len(o.b); j < cap(o.b); j++ {
					o.b[:cap(o.b)][j] = k.marks
				}
			}
		}
		if n%16 == 0 {
			for _, o := range k.kept {
				if !bytes.Equal(o.b, o.want) {
					e.Viol(k.cs, "changed", "%s: what %s has returned has changed: % x is now\n% x", k.cs, o.how, o.want, o.b)
					return
				}
			}
			e.Eval(1)
		}
	}
}

// encode encodes something somehow
func (k *keeper) encode() *keptBuf {
	r, w := k.r, k.w
	i := r.IntN(len(k.vals))
	x := k.vals[i]
	echo := iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RcOK, nil) })
	k.context()
	body := func(ch <-chan *iproto.Response) []byte { return (<-ch).Body }
	switch r.IntN(12) {
	case 0:
		return &keptBuf{marshal.Write(x.v), x.auto, "marshal.Write"}
	case 1:
		return &keptBuf{marshal.WriteTail(x.v), x.content, "marshal.WriteTail"}
	case 2:
		if r.IntN(3) == 0 {
			w.Write(k.vals[r.IntN(len(k.vals))].v)
			w.Reset()
		}
		w.Write(x.v)
		return &keptBuf{w.Written(), x.auto, "an encoder"}
	case 3:
		var want []byte
		for n := r.IntN(4); n > 0; n-- {
			y := k.vals[r.IntN(len(k.vals))]
			w.Write(y.v)
			want = append(want, y.auto...)
		}
		return &keptBuf{w.Written(), want, "an encoder of several values"}
	case 4:
		if !x.isTuple {
			w.Uint16(0x0201)
			return &keptBuf{w.Written(), []byte{1, 2}, "an encoder of a number"}
		}
		sbox.WriteTuple(w, x.v)
		return &keptBuf{w.Written(), x.tuple, "sbox.WriteTuple"}
	case 5:
		w.WriteWithSize(x.v, (*marshal.Writer).Intvar)
		return &keptBuf{w.Written(), append(refVar(nil, uint64(len(x.content))), x.content...), "an encoder of a sized value"}
	case 6, 7:
		q, ch := k.cx.NewRequest(5, x.v)
		echo.Send(q)
		<-ch
		return &keptBuf{q.Body, x.auto, "a request of a context"}
	case 8:
		m := k.cx.NewMulti()
		q := m.SendMsgBody(echo, 5, x.v)
		b := q.Body
		m.Results()
		return &keptBuf{b, x.auto, "a multi-request"}
	case 9:
		var b []byte
		ch := make(iproto.Chan, 1)
		iproto.SF(func(q *iproto.Request) { q.Respond(iproto.RcOK, x.v) }).Send(&iproto.Request{Responder: ch})
		b = body(ch)
		return &keptBuf{b, x.auto, "an answer"}
	case 10:
		serv, how := k.bf, "an answer of a service"
		if r.IntN(2) == 0 {
			serv, how = k.bfr, "a request of a service"
		}
		ch := make(iproto.Chan, 1)
		serv.Send(&iproto.Request{Id: uint32(i), Responder: ch})
		return &keptBuf{body(ch), x.auto, how}
	}
	if k.rcx != nil {
		k.rcx.Done()
	} else {
		k.cx.Done()
	}
	k.cx, k.rcx, k.req = nil, nil, nil
	var b []byte
	echo2 := iproto.SF(func(q *iproto.Request) { b = q.Body; q.RespondBytes(iproto.RcOK, nil) })
	iproto.CallMsgBody(echo2, 5, x.v)
	return &keptBuf{b, x.auto, "a call"}
}

package main

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	iproto "github.com/funny-falcon/go-iproto"
)

func init() {
	props["C20"] = c20
	props["C21"] = c21
	props["C22"] = c22
}

func jitter(r *rand.Rand) {
	switch r.IntN(6) {
	case 0:
		time.Sleep(time.Duration(r.IntN(200)) * time.Microsecond)
	case 1, 2:
		for i := r.IntN(4); i >= 0; i-- {
			runtime.Gosched()
		}
	case 3:
		for i, n := 0, r.IntN(2000); i < n; i++ {
			spin.Load()
		}
	}
}

var spin atomic.Int64

// holder keeps requests as a handler which thinks for long
type holder struct {
	m    sync.Mutex
	reqs []*iproto.Request
}

func (h *holder) service() iproto.Service {
	return iproto.SF(func(q *iproto.Request) {
		h.m.Lock()
		h.reqs = append(h.reqs, q)
		h.m.Unlock()
	})
}

// answer answers some of what is held
func (h *holder) answer(r *rand.Rand, share int) {
	h.m.Lock()
	reqs := h.reqs
	h.reqs = nil
	var rest []*iproto.Request
	r.Shuffle(len(reqs), func(i, j int) { reqs[i], reqs[j] = reqs[j], reqs[i] })
	n := len(reqs) * share / 100
	rest = append(rest, reqs[n:]...)
	h.reqs = rest
	h.m.Unlock()
	for _, q := range reqs[:n] {
		q.RespondBytes(iproto.RcOK, q.Body)
	}
}

type cxReq struct {
	ch  <-chan *iproto.Response
	req *iproto.Request
}

type cxMulti struct {
	m *iproto.MultiRequest
	n int
}

type cxNode struct {
	cx       *iproto.Context
	parent   *cxNode
	reqs     []cxReq
	multis   []cxMulti
	finished atomic.Bool // Done is being called: may be not reached by its parent any more
	attack   atomic.Int32
	created  bool // made when the parent was dead already
}

func (n *cxNode) hit() bool {
	for ; n != nil; n = n.parent {
		if n.attack.Load() != 0 {
			return true
		}
	}
	return false
}

func c20(e *Env) {
	n := e.N(36000, 432000)
	e.Cases(n, 4, func(i int, r *rand.Rand) {
		c20case(e, fmt.Sprintf("case %d", i), r)
	})
}

func c20case(e *Env, cs string, r *rand.Rand) {
	var m sync.Mutex
	var nodes []*cxNode
	var wg sync.WaitGroup
	h := &holder{}
	serv := h.service()
	quick := iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RcOK, q.Body) })
	budget := int32(1 + r.IntN(14))
	var work func(nd *cxNode, r *rand.Rand, depth int)
	add := func(nd *cxNode) {
		m.Lock()
		nodes = append(nodes, nd)
		m.Unlock()
	}
	spawn := func(parent *cxNode, r *rand.Rand, depth int) {
		if atomic.AddInt32(&budget, -1) < 0 {
			return
		}
		nd := &cxNode{parent: parent}
		seed := r.Uint64()
		run := func(cx *iproto.Context) {
			r := rand.New(rand.NewPCG(seed, 11))
			if nd.cx == nil {
				nd.cx = cx
				add(nd)
			}
			work(nd, r, depth+1)
		}
		if parent == nil {
			wg.Add(1)
			nd.cx = &iproto.Context{}
			add(nd)
			go func() { defer wg.Done(); run(nd.cx) }()
			return
		}
		nd.cx, _ = parent.cx.Child()
		add(nd)
		wg.Add(1)
		go func() { defer wg.Done(); run(nd.cx) }()
	}
	work = func(nd *cxNode, r *rand.Rand, depth int) {
		for k, ops := 0, r.IntN(24); k < ops; k++ {
			switch r.IntN(8) {
			case 0, 1, 2:
				req, ch := nd.cx.NewRequest(7, iproto.Body{byte(k)})
				nd.reqs = append(nd.reqs, cxReq{ch, req})
				switch r.IntN(4) {
				case 0:
					quick.Send(req)
				case 1, 2:
					serv.Send(req)
				}
			case 3:
				mr := nd.cx.NewMulti()
				n := r.IntN(8)
				for j := 0; j < n; j++ {
					mr.SendMsgBody(pick(r, serv, iproto.Service(quick)), 8, iproto.Body{byte(j)})
				}
				nd.multis = append(nd.multis, cxMulti{mr, n})
			case 4:
				if depth < 4 {
					spawn(nd, r, depth)
				}
			case 5:
				h.answer(r, 20)
			default:
				jitter(r)
			}
		}
	}
	roots := 1 + r.IntN(2)
	for k := 0; k < roots; k++ {
		spawn(nil, r, 0)
	}
	// attackers cancel and expire at random
	nattack := r.IntN(4)
	var ag sync.WaitGroup
	for k := 0; k < nattack; k++ {
		ag.Add(1)
		seed := r.Uint64()
		go func() {
			defer ag.Done()
			r := rand.New(rand.NewPCG(seed, 13))
			for j := r.IntN(4); j >= 0; j-- {
				jitter(r)
			}
			m.Lock()
			var nd *cxNode
			if len(nodes) > 0 {
				nd = nodes[r.IntN(len(nodes))]
			}
			m.Unlock()
			if nd == nil {
				return
			}
			if r.IntN(2) == 0 {
				nd.attack.Or(1)
				nd.cx.Cancel()
			} else {
				nd.attack.Or(2)
				nd.cx.Expire()
			}
			if nd.cx.Alive() {
				e.Viol(cs, "alive", "%s: context is alive after it was cancelled", cs)
			}
		}()
	}
	if !finishes(func() { wg.Wait(); ag.Wait() }) {
		e.hung(cs, "cancel", "cancelling %d contexts does not return", nattack)
		return
	}
	dead, alive, hitReq, okReq := 0, 0, 0, 0
	// what was hit is answered by itself
	for k, nd := range nodes {
		if !nd.hit() {
			if !nd.cx.Alive() {
				e.Viol(cs, "unrelated", "%s: context %d is dead, though neither it nor its parents were cancelled", cs, k)
			}
			alive++
			continue
		}
		dead++
		if nd.cx.Alive() {
			e.Viol(cs, "alive", "%s: context %d is alive, though it or its parent was cancelled", cs, k)
			continue
		}
		own := nd.attack.Load()
		if nd.parent.hit() {
			if own&2 == 0 && nd.cx.Timeout() {
				e.Viol(cs, "timeout", "%s: context %d says it is expired, but it was only cancelled together with its parent", cs, k)
			}
		} else if own != 3 && nd.cx.Timeout() != (own == 2) {
			e.Viol(cs, "timeout", "%s: context %d was hit by %d (1: cancel, 2: expire), says timeout=%v", cs, k, own, nd.cx.Timeout())
		}
		for j, q := range nd.reqs {
			if !until(func() bool { return q.req.Performed() && len(q.ch) > 0 }) {
				e.hung(cs, "request", "request %d of cancelled context %d is not answered (state %d)", j, k, q.req.State())
				return
			}
		}
	}
	for k, nd := range nodes {
		if nd.hit() {
			continue
		}
		for j, q := range nd.reqs {
			if len(q.ch) > 0 {
				continue
			}
			if q.req.State() == iproto.RsNew {
				serv.Send(q.req)
			}
			if q.req.Performed() && len(q.ch) == 0 {
				until(func() bool { return len(q.ch) > 0 })
			}
			_ = j
			_ = k
		}
	}
	h.answer(r, 100)
	for k, nd := range nodes {
		hit := nd.hit()
		ids := map[uint32]bool{}
		for j, q := range nd.reqs {
			if ids[q.req.Id] {
				e.Viol(cs, "ids", "%s: two requests of context %d have id %d", cs, k, q.req.Id)
			}
			ids[q.req.Id] = true
			res, ok := recv(q.ch)
			if !ok {
				e.hung(cs, "request", "request %d of context %d is not answered (state %d, hit %v)", j, k, q.req.State(), hit)
				return
			}
			switch {
			case res.Code == iproto.RcOK:
				okReq++
			case res.Code == iproto.RcCanceled && hit:
				hitReq++
			default:
				e.Viol(cs, "code", "%s: request %d of context %d (hit %v) is answered with %s", cs, j, k, hit, codeName(res.Code))
			}
			if len(q.ch) != 0 {
				e.Viol(cs, "twice", "%s: request %d of context %d is answered twice", cs, j, k)
			}
			if res.Id != q.req.Id || res.Msg != q.req.Msg {
				e.Viol(cs, "ids", "%s: request %d of type %d of context %d is answered as %d of type %d", cs, q.req.Id, q.req.Msg, k, res.Id, res.Msg)
			}
			if !until(func() bool { return q.req.State() == iproto.RsPerformed }) {
				e.Viol(cs, "state", "%s: request %d of context %d is in state %d after it was answered", cs, j, k, q.req.State())
			}
		}
		for j, mr := range nd.multis {
			var rs iproto.MultiResponse
			if !finishes(func() { rs = mr.m.Results() }) {
				e.hung(cs, "multi", "multi-request %d of context %d (hit %v) does not finish", j, k, hit)
				return
			}
			if len(rs) != mr.n {
				e.Viol(cs, "multi", "%s: multi-request %d of context %d (hit %v) has %d results for %d requests", cs, j, k, hit, len(rs), mr.n)
			}
			for _, res := range rs {
				if res.Code == iproto.RcOK {
					okReq++
				} else if res.Code == iproto.RcCanceled && hit {
					hitReq++
				} else {
					e.Viol(cs, "code", "%s: a request of multi-request %d of context %d (hit %v) is answered with %s", cs, j, k, hit, codeName(res.Code))
				}
			}
		}
	}
	// whatever comes to a dead context later is cancelled at once
	for k, nd := range nodes {
		if !nd.hit() {
			continue
		}
		req, ch := nd.cx.NewRequest(9, nil)
		serv.Send(req)
		if len(ch) != 1 || (<-ch).Code != iproto.RcCanceled {
			e.Viol(cs, "late", "%s: request made in dead context %d is not cancelled at once", cs, k)
		}
		child, ok := nd.cx.Child()
		if ok || child.Alive() {
			e.Viol(cs, "late", "%s: child made in dead context %d is alive", cs, k)
		}
		mr := nd.cx.NewMulti()
		mr.SendMsgBody(serv, 3, nil)
		if rs := mr.Results(); len(rs) != 1 || rs[0].Code != iproto.RcCanceled {
			e.Viol(cs, "late", "%s: multi-request made in dead context %d is not cancelled at once: %d results", cs, k, len(rs))
		}
	}
	for len(nodes) > 0 {
		nodes[len(nodes)-1].cx.Done()
		nodes = nodes[:len(nodes)-1]
	}
	e.Eval(1)
	e.Count("contexts dead", dead)
	e.Count("contexts alive", alive)
	e.Count("requests cancelled", hitReq)
	e.Count("requests answered", okReq)
	if dead > 0 {
		e.Distinct("%d %d %d %d", dead, alive, hitReq, okReq)
	}
	e.Sample("%s: %d contexts hit by %d attackers, %d not; %d requests cancelled, %d answered", cs, dead, nattack, alive, hitReq, okReq)
}

// C21

func c21(e *Env) {
	n := e.N(64000, 768000)
	e.Cases(n, 4, func(i int, r *rand.Rand) {
		c21case(e, fmt.Sprintf("case %d", i), r)
	})
}

func c21case(e *Env, cs string, r *rand.Rand) {
	cx := &iproto.Context{}
	h := &holder{}
	serv := h.service()
	type fn struct {
		runs atomic.Int32
		arg  interface{}
		got  interface{}
		cx   *iproto.Context
		ret  *iproto.Context
		kind int
	}
	var finished atomic.Int32
	var fns []*fn
	nf := r.IntN(9)
	cancelAt := -1
	if r.IntN(4) == 0 {
		cancelAt = r.IntN(nf + 1)
	}
	g := newGate()
	if r.IntN(2) == 0 {
		g.open()
	}
	var reqs []cxReq
	var answered atomic.Int32
	nr := 0
	var body func(f *fn, seed uint64, async bool) func(c *iproto.Context)
	body = func(f *fn, seed uint64, async bool) func(c *iproto.Context) {
		return func(c *iproto.Context) {
			r := rand.New(rand.NewPCG(seed, 17))
			f.runs.Add(1)
			f.cx = c
			jitter(r)
			g.wait()
			jitter(r)
			if r.IntN(4) == 0 {
				// nested work has to be waited for as well, by the child itself
				var n atomic.Int32
				k := 1 + r.IntN(4)
				started := 0
				for j := 0; j < k; j++ {
					seed := r.Uint64()
					if c.Go(func(*iproto.Context) { jitter(rand.New(rand.NewPCG(seed, 1))); n.Add(1) }).Alive() {
						started++
					}
				}
				c.WaitAll()
				if int(n.Load()) < started {
					e.Viol(cs, "wait-early", "%s: WaitAll of a child returned when %d functions of %d were finished", cs, n.Load(), started)
				}
				e.Count("nested waits", 1)
			}
			finished.Add(1)
			if async {
				c.Done()
			}
			if seed&31 == 0 {
				runtime.Goexit() // is an end as well as any other
			}
		}
	}
	dead := false
	expected := 0
	for k := 0; k <= nf; k++ {
		if k == cancelAt {
			if r.IntN(2) == 0 {
				cx.Cancel()
			} else {
				cx.Expire()
			}
			dead = true
		}
		if k == nf {
			break
		}
		if r.IntN(3) == 0 {
			req, ch := cx.NewRequest(1, nil)
			if r.IntN(3) > 0 {
				serv.Send(req)
			}
			reqs = append(reqs, cxReq{ch, req})
			nr++
		}
		f := &fn{arg: k * 3, kind: r.IntN(4)}
		seed := r.Uint64()
		run := body(f, seed, f.kind >= 2)
		switch f.kind {
		case 0:
			f.ret = cx.Go(run)
		case 1:
			f.ret = cx.GoInt(func(c *iproto.Context, i interface{}) { f.got = i; run(c) }, f.arg)
		case 2:
			f.ret = cx.GoAsync(run)
		case 3:
			f.ret = cx.GoIntAsync(func(c *iproto.Context, i interface{}) { f.got = i; run(c) }, f.arg)
		}
		if !dead {
			expected++
		} else {
			if f.ret == nil || f.ret.Alive() {
				e.Viol(cs, "dead-child", "%s: child started through a dead context is alive", cs)
			}
			f.kind += 10
		}
		fns = append(fns, f)
		if r.IntN(3) == 0 {
			jitter(r)
		}
	}
	waiters := 1 + r.IntN(4)
	var wg sync.WaitGroup
	for k := 0; k < waiters; k++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 19))
			jitter(r)
			cx.WaitAll()
			if n := int(finished.Load()); n != expected {
				e.Viol(cs, "wait-early", "%s: WaitAll returned when %d functions of %d were finished", cs, n, expected)
			}
			if n := int(answered.Load()); n != nr && !dead {
				e.Viol(cs, "wait-early", "%s: WaitAll returned when %d requests of %d were answered", cs, n, nr)
			}
			for j, q := range reqs {
				if !q.req.Performed() {
					e.Viol(cs, "wait-early", "%s: WaitAll returned when request %d of %d was in state %d", cs, j, nr, q.req.State())
				}
			}
		}()
	}
	jitter(r)
	jitter(r)
	g.open()
	order := r.Perm(len(reqs))
	for _, k := range order {
		jitter(r)
		answered.Add(1)
		q := reqs[k].req
		if q.State() == iproto.RsNew {
			q.Cancel()
		} else {
			q.RespondBytes(0, nil)
		}
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "wait", "WaitAll of %d waiters does not return after all %d functions and %d requests are done (finished %d)", waiters, expected, nr, finished.Load())
		return
	}
	for k, f := range fns {
		n := int(f.runs.Load())
		if f.kind >= 10 {
			if n != 0 {
				e.Viol(cs, "dead-run", "%s: function %d was run through a dead context", cs, k)
			}
			continue
		}
		if n != 1 {
			e.Viol(cs, "run-once", "%s: function %d (kind %d) was run %d times", cs, k, f.kind, n)
			continue
		}
		if f.kind&1 == 1 && f.got != f.arg {
			e.Viol(cs, "arg", "%s: function %d got argument %v instead of %v", cs, k, f.got, f.arg)
		}
		if f.cx != f.ret || f.cx == cx {
			e.Viol(cs, "child", "%s: function %d (kind %d) did not run in its own child context", cs, k, f.kind)
		}
	}
	// children which are not finished yet die with the parent
	if !dead {
		stop := newGate()
		var up sync.WaitGroup
		up.Add(1)
		child := cx.Go(func(c *iproto.Context) { up.Done(); stop.wait() })
		up.Wait()
		cx.Cancel()
		if child.Alive() {
			e.Viol(cs, "child", "%s: child is alive after its parent was cancelled", cs)
		}
		stop.open()
		if !finishes(cx.WaitAll) {
			e.hung(cs, "wait", "WaitAll of a cancelled context does not return")
			return
		}
	}
	e.Eval(1)
	e.Count("functions run", expected)
	e.Count("waits", waiters)
	e.Count("requests waited for", nr)
	e.Distinct("%d %d %d %d", nf, expected, nr, waiters)
	e.Sample("%s: %d functions, %d of them through a live context, %d requests, %d waiters", cs, nf, expected, nr, waiters)
}

// C22

func c22(e *Env) {
	n := e.N(72000, 864000)
	e.Cases(n, 4, func(i int, r *rand.Rand) {
		c22case(e, fmt.Sprintf("case %d", i), r)
	})
}

func c22case(e *Env, cs string, r *rand.Rand) {
	h := &holder{}
	held := h.service()
	quick := iproto.SF(func(q *iproto.Request) { q.RespondBytes(iproto.RcOK, q.Body) })
	fail := iproto.SF(func(q *iproto.Request) { q.IOError() })
	var pool iproto.Service = quick
	var bf *iproto.ParallelService
	if r.IntN(3) == 0 {
		bf = iproto.BF{N: 2}.New(func(cx *iproto.Context, q *iproto.Request) (iproto.RetCode, interface{}) {
			runtime.Gosched()
			return iproto.RcOK, q.Body
		})
		pool = bf
	}
	var cx *iproto.Context
	mr := &iproto.MultiRequest{}
	if r.IntN(3) > 0 {
		cx = &iproto.Context{}
		mr = cx.NewMulti()
	}
	n := pick(r, 0, 1, 2, 5, 16, 17, 40, 150)
	cancel, expire, timeout := false, false, time.Duration(0)
	switch r.IntN(6) {
	case 0:
		cancel = true
	case 1:
		expire = true
	case 2:
		timeout = time.Duration(1+r.IntN(3000)) * time.Microsecond
		if r.IntN(3) == 0 {
			timeout = time.Hour
		}
	case 3:
		cancel, expire = r.IntN(2) == 0, r.IntN(2) == 0
	}
	t0 := time.Now()
	if timeout > 0 || r.IntN(2) == 0 {
		mr.SetTimeout(pick(r, 0, 0, -1, -time.Hour)) // is no timeout
	}
	if timeout > 0 {
		mr.SetTimeout(timeout)
	}
	var wg sync.WaitGroup
	if cancel || expire {
		for _, c := range []bool{true, false} {
			if c && !cancel || !c && !expire {
				continue
			}
			wg.Add(1)
			seed := r.Uint64()
			viaCx := c && cx != nil && r.IntN(2) == 0
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 23))
				for j := r.IntN(3); j >= 0; j-- {
					jitter(r)
				}
				switch {
				case viaCx:
					cx.Cancel()
				case c:
					mr.Cancel()
				default:
					mr.Expire()
				}
			}()
		}
	}
	failing := make(map[uint32]bool)
	nheld := 0
	for k := 0; k < n; k++ {
		s := iproto.Service(quick)
		switch r.IntN(5) {
		case 0, 1:
			s = held
			nheld++
		case 2:
			s = pool
		case 3:
			if r.IntN(3) == 0 {
				s = fail
				failing[uint32(k)] = true
			}
		}
		q := mr.SendMsgBody(s, iproto.RequestType(100+k), iproto.Body{byte(k), byte(k >> 8)})
		if q.Id != uint32(k) {
			e.Viol(cs, "number", "%s: request %d of a multi-request has number %d", cs, k, q.Id)
		}
		if r.IntN(20) == 0 {
			jitter(r)
		}
	}
	answer := func() {
		r := rand.New(rand.NewPCG(r.Uint64(), 29))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 3; j++ {
				jitter(r)
				h.answer(r, 50)
			}
			h.answer(r, 100)
		}()
	}
	// unless something fails them, held requests have to be answered
	lazy := (cancel || expire || timeout > 0 && timeout < time.Hour) && r.IntN(2) == 0
	if !lazy {
		answer()
	}
	for j := r.IntN(3); j > 0; j-- {
		jitter(r)
	}
	late := 0
	if (cancel || expire) && r.IntN(3) == 0 {
		// it is dead already when these come
		if !finishes(wg.Wait) {
			e.hung(cs, "cancel", "%s: cancelling does not return", cs)
			return
		}
		var passed atomic.Int32
		late = 1 + r.IntN(4)
		for k := n; k < n+late; k++ {
			q := mr.SendMsgBody(iproto.SF(func(q *iproto.Request) { passed.Add(1); q.RespondBytes(iproto.RcOK, []byte("late")) }), iproto.RequestType(100+k), iproto.Body{0})
			if !q.Performed() {
				e.Viol(cs, "late", "%s: request made of a dead multi-request is not answered", cs)
			}
		}
		if passed.Load() > 0 {
			e.Viol(cs, "late", "%s: %d of %d requests made of a dead multi-request (cancel %v, expire %v) were passed to a handler", cs, passed.Load(), late, cancel, expire)
		}
		n += late
	}
	each := r.IntN(2) == 0
	var rs iproto.MultiResponse
	ok := finishes(func() {
		if each {
			for res := range mr.Each() {
				rs = append(rs, res)
			}
		} else {
			rs = mr.Results()
		}
	})
	if ok && r.IntN(2) == 0 {
		rs = rs.Sort()
		for k := range rs {
			if k > 0 && rs[k].Id < rs[k-1].Id {
				e.Viol(cs, "sort", "%s: results are not sorted: %d comes after %d", cs, rs[k].Id, rs[k-1].Id)
				break
			}
		}
	}
	what := fmt.Sprintf("%s: %d requests, %d of them held, cancel %v, expire %v, timeout %v, each %v, answers %v", cs, n, nheld, cancel, expire, timeout, each, !lazy)
	if !ok {
		e.hung(cs, "collect", "%s: collecting does not end, %d results so far", what, len(rs))
		return
	}
	if !finishes(wg.Wait) {
		e.hung(cs, "cancel", "%s: cancelling does not return", what)
		return
	}
	took := time.Since(t0)
	seen := make(map[uint32]bool)
	codes := make(map[iproto.RetCode]int)
	for _, res := range rs {
		codes[res.Code]++
		if seen[res.Id] || int(res.Id) >= n {
			e.Viol(cs, "results", "%s: two answers for request %d", what, res.Id)
		}
		seen[res.Id] = true
		if uint32(res.Msg) != 100+res.Id {
			e.Viol(cs, "results", "%s: answer %d has type %d", what, res.Id, res.Msg)
		}
		switch {
		case res.Code == iproto.RcOK:
			if len(res.Body) != 2 || res.Body[0] != byte(res.Id) || res.Body[1] != byte(res.Id>>8) {
				e.Viol(cs, "results", "%s: answer %d has a body of another one: %x", what, res.Id, res.Body)
			}
		case res.Code == iproto.RcIOError && failing[res.Id]:
		case res.Code == iproto.RcCanceled && cancel:
		case res.Code == iproto.RcTimeout && (expire || timeout > 0 && took >= timeout-early):
		default:
			e.Viol(cs, "code", "%s: answer %d is %s (after %v)", what, res.Id, codeName(res.Code), took)
		}
	}
	if len(rs) != n {
		e.Viol(cs, "results", "%s: %d answers", what, len(rs))
	}
	h.answer(r, 100)
	if cx != nil && !finishes(cx.WaitAll) {
		e.hung(cs, "wait", "%s: its context waits for a finished multi-request", what)
		return
	}
	if bf != nil {
		bf.Stop()
	}
	e.Eval(1)
	e.Count("made of dead ones", late)
	for c, k := range codes {
		e.Count("answers: "+codeName(c), k)
	}
	e.Distinct("%d %v %v %v %v %v", n, cancel, expire, timeout > 0, each, codes)
	e.Sample("%s: %v", what, codes)
}

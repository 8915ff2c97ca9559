From ce4363a40d9babcc7c93515bd1fd63a0d50cd802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:21 +0000
Subject: [PATCH 01/85] fix: Context.Child reports success, so
 Go/GoInt/GoAsync/GoIntAsync run their function

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 80a085e..565f992 100644
--- a/context.go
+++ b/context.go
@@ -214,6 +214,7 @@ func (c *Context) Child() (child *Context, ok bool) {
 	child = &Context{parent: c}
 	rc := CxState(atomic.LoadUint32((*uint32)(&c.State)))
 	if rc == 0 {
+		ok = true
 		c.AddCanceler(child)
 	} else {
 		child.Cancel()
-- 
2.43.0


From 2f81f0a54c4a1f9d854f5a96f5c3261011c5608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:22 +0000
Subject: [PATCH 02/85] fix: Context.Cancel and Expire do not spin until every
 child is gone, nor miss a concurrent registration

---
 context.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/context.go b/context.go
index 565f992..005c181 100644
--- a/context.go
+++ b/context.go
@@ -2,7 +2,6 @@ package iproto
 
 import (
 	"log"
-	"runtime"
 	"sync"
 	"sync/atomic"
 )
@@ -104,23 +103,22 @@ func (c *Context) AddCanceler(cn Canceler) {
 	}
 }
 
+// cancelAll cancels everything registered so far. State is already set at this moment,
+// so that everyone who comes later is cancelled by AddCanceler itself.
 func (c *Context) cancelAll() {
-	for len(c.cancelsm) > 0 || c.cancelsn > 0 {
-		c.m.Lock()
-		cancels := make([]Canceler, 0, len(c.cancels)+c.cancelsn)
-		for i := 0; i < len(c.cancels); i++ {
-			if c.cancels[i] != nil {
-				cancels = append(cancels, c.cancels[i])
-			}
-		}
-		for cancel := range c.cancelsm {
-			cancels = append(cancels, cancel)
-		}
-		c.m.Unlock()
-		for _, cancel := range cancels {
-			cancel.Cancel()
+	c.m.Lock()
+	cancels := make([]Canceler, 0, len(c.cancels)+len(c.cancelsm))
+	for i := 0; i < len(c.cancels); i++ {
+		if c.cancels[i] != nil {
+			cancels = append(cancels, c.cancels[i])
 		}
-		runtime.Gosched()
+	}
+	for cancel := range c.cancelsm {
+		cancels = append(cancels, cancel)
+	}
+	c.m.Unlock()
+	for _, cancel := range cancels {
+		cancel.Cancel()
 	}
 }
 
-- 
2.43.0


From df648c56c065f880da320b8cd6c95c007e917b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:23 +0000
Subject: [PATCH 03/85] fix: wake every waiter of Context.WaitAll

---
 context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/context.go b/context.go
index 005c181..07d5c54 100644
--- a/context.go
+++ b/context.go
@@ -71,7 +71,7 @@ func (c *Context) RemoveCanceler(cn Canceler) {
 		delete(c.cancelsm, cn)
 	}
 	if c.cancelsn == 0 && len(c.cancelsm) == 0 {
-		c.childCond.Signal()
+		c.childCond.Broadcast()
 	}
 	c.m.Unlock()
 }
-- 
2.43.0


From d126b03119f9f2a8102dc58764eee578b8c1fbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:45 +0000
Subject: [PATCH 04/85] fix: MultiRequest cancellation reads its list of
 requests under the lock

---
 wait_group.go | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 1a4d011..90e8f58 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -86,18 +86,12 @@ func (w *MultiRequest) Request(msg RequestType, body interface{}) *Request {
 	req := w.gen.Request(uint32(len(w.requests)), msg, body)
 	req.Responder = w
 	req.timerSet = w.timerSet
-	if len(w.requests) == cap(w.requests) {
-		w.m.Lock()
-		if cap(w.requests) == 0 {
-			w.requests = make([]*Request, 1, cxReqBuf)
-			w.requests[0] = req
-		} else {
-			w.requests = append(w.requests, req)
-		}
-		w.m.Unlock()
-	} else {
-		w.requests = append(w.requests, req)
+	w.m.Lock()
+	if cap(w.requests) == 0 {
+		w.requests = make([]*Request, 0, cxReqBuf)
 	}
+	w.requests = append(w.requests, req)
+	w.m.Unlock()
 	atomic.StoreUint32(&w.r, uint32(len(w.requests)))
 	if atomic.LoadUint32(&w.kind)&mrFailed != 0 {
 		w.performFail(req)
@@ -209,14 +203,14 @@ func (w *MultiRequest) Expire() {
 }
 
 func (w *MultiRequest) performFailAll() {
+	/* responses reset elements of w.requests concurrently */
 	w.m.Lock()
-	r := int(atomic.LoadUint32(&w.r))
-	allReqs := w.requests
+	allReqs := append([]*Request(nil), w.requests...)
 	w.m.Unlock()
 
-	for i := 0; i < r; i++ {
-		if allReqs[i] != nil {
-			w.performFail(allReqs[i])
+	for _, req := range allReqs {
+		if req != nil {
+			w.performFail(req)
 		}
 	}
 }
-- 
2.43.0


From a83f0925ff07c40f795e51d5d57d80cb259bd770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:58 +0000
Subject: [PATCH 05/85] fix: MultiRequest.Each may race with the last
 responses, and unregisters itself from its Context

---
 wait_group.go | 62 ++++++++++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 90e8f58..02a48d5 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -120,18 +120,20 @@ func (w *MultiRequest) Each() <-chan *Response {
 		w.gen.Release()
 	}
 	w.setKind(mrChan)
-	w.ch = make(chan *Response, w.r)
+	ch := make(chan *Response, atomic.LoadUint32(&w.r))
 
 	for _, resp := range w.responses {
 		w.requests[resp.Id] = nil
-		w.ch <- resp
+		ch <- resp
 	}
 	w.responses = nil
-	if w.c == w.r {
-		close(w.ch)
+	if w.complete() {
+		w.finish()
+		close(ch)
 	}
+	w.ch = ch
 	w.m.Unlock()
-	return w.ch
+	return ch
 }
 
 func (w *MultiRequest) Results() MultiResponse {
@@ -162,27 +164,41 @@ func (w *MultiRequest) Results() MultiResponse {
 }
 
 func (w *MultiRequest) Respond(r *Response) {
-	if w.ch == nil {
-		w.m.Lock()
-		if w.ch == nil {
-			w.responses = append(w.responses, r)
-			w.requests[r.Id] = nil
-			if w.c++; w.c == w.r && w.kind&mrWait != 0 {
-				w.timer.Stop()
-				w.w.Signal()
-			}
-			w.m.Unlock()
-			return
+	w.m.Lock()
+	w.requests[r.Id] = nil
+	ch := w.ch
+	if ch == nil {
+		w.responses = append(w.responses, r)
+		atomic.AddUint32(&w.c, 1)
+		if w.kind&mrWait != 0 && w.complete() {
+			w.timer.Stop()
+			w.w.Signal()
 		}
 		w.m.Unlock()
+		return
 	}
-	w.ch <- r
-	if v := atomic.AddUint32(&w.c, 1); v == w.r {
-		w.timer.Stop()
-		close(w.ch)
-		if w.cx != nil {
-			w.cx.RemoveCanceler(w)
-		}
+	w.m.Unlock()
+
+	ch <- r
+
+	/* channel is closed by the one who sent the last response */
+	w.m.Lock()
+	atomic.AddUint32(&w.c, 1)
+	if w.complete() {
+		w.finish()
+		close(ch)
+	}
+	w.m.Unlock()
+}
+
+func (w *MultiRequest) complete() bool {
+	return atomic.LoadUint32(&w.c) == atomic.LoadUint32(&w.r)
+}
+
+func (w *MultiRequest) finish() {
+	w.timer.Stop()
+	if w.cx != nil {
+		w.cx.RemoveCanceler(w)
 	}
 }
 
-- 
2.43.0


From ec962d02e008729cffcb49d4d76c5ff83a6199ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:10 +0000
Subject: [PATCH 06/85] fix: MultiRequest reads its flags and counters
 atomically

---
 wait_group.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 02a48d5..949ecfb 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -112,7 +112,7 @@ func (w *MultiRequest) Send(serv Service, r RequestData) *Request {
 }
 
 func (w *MultiRequest) Each() <-chan *Response {
-	if w.kind&mrFailed != 0 && w.c != w.r {
+	if atomic.LoadUint32(&w.kind)&mrFailed != 0 && !w.complete() {
 		w.performFailAll()
 	}
 	w.m.Lock()
@@ -137,7 +137,7 @@ func (w *MultiRequest) Each() <-chan *Response {
 }
 
 func (w *MultiRequest) Results() MultiResponse {
-	if w.kind&mrFailed != 0 && w.c != w.r {
+	if atomic.LoadUint32(&w.kind)&mrFailed != 0 && !w.complete() {
 		w.performFailAll()
 	}
 	w.m.Lock()
@@ -151,7 +151,7 @@ func (w *MultiRequest) Results() MultiResponse {
 		copy(tmp, w.responses)
 		w.responses = tmp
 	}
-	if atomic.LoadUint32(&w.c) < w.r {
+	if !w.complete() {
 		w.w.Wait()
 	}
 	res := w.responses
@@ -170,7 +170,7 @@ func (w *MultiRequest) Respond(r *Response) {
 	if ch == nil {
 		w.responses = append(w.responses, r)
 		atomic.AddUint32(&w.c, 1)
-		if w.kind&mrWait != 0 && w.complete() {
+		if atomic.LoadUint32(&w.kind)&mrWait != 0 && w.complete() {
 			w.timer.Stop()
 			w.w.Signal()
 		}
@@ -204,7 +204,7 @@ func (w *MultiRequest) finish() {
 
 func (w *MultiRequest) Cancel() {
 	w.setKind(mrCancel)
-	if w.c == w.r {
+	if w.complete() {
 		return
 	}
 	w.performFailAll()
@@ -212,7 +212,7 @@ func (w *MultiRequest) Cancel() {
 
 func (w *MultiRequest) Expire() {
 	w.setKind(mrExpire)
-	if w.c == w.r {
+	if w.complete() {
 		return
 	}
 	w.performFailAll()
@@ -233,16 +233,16 @@ func (w *MultiRequest) performFailAll() {
 
 func (w *MultiRequest) performFail(r *Request) {
 	switch {
-	case w.kind&mrCancel != 0:
+	case atomic.LoadUint32(&w.kind)&mrCancel != 0:
 		r.Cancel()
-	case w.kind&mrExpire != 0:
+	case atomic.LoadUint32(&w.kind)&mrExpire != 0:
 		r.Expire()
 	}
 }
 
 func (w *MultiRequest) setKind(k uint32) {
-	kind := w.kind
+	kind := atomic.LoadUint32(&w.kind)
 	for !atomic.CompareAndSwapUint32(&w.kind, kind, kind|k) {
-		kind = w.kind
+		kind = atomic.LoadUint32(&w.kind)
 	}
 }
-- 
2.43.0


From f775b9409d149790b61106c8fdfc35438736364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 07/85] fix: do not drop Body of a request which is still being
 handled or written when it is cancelled

---
 request.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/request.go b/request.go
index c4da8a6..cbf5c3e 100644
--- a/request.go
+++ b/request.go
@@ -148,7 +148,7 @@ func (r *Request) chainResponse(code RetCode, body []byte) {
 	r.Responder.Respond(res)
 	r.state = RsPerformed
 	r.Responder = nil
-	r.Body = nil
+	/* Body is not reset: handler or connection writer may be reading it right now */
 	r.timer.Stop()
 }
 
-- 
2.43.0


From 0189da0fd197f91402c68f0a64302bb344095a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:27 +0000
Subject: [PATCH 08/85] fix: Request and Context states are accessed atomically
 everywhere

---
 context.go | 10 +++++++---
 request.go | 23 ++++++++++-------------
 service.go |  2 +-
 3 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/context.go b/context.go
index 07d5c54..a7e7ebc 100644
--- a/context.go
+++ b/context.go
@@ -80,7 +80,7 @@ func (c *Context) AddCanceler(cn Canceler) {
 	var ok bool
 	c.m.Lock()
 	c.childCond.L = &c.m
-	ok = c.State == 0
+	ok = c.Alive()
 	if ok {
 		var i int
 		for i = 0; i < len(c.cancels); i++ {
@@ -201,11 +201,15 @@ func (c *Context) Call(serv Service, r RequestData) *Response {
 }
 
 func (c *Context) Alive() bool {
-	return c.State == 0
+	return c.state() == CxOK
 }
 
 func (c *Context) Timeout() bool {
-	return c.State == CxTimeout
+	return c.state() == CxTimeout
+}
+
+func (c *Context) state() CxState {
+	return CxState(atomic.LoadUint32((*uint32)(&c.State)))
 }
 
 func (c *Context) Child() (child *Context, ok bool) {
diff --git a/request.go b/request.go
index cbf5c3e..f86922c 100644
--- a/request.go
+++ b/request.go
@@ -65,7 +65,7 @@ func (r *Request) ShutDown() {
 }
 
 func (r *Request) State() uint32 {
-	return r.state
+	return atomic.LoadUint32(&r.state)
 }
 
 func (r *Request) cas(old, new uint32) (set bool) {
@@ -87,8 +87,7 @@ func (r *Request) SetInFly(mid RequestBookmark) (set bool) {
 		return r.cas(RsPending, RsInFly)
 	} else {
 		r.Lock()
-		if r.state == RsPending {
-			r.state = RsInFly
+		if r.cas(RsPending, RsInFly) {
 			mid.setReq(r, mid)
 			set = true
 		}
@@ -109,8 +108,7 @@ func (r *Request) Canceled() bool {
 // ResetToPending is for ResendeRs on IOError. It should be called in a Responder.
 // Note, if it returns false, then Responder is already performed
 func (r *Request) ResetToPending() bool {
-	if r.state == RsPrepared {
-		r.state = RsPending
+	if r.cas(RsPrepared, RsPending) {
 		return true
 	}
 	log.Panicf("ResetToPending should be called only for performed requests")
@@ -118,8 +116,7 @@ func (r *Request) ResetToPending() bool {
 }
 
 func (r *Request) ResetToNew() bool {
-	if r.state == RsPrepared {
-		r.state = RsNew
+	if r.cas(RsPrepared, RsNew) {
 		return true
 	}
 	log.Panicf("ResetToPending should be called only for performed requests")
@@ -137,16 +134,16 @@ func (r *Request) chainResponse(code RetCode, body []byte) {
 	r.Response.Body = body
 	res := r.Response
 
-	r.state = RsPrepared
+	atomic.StoreUint32(&r.state, RsPrepared)
 	for chain := r.chain; chain != nil; {
 		chain.Respond(res)
-		if r.state != RsPrepared {
+		if r.State() != RsPrepared {
 			return
 		}
 		chain = chain.unchain()
 	}
 	r.Responder.Respond(res)
-	r.state = RsPerformed
+	atomic.StoreUint32(&r.state, RsPerformed)
 	r.Responder = nil
 	/* Body is not reset: handler or connection writer may be reading it right now */
 	r.timer.Stop()
@@ -164,7 +161,7 @@ func (r *Request) Respond(code RetCode, val interface{}) {
 
 func (r *Request) RespondBytes(code RetCode, body []byte) {
 	r.Lock()
-	if r.state == RsInFly {
+	if r.State() == RsInFly {
 		r.chainResponse(code, body)
 	}
 	r.Unlock()
@@ -172,7 +169,7 @@ func (r *Request) RespondBytes(code RetCode, body []byte) {
 
 func (r *Request) RespondFail(code RetCode) {
 	r.Lock()
-	if r.state&RsPerforming == 0 {
+	if r.State()&RsPerforming == 0 {
 		r.chainResponse(code, nil)
 	}
 	r.Unlock()
@@ -180,7 +177,7 @@ func (r *Request) RespondFail(code RetCode) {
 
 func (r *Request) ChainBookmark(res RequestBookmark) (chained bool) {
 	r.Lock()
-	if r.state == RsNew || r.state == RsPending {
+	if st := r.State(); st == RsNew || st == RsPending {
 		chained = true
 		res.setReq(r, res)
 	}
diff --git a/service.go b/service.go
index 5fa1b3d..cdab955 100644
--- a/service.go
+++ b/service.go
@@ -17,7 +17,7 @@ type Service interface {
 type Route func(*Request)
 
 func (f Route) Send(r *Request) {
-	if r.state == RsNew {
+	if r.State() == RsNew {
 		f(r)
 	}
 }
-- 
2.43.0


From ad9d7aacc5f230614a0428ed6be43a72f4f296ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 09/85] fix: bookmarks are checked under the lock of their
 request

---
 context.go          |  5 +++--
 parallel_service.go |  2 +-
 request.go          | 21 +++++++++++++++++++--
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/context.go b/context.go
index a7e7ebc..6981288 100644
--- a/context.go
+++ b/context.go
@@ -16,6 +16,7 @@ const (
 type contextBookmark struct {
 	Bookmark
 	c *Context
+	r *Request
 }
 
 func (cm *contextBookmark) Respond(res *Response) {
@@ -25,7 +26,7 @@ func (cm *contextBookmark) Respond(res *Response) {
 }
 
 func (cm *contextBookmark) Cancel() {
-	if r := cm.Request; r != nil {
+	if r := cm.r; r != nil && r.holds(&cm.Bookmark) {
 		r.Cancel()
 	}
 }
@@ -152,7 +153,7 @@ func (c *Context) NewRequest(msg RequestType, body interface{}) (r *Request, res
 			c.cancelBuf = make([]contextBookmark, cxReqBuf)
 		}
 		m := &c.cancelBuf[0]
-		m.c = c
+		m.c, m.r = c, r
 		c.cancelBuf = c.cancelBuf[1:]
 		r.ChainBookmark(m)
 		c.AddCanceler(m)
diff --git a/parallel_service.go b/parallel_service.go
index 6267c6a..8b860f4 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -115,7 +115,7 @@ func (serv *ParallelService) inc(ctx *ReqContext) {
 
 func (serv *ParallelService) serv(ctx *ReqContext) {
 	defer serv.inc(ctx)
-	if req := ctx.Request; req != nil {
+	if req := ctx.alive(); req != nil {
 		req.Respond(serv.f(&ctx.Context, req))
 	}
 }
diff --git a/request.go b/request.go
index f86922c..84f95a5 100644
--- a/request.go
+++ b/request.go
@@ -185,9 +185,18 @@ func (r *Request) ChainBookmark(res RequestBookmark) (chained bool) {
 	return
 }
 
+// holds reports whether bookmark is still in a chain of this request.
+func (r *Request) holds(b *Bookmark) (ok bool) {
+	r.Lock()
+	ok = b.Request == r
+	r.Unlock()
+	return
+}
+
 type ReqContext struct {
 	Bookmark
 	Context
+	req *Request
 }
 
 func (cm *ReqContext) Respond(res *Response) {
@@ -203,14 +212,22 @@ func (cm *ReqContext) Respond(res *Response) {
 }
 
 func (cm *ReqContext) Done() {
-	if req := cm.Request; req != nil {
+	if req := cm.alive(); req != nil {
 		req.RespondFail(RcInternalError)
 	}
 	cm.Context.Done()
 }
 
+// alive returns request if it is not answered yet.
+func (cm *ReqContext) alive() *Request {
+	if req := cm.req; req != nil && req.holds(&cm.Bookmark) {
+		return req
+	}
+	return nil
+}
+
 func (r *Request) Context() (cx *ReqContext) {
-	cx = &ReqContext{}
+	cx = &ReqContext{req: r}
 	if !r.SetInFly(cx) {
 		return nil
 	}
-- 
2.43.0


From 8e2a8e112e828b2c1eb1bb3b4825a14eaa7a0c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:11 +0000
Subject: [PATCH 10/85] fix: data races between Buffer.push, Buffer.loop and
 answers to buffered requests

---
 buffer.go | 41 ++++++++++++++++++++---------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/buffer.go b/buffer.go
index a33e3c8..2daf87f 100644
--- a/buffer.go
+++ b/buffer.go
@@ -11,10 +11,11 @@ var _ = log.Print
 type bufBookmark struct {
 	Bookmark
 	state uint32
+	req   *Request
 }
 
 func (b *bufBookmark) Respond(r *Response) {
-	b.state = bsFree
+	atomic.StoreUint32(&b.state, bsFree)
 }
 
 const (
@@ -39,18 +40,18 @@ type Buffer struct {
 	m          sync.Mutex
 	rows       map[uint64]*bufferRow
 	head, tail uint64
-	hRow, tRow *bufferRow
+	hRow       *bufferRow
 }
 
 func (b *Buffer) init() {
 	b.rows = make(map[uint64]*bufferRow)
 	row := new(bufferRow)
-	b.hRow, b.tRow, b.rows[0] = row, row, row
+	b.hRow, b.rows[0] = row, row
 	b.set = make(chan bool, 1)
 }
 
 func (b *Buffer) push(r *Request) {
-	if b.tail == b.head {
+	if atomic.LoadUint64(&b.tail) == atomic.LoadUint64(&b.head) {
 		select {
 		case b.ch <- r:
 			return
@@ -60,23 +61,20 @@ func (b *Buffer) push(r *Request) {
 
 	tail := atomic.AddUint64(&b.tail, 1) - 1
 	big := tail / bufRow
-	row := b.tRow
-	if row.id != big {
-		var ok bool
-		b.m.Lock()
-		if row, ok = b.rows[big]; !ok {
-			row = &bufferRow{id: big}
-			b.rows[big] = row
-			b.tRow = row
-		}
-		b.m.Unlock()
+	b.m.Lock()
+	row, ok := b.rows[big]
+	if !ok {
+		row = &bufferRow{id: big}
+		b.rows[big] = row
 	}
+	b.m.Unlock()
 
 	middle := &row.row[tail%bufRow]
 	if r.ChainBookmark(middle) {
-		middle.state = bsSet
+		middle.req = r
+		atomic.StoreUint32(&middle.state, bsSet)
 	} else {
-		middle.state = bsFree
+		atomic.StoreUint32(&middle.state, bsFree)
 	}
 	select {
 	case b.set <- true:
@@ -95,7 +93,7 @@ func (b *Buffer) close() {
 func (b *Buffer) loop() {
 	for <-b.set {
 	Tiny:
-		for ; b.head < atomic.LoadUint64(&b.tail); b.head++ {
+		for ; b.head < atomic.LoadUint64(&b.tail); atomic.AddUint64(&b.head, 1) {
 			var ok bool
 			big := b.head / bufRow
 			row := b.hRow
@@ -110,13 +108,14 @@ func (b *Buffer) loop() {
 				b.hRow = row
 			}
 			middle := &row.row[b.head%bufRow]
-			switch middle.state {
+			switch atomic.LoadUint32(&middle.state) {
 			case bsNew:
 				break Tiny
 			case bsSet:
-				req := middle.Request
-				middle.state = bsFree
-				if req != nil && req.IsPending() {
+				req := middle.req
+				middle.req = nil
+				atomic.StoreUint32(&middle.state, bsFree)
+				if req.holds(&middle.Bookmark) && req.IsPending() {
 					b.ch <- req
 				}
 			case bsFree:
-- 
2.43.0


From 1c713a7cfb3e12b1cb0987c0a42cf2a387a99602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 11/85] fix: requests queued in or sent to a stopped endpoint
 are answered, Stop does not block and Send after it does not panic

---
 buffer.go           |  8 --------
 parallel_service.go |  7 +------
 service.go          | 23 ++++++++++++++++-------
 3 files changed, 17 insertions(+), 21 deletions(-)

diff --git a/buffer.go b/buffer.go
index 2daf87f..f03c66d 100644
--- a/buffer.go
+++ b/buffer.go
@@ -82,14 +82,6 @@ func (b *Buffer) push(r *Request) {
 	}
 }
 
-func (b *Buffer) close() {
-	select {
-	case b.set <- true:
-	default:
-	}
-	close(b.set)
-}
-
 func (b *Buffer) loop() {
 	for <-b.set {
 	Tiny:
diff --git a/parallel_service.go b/parallel_service.go
index 8b860f4..153bc27 100644
--- a/parallel_service.go
+++ b/parallel_service.go
@@ -93,12 +93,7 @@ Loop:
 		}
 	}
 
-	for {
-		if req, ok = <-serv.ReceiveChan(); !ok {
-			break
-		}
-		req.Respond(RcShutdown, nil)
-	}
+	serv.ShutDownAll()
 }
 
 func (serv *ParallelService) inc(ctx *ReqContext) {
diff --git a/service.go b/service.go
index cdab955..077e003 100644
--- a/service.go
+++ b/service.go
@@ -2,6 +2,7 @@ package iproto
 
 import (
 	"log"
+	"sync/atomic"
 	"time"
 )
 
@@ -66,7 +67,7 @@ type PointLoop interface {
 type SimplePoint struct {
 	b          Buffer
 	exit       chan bool
-	stopped    bool
+	stopped    uint32
 	standalone bool
 	PointLoop
 	Timeout     time.Duration
@@ -113,7 +114,7 @@ func (s *SimplePoint) RunChild(p EndPoint) {
 
 func (s *SimplePoint) Init(p PointLoop) {
 	s.PointLoop = p
-	s.exit = make(chan bool)
+	s.exit = make(chan bool, 1)
 }
 
 func (s *SimplePoint) ExitChan() <-chan bool {
@@ -147,14 +148,22 @@ func (s *SimplePoint) Send(r *Request) {
 	s.b.push(r)
 }
 
+// Stop asks endpoint's Loop to exit. It does not wait for it.
+// Buffer remains working: Loop of standalone endpoint answers to everything sent after with RcShutdown
 func (s *SimplePoint) Stop() {
-	if s.standalone {
-		s.b.close()
+	if atomic.CompareAndSwapUint32(&s.stopped, 0, 1) {
+		s.exit <- true
 	}
-	s.stopped = true
-	s.exit <- true
 }
 
 func (s *SimplePoint) Stopped() bool {
-	return s.stopped
+	return atomic.LoadUint32(&s.stopped) != 0
+}
+
+// ShutDownAll answers RcShutdown to every queued and every future request.
+// It is for standalone endpoints to call at the end of theirs Loop.
+func (s *SimplePoint) ShutDownAll() {
+	for req := range s.b.ch {
+		req.ShutDown()
+	}
 }
-- 
2.43.0


From d28a839855fdcc5bb2d76efe8d9e76d6982ec084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:42 +0000
Subject: [PATCH 12/85] fix: BalancerPoint.AddChild does not race with Loop,
 queued requests are answered after Stop

---
 balancer.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/balancer.go b/balancer.go
index f7e3aff..d7a2de4 100644
--- a/balancer.go
+++ b/balancer.go
@@ -1,7 +1,11 @@
 package iproto
 
+import "sync"
+
 type BalancerPoint struct {
 	SimplePoint
+	m        sync.Mutex
+	looping  bool
 	children []EndPoint
 }
 
@@ -10,18 +14,34 @@ func (b *BalancerPoint) Init() {
 }
 
 func (b *BalancerPoint) AddChild(ch EndPoint) {
+	b.m.Lock()
+	defer b.m.Unlock()
+	if b.Stopped() {
+		return
+	}
 	b.children = append(b.children, ch)
-	if b.Runned() {
-		ch.Run(b.b.ch)
+	if b.looping {
+		b.RunChild(ch)
 	}
 }
 
 func (b *BalancerPoint) Loop() {
+	b.m.Lock()
 	for _, ch := range b.children {
 		b.RunChild(ch)
 	}
+	b.looping = true
+	b.m.Unlock()
+
 	<-b.ExitChan()
+
+	b.m.Lock()
 	for _, ch := range b.children {
 		ch.Stop()
 	}
+	b.m.Unlock()
+
+	if b.Standalone() {
+		b.ShutDownAll()
+	}
 }
-- 
2.43.0


From ca2736269ff2043f722d1aaddcfd07a935d9b71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:43 +0000
Subject: [PATCH 13/85] fix: timer loop does not lose wake up which fires
 before it falls asleep

---
 custom_timer.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/custom_timer.go b/custom_timer.go
index 4f60ff7..9df2a9b 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -103,8 +103,15 @@ func newHeap(i uint32) *tHeap {
 	return h
 }
 
+// wake takes lock, so that loop could not miss a signal between t.Reset and h.c.Wait
+func (h *tHeap) wake() {
+	h.m.Lock()
+	h.c.Signal()
+	h.m.Unlock()
+}
+
 func (h *tHeap) loop() {
-	t := time.AfterFunc(time.Hour, h.c.Signal)
+	t := time.AfterFunc(time.Hour, h.wake)
 	h.m.Lock()
 Loop:
 	for {
-- 
2.43.0


From 5d51e1d3648532ba90ad827a4d9703134466162a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:44 +0000
Subject: [PATCH 14/85] fix: list of timer heaps grows without racing with its
 readers

---
 custom_timer.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/custom_timer.go b/custom_timer.go
index 9df2a9b..7d7bde4 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -47,10 +47,13 @@ func (t *Timer) Stop() {
 	}
 }
 
-var heaps = []*tHeap{newHeap(1), newHeap(2)}
+var heaps atomic.Value // []*tHeap, only grows
 var heapM sync.Mutex
 var heapI uint32
-var heapN uint32 = 2
+
+func init() {
+	heaps.Store([]*tHeap{newHeap(1), newHeap(2)})
+}
 
 func nextHeap() *tHeap {
 	i := atomic.AddUint32(&heapI, 1)
@@ -62,17 +65,19 @@ func nextHeap() *tHeap {
 		} else {
 			n *= 8
 		}
-		for len(heaps) < n {
-			heaps = append(heaps, newHeap(uint32(len(heaps)+1)))
+		hs := append([]*tHeap(nil), heaps.Load().([]*tHeap)...)
+		for len(hs) < n {
+			hs = append(hs, newHeap(uint32(len(hs)+1)))
 		}
-		heapN = uint32(n)
+		heaps.Store(hs)
 		heapM.Unlock()
 	}
-	return heaps[i%heapN]
+	hs := heaps.Load().([]*tHeap)
+	return hs[i%uint32(len(hs))]
 }
 
 func getHeap(h uint32) *tHeap {
-	return heaps[h-1]
+	return heaps.Load().([]*tHeap)[h-1]
 }
 
 type htindex uint32
-- 
2.43.0


From 5ba7df5c93314d06de5349e8e1912f00286c1825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:01 +0000
Subject: [PATCH 15/85] fix: Timer.Stop may be called concurrently with
 Timer.After

---
 custom_timer.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/custom_timer.go b/custom_timer.go
index 7d7bde4..da9f421 100644
--- a/custom_timer.go
+++ b/custom_timer.go
@@ -22,11 +22,11 @@ type Timer struct {
 
 func (t *Timer) After(d time.Duration, e Expirator) {
 	var h *tHeap
-	if t.h == 0 {
+	if i := atomic.LoadUint32(&t.h); i == 0 {
 		h = nextHeap()
-		t.h = h.i
+		atomic.StoreUint32(&t.h, h.i)
 	} else {
-		h = getHeap(t.h)
+		h = getHeap(i)
 	}
 	h.m.Lock()
 	top := h.push(e, NowEpoch().Add(d))
@@ -37,7 +37,7 @@ func (t *Timer) After(d time.Duration, e Expirator) {
 }
 
 func (t *Timer) Stop() {
-	if h := t.h; h > 0 {
+	if h := atomic.LoadUint32(&t.h); h > 0 {
 		heap := getHeap(h)
 		heap.m.Lock()
 		if i := t.i; i > 0 {
-- 
2.43.0


From 6973d72d9df06c66f5f5a91de53d1fe20c9377aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 16/85] fix: answer to Ping carries no return code, as its
 length says

---
 net/header.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/net/header.go b/net/header.go
index ca974bf..d581cf6 100644
--- a/net/header.go
+++ b/net/header.go
@@ -165,13 +165,13 @@ func (h *HeaderWriter) WriteResponse(res Response) (err error) {
 		return
 	}
 
-	switch h.rc {
-	case RC0byte:
-	case RC1byte:
+	switch retCodeLen {
+	case 0:
+	case 1:
 		if err = h.w.WriteByte(byte(res.Code)); err != nil {
 			return
 		}
-	case RC4byte:
+	case 4:
 		if err = h.w.WriteUint32(uint32(res.Code)); err != nil {
 			return
 		}
-- 
2.43.0


From 2dc585df59775302fbcb4a25a462b436bf824c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 17/85] fix: BufWriter.WriteByte writes one byte

---
 net/buf_writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/buf_writer.go b/net/buf_writer.go
index 0da728b..3f49824 100644
--- a/net/buf_writer.go
+++ b/net/buf_writer.go
@@ -58,14 +58,14 @@ func (w *BufWriter) Write3Uint32(i, j, k uint32) (err error) {
 }
 
 func (w *BufWriter) WriteByte(i byte) (err error) {
-	if w.wr+4 > len(w.buf) {
+	if w.wr+1 > len(w.buf) {
 		if err = w.Flush(); err != nil {
 			return
 		}
 	}
 
 	w.buf[w.wr] = i
-	w.wr += 4
+	w.wr += 1
 	return
 }
 
-- 
2.43.0


From 5cf6adb5e736424ead38de8769bb1f6c2fed06b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 18/85] fix: SliceReader.ReadByte really reads when its buffer
 is empty

---
 net/slice_reader.go | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index c833dff..37f0a4b 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -50,21 +50,9 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 }
 
 func (sl *SliceReader) ReadByte() (res byte, err error) {
-	if len(sl.buf) > 0 {
-		res = sl.buf[0]
-		sl.buf = sl.buf[1:]
-		return
-	}
-	var buf []byte
-	var n int
-	if cap(buf) == 0 {
-		buf = make([]byte, len(sl.buf), sl.size)
-	}
-	n, err = sl.read(buf)
-	if n >= 1 {
-		res = buf[0]
-		sl.buf = buf[1:n]
-		err = nil
+	var b []byte
+	if b, err = sl.Read(1); err == nil {
+		res = b[0]
 	}
 	return
 }
-- 
2.43.0


From b72ffc96129e6076df238fe5bfef9f38d3c6dba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:20 +0000
Subject: [PATCH 19/85] fix: append to a received body does not overwrite data
 which follows it

---
 net/slice_reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 37f0a4b..f77e21b 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -16,7 +16,7 @@ type SliceReader struct {
 
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
-		res = sl.buf[:n]
+		res = sl.buf[:n:n]
 		sl.buf = sl.buf[n:]
 		return
 	}
@@ -38,7 +38,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		l += nn
 	}
 	if l >= n {
-		res = buf[:n]
+		res = buf[:n:n]
 		sl.buf = buf[n:l]
 		err = nil
 	} else if l > 0 && err == io.EOF {
-- 
2.43.0


From a5c40b04f115ed5a030a831739f7d162a79d6ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:36 +0000
Subject: [PATCH 20/85] fix: server connection does not block on its full
 output holding the lock

---
 net/server/connection.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 7e99713..9b5134e 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -87,19 +87,24 @@ CodeEnd:
 	if _, ok := conn.inFly[r.Id]; ok {
 		delete(conn.inFly, r.Id)
 
-		if len(conn.buf) == 0 {
-			select {
-			case conn.out <- nt.Response(*r):
-				conn.Unlock()
-				return
-			}
-		}
-		conn.buf = append(conn.buf, nt.Response(*r))
-		conn.bufRealCap = cap(conn.buf)
+		conn.push(nt.Response(*r))
 	}
 	conn.Unlock()
 }
 
+// push passes response to writeLoop and never blocks. conn should be locked.
+func (conn *Connection) push(res nt.Response) {
+	if len(conn.buf) == 0 {
+		select {
+		case conn.out <- res:
+			return
+		default:
+		}
+	}
+	conn.buf = append(conn.buf, res)
+	conn.bufRealCap = cap(conn.buf)
+}
+
 func (conn *Connection) cancelInFly() {
 	conn.Lock()
 	if len(conn.inFly) > 0 {
@@ -177,7 +182,9 @@ func (conn *Connection) readLoop() {
 				Id:  req.Id,
 				Msg: iproto.Ping,
 			}
-			conn.out <- res
+			conn.Lock()
+			conn.push(res)
+			conn.Unlock()
 			continue
 		}
 
-- 
2.43.0


From 85e9626c94f3e04a1eafb5e4e289cb92a552d845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:37 +0000
Subject: [PATCH 21/85] fix: output channel of server connection is closed once

---
 net/server/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index 9b5134e..d8a5e25 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -148,7 +148,7 @@ func (conn *Connection) controlLoop() {
 				conn.conn.CloseRead()
 			}
 		case inFlyEmpty:
-			close(conn.out)
+			/* writeLoop is exiting by itself */
 		}
 
 		if conn.state&CsClosed == CsClosed {
-- 
2.43.0


From 6be3eab893126f144c345039ca9c28736b94a176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:38 +0000
Subject: [PATCH 22/85] fix: closed server connection is reported once

---
 net/server/connection.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index d8a5e25..1ef12c5 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -118,7 +118,6 @@ func (conn *Connection) cancelInFly() {
 	for _, req := range reqs {
 		req.Cancel()
 	}
-	conn.Server.connClosed <- conn.Id
 }
 
 func (conn *Connection) closed() {
-- 
2.43.0


From a35d1ee0babba9ec798d7fcea0e1d20013a05905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:24 +0000
Subject: [PATCH 23/85] fix: late answers do not race with cleanup of a closed
 server connection

---
 net/server/connection.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index 1ef12c5..c6181df 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -121,8 +121,10 @@ func (conn *Connection) cancelInFly() {
 }
 
 func (conn *Connection) closed() {
+	conn.Lock()
 	conn.buf = nil
 	conn.inFly = nil
+	conn.Unlock()
 	conn.Server.connClosed <- conn.Id
 }
 
-- 
2.43.0


From 4c50a40fc4dc054c3cddc7c73a59833646ca9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 24/85] fix: server closes connections it has done with

---
 net/server/connection.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index c6181df..cc18d89 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -3,6 +3,7 @@ package server
 import (
 	"log"
 	"sync"
+	"sync/atomic"
 
 	"github.com/funny-falcon/go-iproto"
 	nt "github.com/funny-falcon/go-iproto/net"
@@ -36,7 +37,8 @@ type Connection struct {
 	out        chan nt.Response
 	bufRealCap int
 
-	state ConnState
+	state   ConnState
+	stopped uint32
 
 	inFly map[uint32]*iproto.Request
 	sync.Mutex
@@ -68,6 +70,7 @@ func (conn *Connection) Run() {
 }
 
 func (conn *Connection) Stop() {
+	atomic.StoreUint32(&conn.stopped, 1)
 	conn.conn.CloseRead()
 }
 
@@ -125,6 +128,10 @@ func (conn *Connection) closed() {
 	conn.buf = nil
 	conn.inFly = nil
 	conn.Unlock()
+	if atomic.LoadUint32(&conn.stopped) == 0 {
+		/* read till EOF, so that closing could not reset what is not delivered yet */
+		conn.conn.Close()
+	}
 	conn.Server.connClosed <- conn.Id
 }
 
@@ -256,6 +263,10 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			/* stream is broken: let the peer know */
+			conn.conn.Close()
+		}
 		conn.notifyLoop(writeClosed)
 	}()
 
-- 
2.43.0


From ecc46aa8fa20190824ec1d21651ac852fdca8216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:25 +0000
Subject: [PATCH 25/85] fix: RCMap of server is able to map a code to RcOK

---
 net/server/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/server/connection.go b/net/server/connection.go
index cc18d89..de0d72a 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -77,7 +77,7 @@ func (conn *Connection) Stop() {
 func (conn *Connection) Respond(r *iproto.Response) {
 	if r.Code&iproto.RcKindMask == iproto.RcInternal {
 		if conn.RCMap != nil {
-			if repl := conn.RCMap[r.Code]; repl != 0 {
+			if repl, ok := conn.RCMap[r.Code]; ok {
 				r.Code = repl
 				goto CodeEnd
 			}
-- 
2.43.0


From c579d53aeb2695f62d9c85bae3964f96dd3937af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:07 +0000
Subject: [PATCH 26/85] fix: client survives responses with unknown or repeated
 ids, and knows when nothing is in flight

---
 net/client/connection/connection.go     |  5 ++-
 net/client/connection/request_holder.go | 50 ++++++++++++++++---------
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index e69ce0c..3e851b4 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -191,7 +191,7 @@ func (conn *Connection) flushInFly() {
 		code = iproto.RcShutdown
 	}
 	for _, req := range reqs {
-		if request := req.Request; request != nil {
+		if request := req.pending(); request != nil {
 			request.RespondFail(code)
 		}
 	}
@@ -219,7 +219,7 @@ func (conn *Connection) readLoop() {
 		if ireq := conn.inFly.remove(res.Id); ireq != nil {
 			ireq.RespondBytes(res.Code, res.Body)
 		}
-		if conn.State&CsWriteClosed != 0 && conn.inFly.put >= conn.inFly.got {
+		if conn.State&CsWriteClosed != 0 && conn.inFly.count() == 0 {
 			conn.notifyLoop(readEmpty)
 		}
 	}
@@ -294,6 +294,7 @@ Loop:
 				Id:   req.fakeId,
 				Body: request.Body,
 			}
+			conn.inFly.sent(req, request)
 			req = nil
 
 			err = w.WriteRequest(requestHeader)
diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index d569d42..b69bd36 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -1,7 +1,6 @@
 package connection
 
 import (
-	"log"
 	"sync"
 	"sync/atomic"
 
@@ -11,6 +10,17 @@ import (
 type Request struct {
 	iproto.Bookmark
 	fakeId uint32
+	req    *iproto.Request
+}
+
+// pending returns a request if it still waits for an answer from this connection
+func (r *Request) pending() (req *iproto.Request) {
+	if r.req != nil {
+		r.req.Lock()
+		req = r.Request
+		r.req.Unlock()
+	}
+	return
 }
 
 const (
@@ -45,7 +55,6 @@ func (h *RequestHolder) init() {
 }
 
 func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
-	h.got++
 	for {
 		id := atomic.AddUint32(&h.curId, 1)
 		big := id >> rowLogN
@@ -68,20 +77,31 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 	}
 }
 
+// sent registers that request is going to be written under an id of r
+func (h *RequestHolder) sent(r *Request, request *iproto.Request) {
+	r.req = request
+	atomic.AddUint64(&h.got, 1)
+}
+
 func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
-	var ok bool
 	big := fakeId >> rowLogN
 	if h.lastBig != big {
 		h.Lock()
-		if h.last, ok = h.reqs[big]; !ok {
-			h.Unlock()
-			log.Panicf("Map has no RequestRow for %d", fakeId)
-		}
-		h.lastBig = big
+		last, ok := h.reqs[big]
 		h.Unlock()
+		if !ok {
+			/* there is no such request */
+			return nil
+		}
+		h.last, h.lastBig = last, big
 	}
 
 	reqs := h.last
+	req := &reqs.reqs[fakeId&rowMask]
+	if fakeId == 0 || req.fakeId != fakeId || req.req == nil {
+		/* there is no such request, or it is already answered */
+		return nil
+	}
 	reqs.freed++
 	border := big == 0 || big == uint32(iproto.PingRequestId>>8)
 	if reqs.freed == rowN || (reqs.freed == rowN1 && border) {
@@ -90,28 +110,24 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req := &reqs.reqs[fakeId&rowMask]
 	req.fakeId = 0
-	ireq = req.Request
-	h.put++
+	ireq = req.pending()
+	req.req = nil
+	atomic.AddUint64(&h.put, 1)
 	return
 }
 
 func (h *RequestHolder) getAll() (reqs []*Request) {
 	h.Lock()
 	defer h.Unlock()
-	reqs = make([]*Request, h.got-h.put)
-	i := 0
 	for _, row := range h.reqs {
 		for j := range row.reqs {
 			req := &row.reqs[j]
-			if req.fakeId != 0 && req.Request != nil {
-				reqs[i] = req
-				i++
+			if req.fakeId != 0 && req.req != nil {
+				reqs = append(reqs, req)
 			}
 		}
 	}
-	reqs = reqs[:i]
 	return
 }
 
-- 
2.43.0


From 7c37b5afa7040a9657451e23c4a2b341dc20b299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:08 +0000
Subject: [PATCH 27/85] fix: requests in flight on a lost connection are
 answered before anything else

---
 net/client/connection/connection.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 3e851b4..306d7cf 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -147,8 +147,8 @@ func (conn *Connection) controlLoopExit() {
 	if conn.State&CsWriteClosed == 0 {
 		conn.conn.CloseWrite()
 	}
-	conn.ConnErr <- Error{conn, Read, conn.readErr}
 	conn.flushInFly()
+	conn.ConnErr <- Error{conn, Read, conn.readErr}
 }
 
 func (conn *Connection) controlLoop() {
-- 
2.43.0


From ac21173f0e9d282c64bcc739466955a09a208a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:09 +0000
Subject: [PATCH 28/85] fix: client honours DialTimeout of its config

---
 net/client/connection/connection.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 306d7cf..9cf9422 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -101,7 +101,10 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 const DialTimeout = 5 * time.Second
 
 func (conn *Connection) Loop() {
-	dialer := net.Dialer{Timeout: DialTimeout}
+	dialer := net.Dialer{Timeout: conn.DialTimeout}
+	if dialer.Timeout <= 0 {
+		dialer.Timeout = DialTimeout
+	}
 	conn.State = CsDialing
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
-- 
2.43.0


From 0edc0113170d6d56f79370389c77a988ce0910c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:39 +0000
Subject: [PATCH 29/85] fix: State of client connection is accessed atomically

---
 net/client/connection/connection.go | 35 +++++++++++++++++------------
 net/client/server.go                |  3 ++-
 2 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 9cf9422..382b9ff 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -5,6 +5,7 @@ import (
 	"log"
 	"net"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/funny-falcon/go-iproto"
@@ -105,10 +106,10 @@ func (conn *Connection) Loop() {
 	if dialer.Timeout <= 0 {
 		dialer.Timeout = DialTimeout
 	}
-	conn.State = CsDialing
+	conn.setState(CsDialing)
 	if netconn, err := dialer.Dial(conn.Network, conn.Address); err != nil {
 		conn.ConnErr <- Error{conn, Dial, err}
-		conn.State = CsClosed
+		conn.setState(CsClosed)
 	} else {
 		conn.conn = netconn.(nt.NetConn)
 		conn.reader.Init(conn.conn, conn.ReadTimeout, conn.RetCodeType)
@@ -121,11 +122,11 @@ func (conn *Connection) Loop() {
 		if err != nil {
 			conn.conn.Close()
 			conn.ConnErr <- Error{conn, Dial, err}
-			conn.State = CsClosed
+			conn.setState(CsClosed)
 			return
 		}
 		conn.ConnErr <- Error{conn, Dial, nil}
-		conn.State = CsConnected
+		conn.setState(CsConnected)
 		go conn.readLoop()
 		go conn.writeLoop()
 		go conn.controlLoop()
@@ -147,7 +148,7 @@ func (conn *Connection) RunWithConn(netconn io.ReadWriteCloser) {
 }
 
 func (conn *Connection) controlLoopExit() {
-	if conn.State&CsWriteClosed == 0 {
+	if conn.state()&CsWriteClosed == 0 {
 		conn.conn.CloseWrite()
 	}
 	conn.flushInFly()
@@ -162,23 +163,21 @@ func (conn *Connection) controlLoop() {
 
 		switch action {
 		case writeClosed:
-			conn.State &= CsClosed
-			conn.State |= CsWriteClosed
+			conn.setState(conn.state()&CsClosed | CsWriteClosed)
 		case readClosed:
-			conn.State &= CsClosed
-			conn.State |= CsReadClosed
-			if conn.State&CsWriteClosed == 0 {
+			conn.setState(conn.state()&CsClosed | CsReadClosed)
+			if conn.state()&CsWriteClosed == 0 {
 				conn.conn.CloseWrite()
 			}
 		case readEmpty:
 		}
 
-		if conn.State&CsWriteClosed != 0 {
+		if conn.state()&CsWriteClosed != 0 {
 			if !closeReadCalled && conn.inFly.count() == 0 {
 				conn.conn.CloseRead()
 				closeReadCalled = true
 			}
-			if conn.State&CsReadClosed != 0 {
+			if conn.state()&CsReadClosed != 0 {
 				break
 			}
 		}
@@ -222,7 +221,7 @@ func (conn *Connection) readLoop() {
 		if ireq := conn.inFly.remove(res.Id); ireq != nil {
 			ireq.RespondBytes(res.Code, res.Body)
 		}
-		if conn.State&CsWriteClosed != 0 && conn.inFly.count() == 0 {
+		if conn.state()&CsWriteClosed != 0 && conn.inFly.count() == 0 {
 			conn.notifyLoop(readEmpty)
 		}
 	}
@@ -308,8 +307,16 @@ Loop:
 	}
 }
 
+func (conn *Connection) state() ConnState {
+	return ConnState(atomic.LoadUint32((*uint32)(&conn.State)))
+}
+
+func (conn *Connection) setState(state ConnState) {
+	atomic.StoreUint32((*uint32)(&conn.State), uint32(state))
+}
+
 func (conn *Connection) Closed() bool {
-	return conn.State&CsClosed != 0
+	return conn.state()&CsClosed != 0
 }
 
 func (conn *Connection) LocalAddr() net.Addr {
diff --git a/net/client/server.go b/net/client/server.go
index eb5cd3f..d92ee4b 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"log"
+	"sync/atomic"
 	"time"
 
 	"github.com/funny-falcon/go-iproto"
@@ -96,7 +97,7 @@ func (serv *Server) fixConnections() {
 	}
 	if needConn < 0 {
 		for _, conn := range serv.connections {
-			switch conn.State {
+			switch connection.ConnState(atomic.LoadUint32((*uint32)(&conn.State))) {
 			case connection.CsDialing:
 				conn.Stop()
 				serv.dialing--
-- 
2.43.0


From bcda387d4d8b4fe0e1c245d0774a2feceb26b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 30/85] fix: client connection stops writing as soon as its
 read side is closed

---
 net/client/connection/connection.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index 382b9ff..eeabe96 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -90,6 +90,7 @@ func NewConnection(conf *CConf, id uint64) (conn *Connection) {
 		CConf: conf,
 		Id:    id,
 
+		closeWrite: make(chan bool),
 		loopNotify: make(chan notifyAction, 2),
 		State:      CsNew,
 	}
@@ -167,7 +168,7 @@ func (conn *Connection) controlLoop() {
 		case readClosed:
 			conn.setState(conn.state()&CsClosed | CsReadClosed)
 			if conn.state()&CsWriteClosed == 0 {
-				conn.conn.CloseWrite()
+				close(conn.closeWrite)
 			}
 		case readEmpty:
 		}
@@ -265,6 +266,9 @@ Loop:
 			conn.shutdown = true
 			break Loop
 		}
+		if conn.state()&CsReadClosed != 0 {
+			break Loop
+		}
 
 		select {
 		case request = <-conn.ReceiveChan():
@@ -279,6 +283,8 @@ Loop:
 			case <-conn.ExitChan():
 				conn.shutdown = true
 				break Loop
+			case <-conn.closeWrite:
+				break Loop
 			}
 		}
 
-- 
2.43.0


From a2b80431b01ddf79da64984fdf6e651cda17574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:40 +0000
Subject: [PATCH 31/85] fix: client closes a connection which is broken or
 finished

---
 net/client/connection/connection.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index eeabe96..c18a58f 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -149,9 +149,7 @@ func (conn *Connection) RunWithConn(netconn io.ReadWriteCloser) {
 }
 
 func (conn *Connection) controlLoopExit() {
-	if conn.state()&CsWriteClosed == 0 {
-		conn.conn.CloseWrite()
-	}
+	conn.conn.Close()
 	conn.flushInFly()
 	conn.ConnErr <- Error{conn, Read, conn.readErr}
 }
@@ -250,6 +248,10 @@ func (conn *Connection) writeLoop() {
 				conn.conn.CloseWrite()
 			}
 		}
+		if err != nil {
+			/* nothing will be answered except what is already on its way */
+			conn.conn.CloseRead()
+		}
 		conn.notifyLoop(writeClosed)
 		conn.ConnErr <- Error{conn, Write, err}
 	}()
-- 
2.43.0


From 2a5ab37dc56977a5408a11cf342e8813f0aca079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:03 +0000
Subject: [PATCH 32/85] fix: client counts stopped connections once

---
 net/client/server.go | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index d92ee4b..1248eb0 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -2,7 +2,6 @@ package client
 
 import (
 	"log"
-	"sync/atomic"
 	"time"
 
 	"github.com/funny-falcon/go-iproto"
@@ -37,6 +36,7 @@ type Server struct {
 	iproto.SimplePoint
 
 	connections map[uint64]*connection.Connection
+	active      map[uint64]*connection.Connection // neither stopped nor closed
 	curId       uint64
 	needConns   int
 	dialing     int
@@ -78,6 +78,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 		connErr:     make(chan connection.Error, 4),
 		actions:     make(chan action, 1),
 		connections: make(map[uint64]*connection.Connection),
+		active:      make(map[uint64]*connection.Connection),
 	}
 
 	serv.SimplePoint.Init(serv)
@@ -87,30 +88,23 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 }
 
 func (serv *Server) fixConnections() {
-	needConn := serv.needConns - (serv.dialing + serv.established)
+	needConn := serv.needConns - len(serv.active)
 	for ; needConn > 0; needConn-- {
 		serv.curId++
 		conn := connection.NewConnection(&serv.CConf, serv.curId)
 		serv.connections[serv.curId] = conn
+		serv.active[serv.curId] = conn
 		serv.RunChild(conn)
 		serv.dialing++
 	}
-	if needConn < 0 {
-		for _, conn := range serv.connections {
-			switch connection.ConnState(atomic.LoadUint32((*uint32)(&conn.State))) {
-			case connection.CsDialing:
-				conn.Stop()
-				serv.dialing--
-				needConn++
-			case connection.CsConnected:
-				conn.Stop()
-				serv.established--
-				needConn++
-			}
-			if needConn == 0 {
-				break
-			}
+	/* counters are changed when connection reports that it is closed */
+	for id, conn := range serv.active {
+		if needConn == 0 {
+			break
 		}
+		conn.Stop()
+		delete(serv.active, id)
+		needConn++
 	}
 }
 
@@ -168,6 +162,7 @@ func (serv *Server) onConnError(connErr connection.Error) {
 				log.Panicf("Unknown connection failed %+v", conn)
 			}
 			delete(serv.connections, conn.Id)
+			delete(serv.active, conn.Id)
 			if serv.established == 0 && serv.Standalone() {
 				serv.AllDisconnected()
 			}
@@ -176,6 +171,7 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
 		serv.established--
 		serv.dying++
+		delete(serv.active, conn.Id)
 		if serv.established == 0 && serv.Standalone() {
 			serv.AllDisconnected()
 		}
-- 
2.43.0


From eb510443d8f2f639cd54393fe6759b55f39e4eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:04 +0000
Subject: [PATCH 33/85] fix: stopped client waits for its connections and
 answers everything queued

---
 net/client/server.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index 1248eb0..95baaed 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -46,6 +46,7 @@ type Server struct {
 	connErr     chan connection.Error
 	actions     chan action
 	exiting     bool
+	drained     bool
 	lastErrTime time.Time
 
 	reconnecter *time.Ticker
@@ -121,6 +122,7 @@ func (serv *Server) Loop() {
 		case <-serv.ExitChan():
 			serv.needConns = 0
 			serv.exiting = true
+			serv.fixConnections()
 		case connErr := <-serv.connErr:
 			serv.onConnError(connErr)
 		case action := <-serv.actions:
@@ -130,8 +132,15 @@ func (serv *Server) Loop() {
 		}
 
 		if serv.exiting && serv.established+serv.dialing == 0 {
-			serv.reconnecter.Stop()
-			break
+			if serv.Standalone() && !serv.drained {
+				/* no one takes requests from the queue any more */
+				serv.drained = true
+				go serv.ShutDownAll()
+			}
+			if len(serv.connections) == 0 {
+				serv.reconnecter.Stop()
+				break
+			}
 		}
 	}
 }
@@ -139,8 +148,10 @@ func (serv *Server) Loop() {
 func (serv *Server) onAction(action action) {
 	switch action.kind {
 	case setServ:
-		serv.Connections = action.servs
-		serv.needConns = action.servs
+		if !serv.exiting {
+			serv.Connections = action.servs
+			serv.needConns = action.servs
+		}
 	}
 }
 
-- 
2.43.0


From 30411656537ddc67871f7203b522070038f48bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:26 +0000
Subject: [PATCH 34/85] fix: Auto.Get looks its servers up under the lock

---
 net/client/auto.go | 27 ++++++++-------------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/net/client/auto.go b/net/client/auto.go
index 62e6869..74969fd 100644
--- a/net/client/auto.go
+++ b/net/client/auto.go
@@ -13,28 +13,17 @@ type Auto struct {
 }
 
 func (a *Auto) Get(addr string) (serv *Server) {
+	a.Lock()
+	defer a.Unlock()
 	if a.servers == nil {
-		a.Lock()
-		if a.servers == nil {
-			a.servers = make(map[string]*Server, len(a.servers))
-		}
-		a.Unlock()
+		a.servers = make(map[string]*Server)
 	}
 	if serv = a.servers[addr]; serv == nil {
-		a.Lock()
-		if serv = a.servers[addr]; serv == nil {
-			conf := *a.Config
-			conf.Address = addr
-			serv = conf.NewServer()
-			iproto.Run(serv)
-			newServs := make(map[string]*Server, len(a.servers))
-			newServs[addr] = serv
-			for a, s := range a.servers {
-				newServs[a] = s
-			}
-			a.servers = newServs
-		}
-		a.Unlock()
+		conf := *a.Config
+		conf.Address = addr
+		serv = conf.NewServer()
+		iproto.Run(serv)
+		a.servers[addr] = serv
 	}
 	return
 }
-- 
2.43.0


From e687cf365d56c25cad17db21414801920820bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:14 +0000
Subject: [PATCH 35/85] fix: []float64 is encoded with 8 bytes per element

---
 marshal/writer_any.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_any.go b/marshal/writer_any.go
index 775f75f..26a7a8c 100644
--- a/marshal/writer_any.go
+++ b/marshal/writer_any.go
@@ -113,7 +113,7 @@ func (w *Writer) Float32sl(i []float32) {
 func (w *Writer) Float64sl(i []float64) {
 	l := w.ensure(len(i) * 8)
 	for j := 0; j < len(i); j++ {
-		le.PutUint64(w.buf[l+j*4:], math.Float64bits(i[j]))
+		le.PutUint64(w.buf[l+j*8:], math.Float64bits(i[j]))
 	}
 	return
 }
-- 
2.43.0


From 5316afebc867f38d37261791afacf26b4da42574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:15 +0000
Subject: [PATCH 36/85] fix: size of ber encoded 128 and its powers

---
 marshal/marshal.go | 2 +-
 marshal/writer.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/marshal.go b/marshal/marshal.go
index 355dac9..6282e78 100644
--- a/marshal/marshal.go
+++ b/marshal/marshal.go
@@ -153,7 +153,7 @@ var tfloat64 = reflect.TypeOf(float64(0))
 const gg = 2*1024*1024*1024 - 1
 
 func Varsize(i int) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
diff --git a/marshal/writer.go b/marshal/writer.go
index 2b2d4d6..ee58d4f 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -79,7 +79,7 @@ func (w *Writer) Int8(i int8) {
 }
 
 func varu64size(i uint64) (j int) {
-	for j = 0; i > 1<<7; j++ {
+	for j = 0; i >= 1<<7; j++ {
 		i >>= 7
 	}
 	return j + 1
-- 
2.43.0


From cb166a91b306f2994b301af92304b7855157f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:17 +0000
Subject: [PATCH 37/85] fix: cnt(i8) prefix takes one byte

---
 marshal/reader_reflect.go | 2 +-
 marshal/writer_reflect.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index cb770f2..0fa6bcb 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1073,7 +1073,7 @@ Fields:
 					fr.CntRd = (*Reader).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fr.CntRd = (*Reader).IntUint8
 				case "i16":
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 9b6cad5..1cb6aeb 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -768,7 +768,7 @@ Fields:
 					fw.CntWr = (*Writer).Intvar
 				case "i8":
 					if size >= 0 {
-						size += 2
+						size += 1
 					}
 					fw.CntWr = (*Writer).IntUint8
 				case "i16":
-- 
2.43.0


From 39c5ac6f654cb4698694c39c81ede5e7cf8715d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:18 +0000
Subject: [PATCH 38/85] fix: size(i64) and cnt(i64) prefixes are written with 8
 bytes

---
 marshal/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer.go b/marshal/writer.go
index ee58d4f..4cf490c 100644
--- a/marshal/writer.go
+++ b/marshal/writer.go
@@ -133,7 +133,7 @@ func (w *Writer) Intvar(i int) {
 }
 
 func (w *Writer) IntUint64(i int) {
-	w.Uint32(uint32(i))
+	w.Uint64(uint64(i))
 }
 
 func (w *Writer) IntUint32(i int) {
-- 
2.43.0


From 0fa652ab49b89d687ff8cf2eec539ebef4f97f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:20 +0000
Subject: [PATCH 39/85] fix: struct with a field of variable size has variable
 size

---
 marshal/reader_reflect.go | 4 +++-
 marshal/writer_reflect.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 0fa6bcb..b108729 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1113,7 +1113,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fr.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fr.Sz
 		}
 
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 1cb6aeb..4f02024 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -808,7 +808,9 @@ Fields:
 			continue
 		}
 
-		if size >= 0 {
+		if fw.Sz < 0 {
+			size = -1
+		} else if size >= 0 {
 			size += fw.Sz
 		}
 
-- 
2.43.0


From beded162dc94d35c5ed33a50d2b4b91397b762cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:21 +0000
Subject: [PATCH 40/85] fix: sized pointer to value of variable size is decoded

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b108729..12a9c59 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -776,7 +776,7 @@ func (t *TReader) FillPtr() {
 		}
 	}
 	t.Tail = func(r *Reader, v reflect.Value) {
-		if r.Err == nil {
+		if r.Err != nil {
 			return
 		}
 		if len(r.Body) > 0 {
-- 
2.43.0


From 83a399132e73fb193c179f9236447bbea1b9258b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:23 +0000
Subject: [PATCH 41/85] fix: slices are decoded from the tail of a message

---
 marshal/reader.go | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index b76a066..04c76d2 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -239,10 +239,7 @@ func (r *Reader) Uint8slValTail(v reflect.Value) {
 		return
 	}
 	if v.CanAddr() {
-		//l := len(r.Body)
-		//v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
-		p := v.Addr().Interface().(*[]byte)
-		*p = r.Tail()
+		v.SetBytes(r.Tail())
 	} else {
 		r.Uint8slVal(v)
 	}
@@ -254,7 +251,7 @@ func (r *Reader) Uint16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint16slVal(v)
 }
@@ -265,7 +262,7 @@ func (r *Reader) Uint32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint32slVal(v)
 }
@@ -276,7 +273,7 @@ func (r *Reader) Uint64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Uint64slVal(v)
 }
@@ -287,7 +284,7 @@ func (r *Reader) Int8slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body)
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int8slVal(v)
 }
@@ -298,7 +295,7 @@ func (r *Reader) Int16slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 2
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int16slVal(v)
 }
@@ -309,7 +306,7 @@ func (r *Reader) Int32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int32slVal(v)
 }
@@ -320,7 +317,7 @@ func (r *Reader) Int64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Int64slVal(v)
 }
@@ -331,7 +328,7 @@ func (r *Reader) Float32slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 4
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float32slVal(v)
 }
@@ -342,7 +339,7 @@ func (r *Reader) Float64slValTail(v reflect.Value) {
 	}
 	if v.CanAddr() {
 		l := len(r.Body) / 8
-		v.Set(reflect.MakeSlice(v.Type().Elem(), l, l))
+		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	}
 	r.Float64slVal(v)
 }
-- 
2.43.0


From 45efe3c52eb9ce7ddd127325e6c0a776249d652d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 42/85] fix: negative sizes are decoding errors

---
 marshal/reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index 04c76d2..d1903e9 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -133,7 +133,7 @@ func (r *Reader) Slice(sz int) (res []byte) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
@@ -146,7 +146,7 @@ func (r *Reader) String(sz int) (res string) {
 	if r.Err != nil {
 		return
 	}
-	if len(r.Body) < sz {
+	if sz < 0 || len(r.Body) < sz {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
-- 
2.43.0


From f79e78b6d8306ec1a8879c5fa9602836b78f67b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 43/85] fix: counts and sizes are checked against the message
 before memory is allocated, pointer to ber number is decoded

---
 marshal/reader_reflect.go | 86 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 76 insertions(+), 10 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 12a9c59..b4a85ce 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -59,7 +59,7 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.String(int(count))
 		}
 	case *[]int8:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(1); r.Err == nil {
 			*o = make([]int8, count)
 			r.Int8sl(*o)
 		}
@@ -68,42 +68,42 @@ func (r *Reader) Read(i interface{}) error {
 			*o = r.Slice(int(count))
 		}
 	case *[]int16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(2); r.Err == nil {
 			*o = make([]int16, count)
 			r.Int16sl(*o)
 		}
 	case *[]uint16:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(2); r.Err == nil {
 			*o = make([]uint16, count)
 			r.Uint16sl(*o)
 		}
 	case *[]int32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(4); r.Err == nil {
 			*o = make([]int32, count)
 			r.Int32sl(*o)
 		}
 	case *[]uint32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(4); r.Err == nil {
 			*o = make([]uint32, count)
 			r.Uint32sl(*o)
 		}
 	case *[]int64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(8); r.Err == nil {
 			*o = make([]int64, count)
 			r.Int64sl(*o)
 		}
 	case *[]uint64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(8); r.Err == nil {
 			*o = make([]uint64, count)
 			r.Uint64sl(*o)
 		}
 	case *[]float32:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(4); r.Err == nil {
 			*o = make([]float32, count)
 			r.Float32sl(*o)
 		}
 	case *[]float64:
-		if count = r.Uint32(); r.Err == nil {
+		if count = r.countOf(8); r.Err == nil {
 			*o = make([]float64, count)
 			r.Float64sl(*o)
 		}
@@ -175,6 +175,21 @@ func (r *Reader) Read(i interface{}) error {
 	return r.Err
 }
 
+// countOf reads a count of elements of sz bytes each
+func (r *Reader) countOf(sz int) (count uint32) {
+	count = r.Uint32()
+	r.enough(int(count), sz)
+	return
+}
+
+// enough checks that body could contain count elements, before memory is allocated for them
+func (r *Reader) enough(count, sz int) bool {
+	if r.Err == nil && (count < 0 || sz > 0 && count > len(r.Body)/sz) {
+		r.Err = fmt.Errorf("iproto.Reader: not enough data for %d elements", count)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadValueAuto(val reflect.Value) error {
 	if r.Err != nil {
 		return r.Err
@@ -393,6 +408,7 @@ type TReader struct {
 	Cnt        int
 	CntSet     func(reflect.Value, int) error
 	Flds       []FieldReader
+	min        int
 }
 
 func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
@@ -454,6 +470,9 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		t.AutoSize(r, v, sz)
 		return
 	}
+	if !r.enough(sz, 1) {
+		return
+	}
 	if ok, err := t.SetSize(v, sz); ok {
 		t.Fixed(r, v)
 		return
@@ -519,6 +538,42 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 	return nil
 }
 
+// minSize is a lower bound for a size of encoded value
+func (t *TReader) minSize() (min int) {
+	switch {
+	case t.Sz >= 0:
+		return t.Sz
+	case t.min > 0 || t.Implements:
+		return t.min
+	}
+	switch t.Type.Kind() {
+	case reflect.String, reflect.Slice:
+		return 4
+	case reflect.Array:
+		return t.Cnt * t.Elem.minSize()
+	case reflect.Struct:
+		for _, f := range t.Flds {
+			if f.SzRd != nil || f.CntRd != nil {
+				min++
+			} else if !f.NoSize {
+				min += f.minSize()
+			}
+		}
+	}
+	return min
+}
+
+// elemMin is a lower bound for a size of encoded element, if value is a slice
+func (t *TReader) elemMin() int {
+	for !t.Implements && t.Type.Kind() == reflect.Ptr {
+		t = t.Elem
+	}
+	if t.Implements || t.Type.Kind() != reflect.Slice {
+		return 0
+	}
+	return t.Elem.minSize()
+}
+
 func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int) {
 	if r.Err != nil {
 		return
@@ -531,6 +586,9 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 		t.AutoCount(r, v, cnt)
 		return
 	}
+	if !r.enough(cnt, t.elemMin()) {
+		return
+	}
 	if err := t.SetCount(v, cnt); err != nil {
 		r.Err = err
 		return
@@ -947,7 +1005,11 @@ func (t *TReader) FillSlice() {
 				v.Set(reflect.Append(v, z))
 				c = v.Cap()
 			}
+			was := len(r.Body)
 			t.Elem.Auto(r, v.Index(l-1))
+			if len(r.Body) == was && r.Err == nil {
+				r.Err = fmt.Errorf("iproto.Reader: element %+v of tail reads nothing", t.Elem.Type)
+			}
 		}
 	}
 }
@@ -1159,10 +1221,13 @@ Fields:
 				switch fld.Type.Elem().Kind() {
 				case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 					fr.TReader = &TReader{
-						Elem: BerReader,
+						Type: fld.Type,
+						Elem: &TReader{},
 						Sz:   -1,
 						Cnt:  -1,
 					}
+					*fr.TReader.Elem = *BerReader
+					fr.TReader.Elem.Type = fld.Type.Elem()
 					fr.TReader.FillPtr()
 					fr.TReader.fillautotail()
 				default:
@@ -1188,6 +1253,7 @@ var BerReader = &TReader{
 	Auto:       (*Reader).Uint64varVal,
 	Sz:         -1,
 	Cnt:        1,
+	min:        1,
 }
 
 func (r Reader) Done() bool {
-- 
2.43.0


From 1b44622d9c38a84d4737fa359616edd24d21d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 44/85] fix: size of slice should be divisible by size of its
 element

---
 marshal/reader_reflect.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b4a85ce..4eef5e8 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -914,6 +914,9 @@ func (t *TReader) FillSlice() {
 	if t.Elem.Sz > 0 {
 		t.SzSet = func(v reflect.Value, sz int) (bool, error) {
 			cnt := sz / t.Elem.Sz
+			if sz%t.Elem.Sz != 0 {
+				return false, fmt.Errorf("Size %d is not divisible by size of element %d", sz, t.Elem.Sz)
+			}
 			if v.Len() != cnt {
 				v.Set(reflect.MakeSlice(t.Type, cnt, cnt))
 			}
-- 
2.43.0


From 288c20462e507a8ca5734581854ce498e5244df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 45/85] fix: empty and nil interfaces with size or count do not
 panic

---
 marshal/reader_reflect.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 4eef5e8..4dabf10 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -433,13 +433,16 @@ func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 		if sz == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetSize(el, sz)
 				}
 			}
+			return true, nil
+		} else if v.IsNil() {
+			return false, fmt.Errorf("Could not read %d bytes into nil %+v", sz, t.Type)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
@@ -513,13 +516,16 @@ func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 		if cnt == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
-					v.Set(reflect.ValueOf(nil))
+					v.Set(reflect.Zero(t.Type))
 				} else {
 					el := v.Elem()
 					rd := ReaderFor(el.Type())
 					return rd.SetCount(el, cnt)
 				}
 			}
+			return nil
+		} else if v.IsNil() {
+			return fmt.Errorf("Could not read %d elements into nil %+v", cnt, t.Type)
 		} else {
 			el := v.Elem()
 			rd := ReaderFor(el.Type())
-- 
2.43.0


From 329051d49aaa0bf29beb866e3cb6de1f17260c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:24 +0000
Subject: [PATCH 46/85] fix: ber array is encoded without count, as it is
 decoded

---
 marshal/writer_reflect.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 4f02024..06d0a4b 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -824,6 +824,8 @@ Fields:
 					fw.TWriter = &TWriter{}
 					*fw.TWriter = *BerSlWriter
 					fw.TWriter.Type = fld.Type
+					fw.TWriter.WriteAuto = fw.TWriter.Write
+					fw.TWriter.Cnt = fld.Type.Len()
 				default:
 					log.Panicf("Could not apply 'ber' for array [%d]%+v", fld.Type.Len(), fld.Type.Elem())
 				}
-- 
2.43.0


From 0153ef3ac433719069a9496d41691bd00f7f9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 47/85] fix: ReadWithSize reads size of every value, and
 reports an unexpected one

---
 marshal/reader_reflect.go | 34 +++++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 4dabf10..1829dd5 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -216,47 +216,47 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 	}
 	switch o := i.(type) {
 	case *int8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(rs, 1) {
 			*o = r.Int8()
 		}
 	case *uint8:
-		if sz := rs(r); sz == 1 {
+		if r.sizeIs(rs, 1) {
 			*o = r.Uint8()
 		}
 	case *int16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(rs, 2) {
 			*o = r.Int16()
 		}
 	case *uint16:
-		if sz := rs(r); sz == 2 {
+		if r.sizeIs(rs, 2) {
 			*o = r.Uint16()
 		}
 	case *int32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs, 4) {
 			*o = r.Int32()
 		}
 	case *uint32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs, 4) {
 			*o = r.Uint32()
 		}
 	case *int64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs, 8) {
 			*o = r.Int64()
 		}
 	case *uint64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs, 8) {
 			*o = r.Uint64()
 		}
 	case *float32:
-		if sz := rs(r); sz == 4 {
+		if r.sizeIs(rs, 4) {
 			*o = r.Float32()
 		}
 	case *float64:
-		if sz := rs(r); sz == 8 {
+		if r.sizeIs(rs, 8) {
 			*o = r.Float64()
 		}
 	case []byte:
-		if sz := rs(r); sz == len(o) {
+		if r.sizeIs(rs, len(o)) {
 			r.Uint8sl(o)
 		}
 	case *[]byte:
@@ -272,16 +272,24 @@ func (r *Reader) ReadWithSize(i interface{}, rs func(*Reader) int) error {
 			val = val.Elem()
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Auto(r, val)
+			rd.WithSize(r, val, rs)
 		} else {
 			rt := val.Type()
 			rd := ReaderFor(rt)
-			rd.Fixed(r, val)
+			rd.WithSize(r, val, rs)
 		}
 	}
 	return r.Err
 }
 
+// sizeIs reads a size of value, and checks that it is equal to expected
+func (r *Reader) sizeIs(rs func(*Reader) int, sz int) bool {
+	if got := rs(r); r.Err == nil && got != sz {
+		r.Err = fmt.Errorf("Size doesn't match %d %d", got, sz)
+	}
+	return r.Err == nil
+}
+
 func (r *Reader) ReadValueWithSize(val reflect.Value, rs func(*Reader) int) error {
 	if r.Err != nil {
 		return r.Err
-- 
2.43.0


From 35850014e2e14b8c5c1152de2d119512c40d2a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:26 +0000
Subject: [PATCH 48/85] fix: WriteWithSize writes zero size of nil

---
 marshal/writer_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 06d0a4b..ce0bf9c 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -170,7 +170,7 @@ func (w *Writer) WriteTail(i interface{}) {
 func (w *Writer) WriteWithSize(i interface{}, ws func(*Writer, int)) {
 	switch o := i.(type) {
 	case nil:
-		return
+		ws(w, 0)
 	case uint8:
 		ws(w, 1)
 		w.Uint8(o)
-- 
2.43.0


From 11e13ad91e5bc4503b2222ddce48c2be5811c61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:03 +0000
Subject: [PATCH 49/85] fix: caches of readers and writers are not read while
 they are replaced

---
 marshal/reader_reflect.go | 23 ++++++++++++++++-------
 marshal/writer_reflect.go | 23 ++++++++++++++++-------
 sbox/reader.go            | 23 ++++++++++++++++-------
 sbox/result.go            |  4 ++--
 sbox/writer.go            | 23 ++++++++++++++++-------
 5 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 1829dd5..eea17a4 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 )
 
 func (r *Reader) Read(i interface{}) error {
@@ -371,22 +372,30 @@ func (r *Reader) ReadTail(i interface{}) error {
 	return r.Err
 }
 
-var rs = make(map[uintptr]*TReader)
-var rss = rs
+type readerMap map[uintptr]*TReader
+
+var rs atomic.Value // readerMap
+var rss readerMap
 var rsL sync.Mutex
 
+func getRs() readerMap {
+	m, _ := rs.Load().(readerMap)
+	return m
+}
+
 func ReaderFor(rt reflect.Type) (rd *TReader) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if rd = rs[rtid]; rd == nil {
+	if rd = getRs()[rtid]; rd == nil {
 		rsL.Lock()
 		defer rsL.Unlock()
-		if rd = rs[rtid]; rd == nil {
-			rss = make(map[uintptr]*TReader, len(ws)+1)
-			for t, r := range rs {
+		if rd = getRs()[rtid]; rd == nil {
+			known := getRs()
+			rss = make(readerMap, len(known)+1)
+			for t, r := range known {
 				rss[t] = r
 			}
 			rd = _reader(rt)
-			rs = rss
+			rs.Store(rss)
 		}
 	}
 	return
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index ce0bf9c..a036dc7 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 )
 
 func (w *Writer) Write(i interface{}) {
@@ -222,22 +223,30 @@ func (w *Writer) WriteValueWithSize(val reflect.Value, ws func(*Writer, int)) {
 	wr.WithSize(w, val, ws)
 }
 
-var ws = make(map[uintptr]*TWriter)
-var wss = ws
+type writerMap map[uintptr]*TWriter
+
+var ws atomic.Value // writerMap
+var wss writerMap
 var wsL sync.Mutex
 
+func getWs() writerMap {
+	m, _ := ws.Load().(writerMap)
+	return m
+}
+
 func WriterFor(rt reflect.Type) (wr *TWriter) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if wr = ws[rtid]; wr == nil {
+	if wr = getWs()[rtid]; wr == nil {
 		wsL.Lock()
 		defer wsL.Unlock()
-		if wr = ws[rtid]; wr == nil {
-			wss = make(map[uintptr]*TWriter, len(ws)+1)
-			for t, w := range ws {
+		if wr = getWs()[rtid]; wr == nil {
+			known := getWs()
+			wss = make(writerMap, len(known)+1)
+			for t, w := range known {
 				wss[t] = w
 			}
 			wr = _writer(rt)
-			ws = wss
+			ws.Store(wss)
 		}
 	}
 	return
diff --git a/sbox/reader.go b/sbox/reader.go
index 58b2c54..fb2c5f0 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -6,6 +6,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"github.com/funny-falcon/go-iproto/marshal"
 )
@@ -46,22 +47,30 @@ func ReadRawTuple(r *marshal.Reader, i interface{}) error {
 	return r.Err
 }
 
-var rs = make(map[uintptr]*TReader)
-var rss = rs
+type readerMap map[uintptr]*TReader
+
+var rs atomic.Value // readerMap
+var rss readerMap
 var rsL sync.Mutex
 
+func getRs() readerMap {
+	m, _ := rs.Load().(readerMap)
+	return m
+}
+
 func reader(rt reflect.Type) (rd *TReader) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if rd = rs[rtid]; rd == nil {
+	if rd = getRs()[rtid]; rd == nil {
 		rsL.Lock()
 		defer rsL.Unlock()
-		if rd = rs[rtid]; rd == nil {
-			rss = make(map[uintptr]*TReader, len(ws)+1)
-			for t, r := range rs {
+		if rd = getRs()[rtid]; rd == nil {
+			known := getRs()
+			rss = make(readerMap, len(known)+1)
+			for t, r := range known {
 				rss[t] = r
 			}
 			rd = _reader(rt)
-			rs = rss
+			rs.Store(rss)
 		}
 	}
 	return
diff --git a/sbox/result.go b/sbox/result.go
index b90b9ac..0a07c16 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -15,7 +15,7 @@ var readerCache unsafe.Pointer = unsafe.Pointer(&[2]marshal.Reader{})
 func ReadFirst(b []byte, v interface{}) (read bool, total int, err error) {
 	var t unsafe.Pointer
 	var r *[2]marshal.Reader
-	if t = readerCache; t != nil {
+	if t = atomic.LoadPointer(&readerCache); t != nil {
 		if atomic.CompareAndSwapPointer(&readerCache, t, nil) {
 			r = (*[2]marshal.Reader)(t)
 			*r = [2]marshal.Reader{{Body: b}, {}}
@@ -42,7 +42,7 @@ Got:
 func ReadMany(b []byte, v interface{}) (read, total int, err error) {
 	var t unsafe.Pointer
 	var r *[2]marshal.Reader
-	if t = readerCache; t != nil {
+	if t = atomic.LoadPointer(&readerCache); t != nil {
 		if atomic.CompareAndSwapPointer(&readerCache, t, nil) {
 			r = (*[2]marshal.Reader)(t)
 			*r = [2]marshal.Reader{{Body: b}, {}}
diff --git a/sbox/writer.go b/sbox/writer.go
index 54a7b48..5201017 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -5,6 +5,7 @@ import (
 	"reflect"
 	"strings"
 	"sync"
+	"sync/atomic"
 
 	"github.com/funny-falcon/go-iproto/marshal"
 )
@@ -77,22 +78,30 @@ func WriteTuple(w *marshal.Writer, i interface{}) {
 	return
 }
 
-var ws = make(map[uintptr]*TWriter)
-var wss = ws
+type writerMap map[uintptr]*TWriter
+
+var ws atomic.Value // writerMap
+var wss writerMap
 var wsL sync.Mutex
 
+func getWs() writerMap {
+	m, _ := ws.Load().(writerMap)
+	return m
+}
+
 func writer(rt reflect.Type) (wr *TWriter) {
 	rtid := reflect.ValueOf(rt).Pointer()
-	if wr = ws[rtid]; wr == nil {
+	if wr = getWs()[rtid]; wr == nil {
 		wsL.Lock()
 		defer wsL.Unlock()
-		if wr = ws[rtid]; wr == nil {
-			wss = make(map[uintptr]*TWriter, len(ws)+1)
-			for t, w := range ws {
+		if wr = getWs()[rtid]; wr == nil {
+			known := getWs()
+			wss = make(writerMap, len(known)+1)
+			for t, w := range known {
 				wss[t] = w
 			}
 			wr = _writer(rt)
-			ws = wss
+			ws.Store(wss)
 		}
 	}
 	return
-- 
2.43.0


From c71e85d84016dc6fcb8ccfe2de6f60f808d69c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:04 +0000
Subject: [PATCH 50/85] fix: sbox tail and tailsplit are written and read field
 by field

---
 marshal/reader_reflect.go |  2 +-
 sbox/reader.go            | 12 ++++++------
 sbox/writer.go            | 12 ++++++------
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index eea17a4..f4b9f8c 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -1094,7 +1094,7 @@ Fields:
 		if nosize {
 			log.Panicf("Only last field could be marked as size(no) or cnt(no) %+v", rt)
 		}
-		fr := FieldReader{I: i}
+		fr := FieldReader{I: i, Tag: fld.Tag}
 		ipro := fld.Tag.Get("iproto")
 		var ber bool
 
diff --git a/sbox/reader.go b/sbox/reader.go
index fb2c5f0..3a7f017 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -249,7 +249,7 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		tail := l - len(flds) + 1
 		last := flds[len(flds)-1]
 		if sw.Tail == TailSplit {
-			llast := len(last.Flds)
+			llast := len(last.Elem.Flds)
 			tail /= llast
 		}
 		last.TReader.SetCount(v.Field(last.I), tail)
@@ -274,22 +274,22 @@ func (sw *TReader) structRead(r *marshal.Reader, k int, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l && n+i < k; i++ {
 			val := fv.Index(i)
-			fs.WithSize(r, val, (*marshal.Reader).Intvar)
+			fs.Elem.WithSize(r, val, (*marshal.Reader).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TReader.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl && n+i*fl+j < k; j++ {
-				fss[i].WithSize(r, str.Field(i), (*marshal.Reader).Intvar)
+				fss[j].WithSize(r, str.Field(fss[j].I), (*marshal.Reader).Intvar)
 			}
 		}
 	}
diff --git a/sbox/writer.go b/sbox/writer.go
index 5201017..045e00c 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -184,7 +184,7 @@ func (sw *TWriter) structCnt(v reflect.Value) int {
 		return len(flds) - 1 + v.Field(flds[len(flds)-1].I).Len()
 	case TailSplit:
 		last := flds[len(flds)-1]
-		return len(flds) - 1 + v.Field(last.I).Len()*len(last.TWriter.Flds)
+		return len(flds) - 1 + v.Field(last.I).Len()*len(last.Elem.Flds)
 	}
 	return 0
 }
@@ -204,22 +204,22 @@ func (sw *TWriter) structWriter(w *marshal.Writer, v reflect.Value) {
 	case NoTail:
 	case Tail:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
 		for i := 0; i < l; i++ {
 			val := fv.Index(i)
-			fs.WithSize(w, val, (*marshal.Writer).Intvar)
+			fs.Elem.WithSize(w, val, (*marshal.Writer).Intvar)
 		}
 	case TailSplit:
 		fs := &flds[n]
-		fv := v.Field(n)
+		fv := v.Field(fs.I)
 		l := fv.Len()
-		fss := fs.TWriter.Flds
+		fss := fs.Elem.Flds
 		fl := len(fss)
 		for i := 0; i < l; i++ {
 			str := fv.Index(i)
 			for j := 0; j < fl; j++ {
-				fss[i].WithSize(w, str.Field(i), (*marshal.Writer).Intvar)
+				fss[j].WithSize(w, str.Field(fss[j].I), (*marshal.Writer).Intvar)
 			}
 		}
 	}
-- 
2.43.0


From 4f60ce3a6a5a23a1cc1f5dc6e6e1c868782337a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:05 +0000
Subject: [PATCH 51/85] fix: tuple with more fields than array has does not
 panic

---
 sbox/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index 3a7f017..c44f978 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -95,7 +95,7 @@ type TReader struct {
 
 func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 	if l := r.IntUint32(); l >= v.Len() {
-		for i := 0; i < l; i++ {
+		for i := 0; i < v.Len(); i++ {
 			t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
 		}
 	} else {
@@ -110,6 +110,8 @@ func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
 	} else if l < v.Len() {
 		r.Err = fmt.Errorf("Wrong field count: expect %d, got %d", v.Len(), l)
 		return
+	} else {
+		l = v.Len()
 	}
 	for i := 0; i < l; i++ {
 		t.Reader.Elem.WithSize(r, v.Index(i), (*marshal.Reader).Intvar)
-- 
2.43.0


From 20677536190a201d23c7bbeba5247e65830ceb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 52/85] fix: tuples are read into elements of not settable
 slice

---
 sbox/result.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 0a07c16..f71c8b4 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -86,7 +86,7 @@ func readFixedArray(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	tel := v.Type().Elem()
 	switch tel.Kind() {
 	case reflect.Slice, reflect.Ptr:
-		rd := reader(v.Type())
+		rd := reader(tel)
 		ln := v.Len()
 		var i int
 		for i = 0; i < l && i < ln; i++ {
-- 
2.43.0


From 465bea89a58b2345cb1b7ef938cc5c6e286730f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:07 +0000
Subject: [PATCH 53/85] fix: malformed tuple does not spoil following ones, and
 is reported by ReadMany

---
 sbox/result.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index f71c8b4..639125b 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -55,7 +55,9 @@ Got:
 
 	read = readInterface(r, reflect.ValueOf(v), total)
 
-	err = r[0].Err
+	if err = r[0].Err; err == nil {
+		err = r[1].Err
+	}
 	atomic.StorePointer(&readerCache, unsafe.Pointer(r))
 	return
 }
@@ -190,6 +192,8 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 		return r[0].Err
 	}
 	body := r[1].Body
+	first := r[1].Err
+	r[1].Err = nil
 	if rd == nil {
 		rd = reader(v.Type())
 	}
@@ -197,7 +201,9 @@ func oneTuple(r *[2]marshal.Reader, v reflect.Value, rd *TReader) error {
 	if r[1].Err != nil {
 		log.Printf("oneTuple read error: %s %+v [% x]", r[1].Err, v.Interface(), body)
 	}
-	//r[0].Err = r[1].Err
-	//return r[0].Err
+	// report the first error, but go on with other tuples
+	if first != nil {
+		r[1].Err = first
+	}
 	return nil
 }
-- 
2.43.0


From b80381ee28dc45bfb944bab9716b0ccddbe94d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:08 +0000
Subject: [PATCH 54/85] fix: ReadMany into single value reads nothing from
 empty result

---
 sbox/result.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbox/result.go b/sbox/result.go
index 639125b..5f7ee7f 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -74,7 +74,9 @@ func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64,
 			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 			reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
-			oneTuple(r, el, nil)
+			if l == 0 || oneTuple(r, el, nil) != nil {
+				return 0
+			}
 			return 1
 		}
 	case reflect.Array, reflect.Slice:
-- 
2.43.0


From f12f63fb209696ad23af4e40a0e1ec2427fc47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 55/85] fix: ReadFirst reports truncated result

---
 sbox/result.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sbox/result.go b/sbox/result.go
index 5f7ee7f..dd5571f 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -27,14 +27,14 @@ Got:
 	total = r[0].IntUint32()
 	if total > 0 {
 		sz := r[0].IntUint32()
-		if r[0].Err == nil {
-			r[1].Body = r[0].Slice(sz + 4)
+		if r[1].Body = r[0].Slice(sz + 4); r[0].Err == nil {
 			err = ReadRawTuple(&r[1], v)
 			read = true
-		} else {
-			err = r[0].Err
 		}
 	}
+	if r[0].Err != nil {
+		err = r[0].Err
+	}
 	atomic.StorePointer(&readerCache, unsafe.Pointer(r))
 	return
 }
-- 
2.43.0


From 9b96a487271f50dd0351e857690f79745d516255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 56/85] fix: ReadSizedTuple reports truncated tuple

---
 sbox/reader.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sbox/reader.go b/sbox/reader.go
index c44f978..5fd4707 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -31,7 +31,9 @@ func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
 		rd := marshal.Reader{Body: r.Slice(sz + 4)}
-		r.Err = ReadRawTuple(&rd, i)
+		if r.Err == nil {
+			r.Err = ReadRawTuple(&rd, i)
+		}
 	}
 	return r.Err
 }
-- 
2.43.0


From 3e94bb9293074993831154a6a727a4632dab412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:10 +0000
Subject: [PATCH 57/85] fix: count of select keys is equal to number of written
 keys

---
 sbox/select.go | 32 +++++++++-----------------------
 1 file changed, 9 insertions(+), 23 deletions(-)

diff --git a/sbox/select.go b/sbox/select.go
index 279280d..f67169f 100644
--- a/sbox/select.go
+++ b/sbox/select.go
@@ -66,11 +66,7 @@ func CountKeys(keys interface{}) int {
 	case [][][]byte:
 		return len(k)
 	case []interface{}:
-		sum := 0
-		for _, v := range k {
-			sum += CountKeys(v)
-		}
-		return sum
+		return len(k)
 	default:
 		v := reflect.ValueOf(k)
 		if v.Kind() == reflect.Ptr {
@@ -88,7 +84,7 @@ func CountKeysValues(v reflect.Value) int {
 		reflect.Struct, reflect.String:
 		return 1
 	case reflect.Array, reflect.Slice:
-		if v.Kind() == reflect.Uint8 {
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			return 1
 		}
 		return v.Len()
@@ -160,25 +156,15 @@ func WriteKeysValues(w *marshal.Writer, v reflect.Value) {
 		wr := writer(v.Type())
 		wr.Write(w, v)
 	case reflect.Array, reflect.Slice:
-		l := v.Len()
-		switch v.Kind() {
-		case reflect.Uint8:
+		if v.Type().Elem().Kind() == reflect.Uint8 {
 			wr := writer(v.Type())
 			wr.Write(w, v)
-		case reflect.Struct, reflect.Array, reflect.Slice,
-			reflect.Uint16, reflect.Uint32, reflect.Uint64,
-			reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
-			reflect.Float32, reflect.Float64, reflect.Ptr:
-			wr := writer(v.Type().Elem())
-			for i := 0; i < l; i++ {
-				wr.Write(w, v.Index(i))
-			}
-		case reflect.Interface:
-			for i := 0; i < l; i++ {
-				val := v.Index(i)
-				wr := writer(val.Type())
-				wr.Write(w, val)
-			}
+			return
+		}
+		wr := writer(v.Type().Elem())
+		l := v.Len()
+		for i := 0; i < l; i++ {
+			wr.Write(w, v.Index(i))
 		}
 	}
 }
-- 
2.43.0


From f6abac342813c49682474e8ef34b0890ade72667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:11 +0000
Subject: [PATCH 58/85] fix: update operation without value does not panic

---
 sbox/modify.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sbox/modify.go b/sbox/modify.go
index 7227f9f..6b694d7 100644
--- a/sbox/modify.go
+++ b/sbox/modify.go
@@ -120,6 +120,8 @@ func (o Op) IWrite(w *marshal.Writer) {
 		w.Write(opmap[o.Op])
 	}
 	switch v := o.Val.(type) {
+	case nil:
+		w.Int8(0)
 	case uint32:
 		w.Int8(4)
 		w.Uint32(v)
-- 
2.43.0


From 764c290203c855f762c73661106bd7c2da952c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:12 +0000
Subject: [PATCH 59/85] fix: sbox checks counts of tuples and fields against
 the message before memory is allocated

---
 sbox/reader.go | 15 +++++++++++++++
 sbox/result.go |  7 +++++++
 2 files changed, 22 insertions(+)

diff --git a/sbox/reader.go b/sbox/reader.go
index 5fd4707..df900a7 100644
--- a/sbox/reader.go
+++ b/sbox/reader.go
@@ -27,6 +27,15 @@ func oneFieldTuple(r *marshal.Reader, sz int) bool {
 	return false
 }
 
+// enoughFields checks count of fields before memory is allocated for them:
+// every field takes at least a byte
+func enoughFields(r *marshal.Reader, l int) bool {
+	if r.Err == nil && l > len(r.Body) {
+		r.Err = fmt.Errorf("Wrong field count %d: only %d bytes left", l, len(r.Body))
+	}
+	return r.Err == nil
+}
+
 func ReadSizedTuple(r *marshal.Reader, i interface{}) error {
 	sz := r.IntUint32()
 	if r.Err == nil {
@@ -107,6 +116,9 @@ func (t *TReader) sliceFixed(r *marshal.Reader, v reflect.Value) {
 
 func (t *TReader) sliceAuto(r *marshal.Reader, v reflect.Value) {
 	l := r.IntUint32()
+	if !enoughFields(r, l) {
+		return
+	}
 	if v.CanSet() {
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 	} else if l < v.Len() {
@@ -237,6 +249,9 @@ func (sw *TReader) structAuto(r *marshal.Reader, v reflect.Value) {
 		return
 	}
 	l := r.IntUint32()
+	if !enoughFields(r, l) {
+		return
+	}
 	flds := sw.Reader.Flds
 	switch sw.Tail {
 	/*case NoTail:
diff --git a/sbox/result.go b/sbox/result.go
index dd5571f..706733f 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -1,6 +1,7 @@
 package sbox
 
 import (
+	"fmt"
 	"log"
 	"reflect"
 	"sync/atomic"
@@ -155,6 +156,12 @@ func readSlice(r *[2]marshal.Reader, v reflect.Value, l int) int {
 		reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
 		reflect.Float32, reflect.Float64, reflect.Struct, reflect.String, reflect.Ptr:
 		rd := reader(tel)
+		if r[0].Err == nil && l > len(r[0].Body)/8 {
+			r[0].Err = fmt.Errorf("Wrong tuple count %d: only %d bytes left", l, len(r[0].Body))
+		}
+		if r[0].Err != nil {
+			return 0
+		}
 		v.Set(reflect.MakeSlice(v.Type(), l, l))
 		var i int
 		for ; i < l; i++ {
-- 
2.43.0


From 9f931ecb2e506be1bb7978a32bd4c521d769ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:14 +0000
Subject: [PATCH 60/85] fix: ISetCount of pointer receiver is used

---
 marshal/reader_reflect.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index f4b9f8c..d171237 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -683,7 +683,7 @@ func (t *TReader) Fill() {
 				return i.(ISetSizer).ISetSize(i, s)
 			}
 		}
-		if rt.Implements(isetcounter) {
+		if p.Implements(isetcounter) {
 			t.CntSet = func(v reflect.Value, s int) error {
 				i := v.Addr().Interface()
 				return i.(ISetCounter).ISetCount(i, s)
-- 
2.43.0


From 1682053e19aefa3428bec5c3569f963c70e04d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:15 +0000
Subject: [PATCH 61/85] fix: value which panics during encoding does not spoil
 body of the next request

---
 generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/generator.go b/generator.go
index 8f3ecb5..5a45578 100644
--- a/generator.go
+++ b/generator.go
@@ -36,6 +36,7 @@ func (gen *RGenerator) Request(id uint32, msg RequestType, val interface{}) (req
 	req.Msg = msg
 	var ok bool
 	if req.Body, ok = val.(Body); !ok {
+		gen.w.Reset() // previous value could panic in the middle
 		gen.w.Write(val)
 		req.Body = gen.w.Written()
 	}
-- 
2.43.0


From 39d2a469379618cf7879f731d4beaa26c9f0a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:38 +0000
Subject: [PATCH 62/85] fix: append to a decoded byte string does not overwrite
 what follows it in the message

---
 marshal/reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/marshal/reader.go b/marshal/reader.go
index d1903e9..f6438c5 100644
--- a/marshal/reader.go
+++ b/marshal/reader.go
@@ -137,7 +137,7 @@ func (r *Reader) Slice(sz int) (res []byte) {
 		r.Err = fmt.Errorf("iproto.Reader: not enough data for Slice(%d)", sz)
 		return
 	}
-	res = r.Body[:sz]
+	res = r.Body[:sz:sz]
 	r.Body = r.Body[sz:]
 	return
 }
-- 
2.43.0


From e8055bda67c35fa166d4a8a3353fcdcb6c025a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:48 +0000
Subject: [PATCH 63/85] fix: stream which ends inside of a body does not panic

---
 net/slice_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index f77e21b..91cd2b1 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -43,7 +43,7 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 		err = nil
 	} else if l > 0 && err == io.EOF {
 		res = buf[:l]
-		sl.buf = buf[l:]
+		sl.buf = nil
 		err = io.ErrUnexpectedEOF
 	}
 	return
-- 
2.43.0


From 94afc4238fc93b6840e7c1c85525171cfa7fe241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 64/85] fix: counted pointer to a string is decoded, and counts
 of what interfaces hold are checked against the message

---
 marshal/reader_reflect.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index d171237..f0e1812 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -604,7 +604,11 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	if cntrd == nil {
 		cntrd = (*Reader).IntUint32
 	}
-	cnt := cntrd(r)
+	t.readCounted(r, v, cntrd(r))
+}
+
+// readCounted reads a value which count is already read
+func (t *TReader) readCounted(r *Reader, v reflect.Value, cnt int) {
 	if t.AutoCount != nil {
 		t.AutoCount(r, v, cnt)
 		return
@@ -612,6 +616,19 @@ func (t *TReader) WithCount(r *Reader, v reflect.Value, cntrd func(*Reader) int)
 	if !r.enough(cnt, t.elemMin()) {
 		return
 	}
+	switch {
+	case t.Implements || cnt == 0:
+	case t.Type.Kind() == reflect.Interface && !v.IsNil():
+		el := v.Elem()
+		ReaderFor(el.Type()).readCounted(r, el, cnt)
+		return
+	case t.Type.Kind() == reflect.Ptr && t.Elem.AutoCount != nil:
+		if v.IsNil() {
+			v.Set(reflect.New(t.Elem.Type))
+		}
+		t.Elem.AutoCount(r, v.Elem(), cnt)
+		return
+	}
 	if err := t.SetCount(v, cnt); err != nil {
 		r.Err = err
 		return
-- 
2.43.0


From 7f876119d0c0df8079432bb911c7143fc4f28b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 65/85] fix: sized and counted pointers to values with own
 encoders do not panic

---
 marshal/reader_reflect.go | 29 +++++++++++++++++++++++++++--
 marshal/writer_reflect.go | 23 +++++++++++++++++------
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index f0e1812..b74f8a9 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -431,6 +431,15 @@ type TReader struct {
 func (t *TReader) SetSize(v reflect.Value, sz int) (bool, error) {
 	switch t.Type.Kind() {
 	case reflect.Ptr:
+		if t.Implements {
+			if sz == 0 && v.CanSet() {
+				v.Set(reflect.Zero(t.Type))
+				return true, nil
+			} else if v.IsNil() {
+				v.Set(reflect.New(t.Type.Elem()))
+			}
+			break
+		}
 		if sz == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
@@ -494,7 +503,7 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 		return
 	}
 	if ok, err := t.SetSize(v, sz); ok {
-		t.Fixed(r, v)
+		t.readNotNil(r, v)
 		return
 	} else if err != nil {
 		r.Err = err
@@ -513,6 +522,15 @@ func (t *TReader) WithSize(r *Reader, v reflect.Value, szrd func(*Reader) int) {
 func (t *TReader) SetCount(v reflect.Value, cnt int) error {
 	switch t.Type.Kind() {
 	case reflect.Ptr:
+		if t.Implements {
+			if cnt == 0 && v.CanSet() {
+				v.Set(reflect.Zero(t.Type))
+				return nil
+			} else if v.IsNil() {
+				v.Set(reflect.New(t.Type.Elem()))
+			}
+			break
+		}
 		if cnt == 0 {
 			if !v.IsNil() {
 				if v.CanSet() {
@@ -633,7 +651,14 @@ func (t *TReader) readCounted(r *Reader, v reflect.Value, cnt int) {
 		r.Err = err
 		return
 	}
-	t.Fixed(r, v)
+	t.readNotNil(r, v)
+}
+
+// readNotNil reads nothing into nil pointer, even if pointer has own IRead
+func (t *TReader) readNotNil(r *Reader, v reflect.Value) {
+	if v.Kind() != reflect.Ptr || !v.IsNil() {
+		t.Fixed(r, v)
+	}
 }
 
 func (t *TReader) fillautotail() {
diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index a036dc7..98b1075 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -290,8 +290,10 @@ func (t *TWriter) Size(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if !t.Implements {
+			t = t.Elem
+			v = v.Elem()
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
@@ -316,7 +318,7 @@ func (t *TWriter) WithSize(w *Writer, v reflect.Value, szwr func(*Writer, int))
 	}
 	if sz >= 0 {
 		szwr(w, sz)
-		t.Write(w, v)
+		t.writeNotNil(w, v)
 	} else {
 		var tw *Writer
 		select {
@@ -338,8 +340,10 @@ func (t *TWriter) Count(v reflect.Value) int {
 		if v.IsNil() {
 			return 0
 		}
-		t = t.Elem
-		v = v.Elem()
+		if !t.Implements {
+			t = t.Elem
+			v = v.Elem()
+		}
 	case reflect.Interface:
 		if v.IsNil() {
 			return 0
@@ -365,7 +369,14 @@ func (t *TWriter) WithCount(w *Writer, v reflect.Value, cntwr func(*Writer, int)
 		cntwr = (*Writer).IntUint32
 	}
 	cntwr(w, cnt)
-	t.Write(w, v)
+	t.writeNotNil(w, v)
+}
+
+// writeNotNil writes nothing for nil pointer, even if pointer has own IWrite
+func (t *TWriter) writeNotNil(w *Writer, v reflect.Value) {
+	if v.Kind() != reflect.Ptr || !v.IsNil() {
+		t.Write(w, v)
+	}
 }
 
 func (t *TWriter) fillauto() {
-- 
2.43.0


From 958519cc7064588b0fc828f5d2b88a65255b869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:15 +0000
Subject: [PATCH 66/85] fix: pointers to slices are decoded with the count they
 are encoded with

---
 marshal/reader_reflect.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index b74f8a9..6b4b06c 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -674,6 +674,13 @@ func (t *TReader) fillautotail() {
 		t.Auto = func(r *Reader, v reflect.Value) {
 			t.WithCount(r, v, (*Reader).IntUint32)
 		}
+	} else if t.Type.Kind() == reflect.Ptr && !t.Implements {
+		// counts are written for what pointers point to
+		t.Auto = func(r *Reader, v reflect.Value) {
+			if !v.IsNil() {
+				t.Elem.Auto(r, v.Elem())
+			}
+		}
 	} else {
 		t.Auto = t.Fixed
 	}
-- 
2.43.0


From 12814f1205b78d357a0f92941b5c54645bd0f1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:32 +0000
Subject: [PATCH 67/85] fix: slices of values of unknown size are allocated as
 they are read

---
 marshal/reader_reflect.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 6b4b06c..fc3aa87 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -640,11 +640,14 @@ func (t *TReader) readCounted(r *Reader, v reflect.Value, cnt int) {
 		el := v.Elem()
 		ReaderFor(el.Type()).readCounted(r, el, cnt)
 		return
-	case t.Type.Kind() == reflect.Ptr && t.Elem.AutoCount != nil:
+	case t.Type.Kind() == reflect.Ptr:
 		if v.IsNil() {
 			v.Set(reflect.New(t.Elem.Type))
 		}
-		t.Elem.AutoCount(r, v.Elem(), cnt)
+		t.Elem.readCounted(r, v.Elem(), cnt)
+		return
+	case t.Type.Kind() == reflect.Slice && v.Len() != cnt && t.Elem.minSize() == 0:
+		t.readGrowing(r, v, cnt)
 		return
 	}
 	if err := t.SetCount(v, cnt); err != nil {
@@ -654,6 +657,24 @@ func (t *TReader) readCounted(r *Reader, v reflect.Value, cnt int) {
 	t.readNotNil(r, v)
 }
 
+// readGrowing reads elements, which say nothing about their size, one by one:
+// memory is allocated for those which are really present
+func (t *TReader) readGrowing(r *Reader, v reflect.Value, cnt int) {
+	const maxEmpty = 0x3ff
+	v.Set(reflect.MakeSlice(t.Type, 0, 0))
+	z := reflect.Zero(t.Elem.Type)
+	for i, empty := 0, 0; i < cnt && r.Err == nil; i++ {
+		was := len(r.Body)
+		v.Set(reflect.Append(v, z))
+		t.Elem.Auto(r, v.Index(i))
+		if len(r.Body) == was && r.Err == nil {
+			if empty++; empty > maxEmpty {
+				r.Err = fmt.Errorf("iproto.Reader: too many empty elements of %+v: %d", t.Type, cnt)
+			}
+		}
+	}
+}
+
 // readNotNil reads nothing into nil pointer, even if pointer has own IRead
 func (t *TReader) readNotNil(r *Reader, v reflect.Value) {
 	if v.Kind() != reflect.Ptr || !v.IsNil() {
-- 
2.43.0


From 5412a587f43a557c9fd8e1f0ca2f0ca306645f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:07 +0000
Subject: [PATCH 68/85] fix: results are read into lists of pointers

---
 sbox/result.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sbox/result.go b/sbox/result.go
index 706733f..9090d7a 100644
--- a/sbox/result.go
+++ b/sbox/result.go
@@ -65,6 +65,10 @@ Got:
 
 func readInterface(r *[2]marshal.Reader, v reflect.Value, l int) int {
 	switch v.Kind() {
+	case reflect.Interface:
+		if !v.IsNil() {
+			return readInterface(r, v.Elem(), l)
+		}
 	case reflect.Ptr:
 		el := v.Elem()
 		switch el.Kind() {
-- 
2.43.0


From 6aae208fc78190503059eb3fec480b0b78d8b5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:58 +0000
Subject: [PATCH 69/85] fix: tails of variable-length numbers are written

---
 sbox/writer.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sbox/writer.go b/sbox/writer.go
index 045e00c..26edd38 100644
--- a/sbox/writer.go
+++ b/sbox/writer.go
@@ -230,21 +230,22 @@ func (t *TWriter) FillStruct() {
 	for i := range t.Writer.Flds {
 		fld := &t.Writer.Flds[i]
 		ipro := fld.Tag.Get("sbox")
+		ft := t.Writer.Type.Field(fld.I).Type
 
 		for _, m := range strings.Split(ipro, ",") {
 			if t.Tail != NoTail {
 				log.Panicf("Sbox Tail could be only last field in a struct %+v", t.Writer.Type)
 			}
 			if m == "tail" {
-				if fld.Type.Kind() != reflect.Slice {
+				if ft.Kind() != reflect.Slice {
 					log.Panicf("Could apply sbox:tail only for slices")
 				}
 				t.Tail = Tail
 			} else if m == "tailsplit" {
-				if fld.Type.Kind() != reflect.Slice {
+				if ft.Kind() != reflect.Slice {
 					log.Panicf("Could apply sbox:tailsplit only for slices")
 				}
-				if fld.Type.Elem().Kind() != reflect.Struct {
+				if ft.Elem().Kind() != reflect.Struct {
 					log.Panicf("Could apply sbox:tailsplit only for slices of struct")
 				}
 				t.Tail = TailSplit
-- 
2.43.0


From 3ce52ae70f865cc3149d1555f5bfbfc5e33fc686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:26 +0000
Subject: [PATCH 70/85] fix: AnyConnected does not race with the loop of a
 client

---
 net/client/server.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index 95baaed..98e3240 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -2,6 +2,7 @@ package client
 
 import (
 	"log"
+	"sync/atomic"
 	"time"
 
 	"github.com/funny-falcon/go-iproto"
@@ -40,7 +41,7 @@ type Server struct {
 	curId       uint64
 	needConns   int
 	dialing     int
-	established int
+	established int32 // changed by Loop only, read by anyone
 	dying       int
 
 	connErr     chan connection.Error
@@ -131,7 +132,7 @@ func (serv *Server) Loop() {
 			serv.fixConnections()
 		}
 
-		if serv.exiting && serv.established+serv.dialing == 0 {
+		if serv.exiting && serv.established == 0 && serv.dialing == 0 {
 			if serv.Standalone() && !serv.drained {
 				/* no one takes requests from the queue any more */
 				serv.drained = true
@@ -162,7 +163,7 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		serv.dialing--
 		if connErr.Error == nil {
 			log.Printf("%s: established connection %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-			serv.established++
+			atomic.AddInt32(&serv.established, 1)
 		} else {
 			now := time.Now()
 			if now.Sub(serv.lastErrTime) > 2*time.Second {
@@ -180,7 +181,7 @@ func (serv *Server) onConnError(connErr connection.Error) {
 		}
 	case connection.Write:
 		log.Printf("%s: write side closed %v -> %v", serv.conf.Name, conn.LocalAddr(), conn.RemoteAddr())
-		serv.established--
+		atomic.AddInt32(&serv.established, -1)
 		serv.dying++
 		delete(serv.active, conn.Id)
 		if serv.established == 0 && serv.Standalone() {
@@ -217,5 +218,5 @@ Loop:
 }
 
 func (serv *Server) AnyConnected() bool {
-	return serv.established > 0
+	return atomic.LoadInt32(&serv.established) > 0
 }
-- 
2.43.0


From e0d528defd65e60c3bc51f21030d5830b2ab6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:21 +0000
Subject: [PATCH 71/85] fix: stopping a server again could block forever with
 its lock held

---
 net/server/server.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/net/server/server.go b/net/server/server.go
index 5526b16..b8880d2 100644
--- a/net/server/server.go
+++ b/net/server/server.go
@@ -65,7 +65,11 @@ func (serv *Server) Run() (err error) {
 func (serv *Server) Stop() {
 	serv.Lock()
 	serv.closing = true
-	serv.stop <- true
+	select {
+	case serv.stop <- true:
+	default:
+		/* it is already asked to stop, or even has stopped */
+	}
 	serv.Unlock()
 	serv.listener.Close()
 }
-- 
2.43.0


From 0a844865ac532ae26858dd0e340e87582b414a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:42 +0000
Subject: [PATCH 72/85] fix: changing count of connections of a stopped client
 could block forever

---
 net/client/server.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/net/client/server.go b/net/client/server.go
index 98e3240..ae66ed0 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -46,6 +46,7 @@ type Server struct {
 
 	connErr     chan connection.Error
 	actions     chan action
+	done        chan bool // closed when Loop is over
 	exiting     bool
 	drained     bool
 	lastErrTime time.Time
@@ -79,6 +80,7 @@ func (cfg ServerConfig) NewServer() (serv *Server) {
 		},
 		connErr:     make(chan connection.Error, 4),
 		actions:     make(chan action, 1),
+		done:        make(chan bool),
 		connections: make(map[uint64]*connection.Connection),
 		active:      make(map[uint64]*connection.Connection),
 	}
@@ -115,6 +117,7 @@ func (serv *Server) Name() string {
 }
 
 func (serv *Server) Loop() {
+	defer close(serv.done)
 	serv.needConns = serv.Connections
 	serv.reconnecter = time.NewTicker(time.Second / 5)
 	serv.fixConnections()
@@ -198,7 +201,11 @@ func (serv *Server) onConnError(connErr connection.Error) {
 }
 
 func (serv *Server) SetConnections(n int) {
-	serv.actions <- action{kind: setServ, servs: n}
+	select {
+	case serv.actions <- action{kind: setServ, servs: n}:
+	case <-serv.done:
+		/* there is nobody to do it */
+	}
 }
 
 func (serv *Server) AllDisconnected() {
-- 
2.43.0


From ca1f07ee13f1135b2eee0b4dacafa135f1401bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:06 +0000
Subject: [PATCH 73/85] fix: value in field of interface type was read without
 count it is written with

---
 marshal/reader_reflect.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index fc3aa87..466c5f2 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -691,7 +691,9 @@ func (t *TReader) fillautotail() {
 	if t.Tail == nil {
 		t.Tail = t.Fixed
 	}
-	if t.CntSet != nil {
+	if t.Auto != nil {
+		// value in interface is read as it is written
+	} else if t.CntSet != nil {
 		t.Auto = func(r *Reader, v reflect.Value) {
 			t.WithCount(r, v, (*Reader).IntUint32)
 		}
-- 
2.43.0


From 12a71157010b9b2f809c73bbe126521a834b4760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:38 +0000
Subject: [PATCH 74/85] fix: answer to the first ping of a connection is waited
 for not longer than DialTimeout

---
 net/client/connection/connection.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/net/client/connection/connection.go b/net/client/connection/connection.go
index c18a58f..7b3aa06 100644
--- a/net/client/connection/connection.go
+++ b/net/client/connection/connection.go
@@ -115,11 +115,14 @@ func (conn *Connection) Loop() {
 		conn.conn = netconn.(nt.NetConn)
 		conn.reader.Init(conn.conn, conn.ReadTimeout, conn.RetCodeType)
 		conn.writer.Init(conn.conn, conn.WriteTimeout, conn.RetCodeType)
+		/* answer to the first ping is waited for not longer than for connection itself */
+		netconn.SetDeadline(time.Now().Add(dialer.Timeout))
 		if err = conn.writer.Ping(); err == nil {
 			if err = conn.writer.Flush(); err == nil {
 				err = conn.reader.ReadPing()
 			}
 		}
+		netconn.SetDeadline(time.Time{})
 		if err != nil {
 			conn.conn.Close()
 			conn.ConnErr <- Error{conn, Dial, err}
-- 
2.43.0


From 8e6607f7818aa742aab0d84ee763e700e7644366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:22 +0000
Subject: [PATCH 75/85] fix: queue of a stopped client is answered even if its
 connections are stuck

---
 net/client/server.go | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/net/client/server.go b/net/client/server.go
index ae66ed0..fbf9037 100644
--- a/net/client/server.go
+++ b/net/client/server.go
@@ -48,7 +48,6 @@ type Server struct {
 	actions     chan action
 	done        chan bool // closed when Loop is over
 	exiting     bool
-	drained     bool
 	lastErrTime time.Time
 
 	reconnecter *time.Ticker
@@ -127,6 +126,10 @@ func (serv *Server) Loop() {
 			serv.needConns = 0
 			serv.exiting = true
 			serv.fixConnections()
+			if serv.Standalone() {
+				/* connections being stopped do not take requests from the queue */
+				go serv.ShutDownAll()
+			}
 		case connErr := <-serv.connErr:
 			serv.onConnError(connErr)
 		case action := <-serv.actions:
@@ -135,16 +138,9 @@ func (serv *Server) Loop() {
 			serv.fixConnections()
 		}
 
-		if serv.exiting && serv.established == 0 && serv.dialing == 0 {
-			if serv.Standalone() && !serv.drained {
-				/* no one takes requests from the queue any more */
-				serv.drained = true
-				go serv.ShutDownAll()
-			}
-			if len(serv.connections) == 0 {
-				serv.reconnecter.Stop()
-				break
-			}
+		if serv.exiting && serv.established == 0 && len(serv.connections) == 0 {
+			serv.reconnecter.Stop()
+			break
 		}
 	}
 }
-- 
2.43.0


From 7da1749703ac70242af9096d8b59dc094afa1e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:39 +0000
Subject: [PATCH 76/85] fix: timer of multi-request remained armed if all its
 answers came before Results

---
 wait_group.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/wait_group.go b/wait_group.go
index 949ecfb..d173f77 100644
--- a/wait_group.go
+++ b/wait_group.go
@@ -156,9 +156,7 @@ func (w *MultiRequest) Results() MultiResponse {
 	}
 	res := w.responses
 	w.responses = nil
-	if w.cx != nil {
-		w.cx.RemoveCanceler(w)
-	}
+	w.finish()
 	w.m.Unlock()
 	return res
 }
-- 
2.43.0


From 71021f13b5d70b83526283d2b6ffd208b02e2eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:17 +0000
Subject: [PATCH 77/85] fix: Read of reflect.Value reads into this value

---
 marshal/reader_reflect.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/marshal/reader_reflect.go b/marshal/reader_reflect.go
index 466c5f2..c1ff41d 100644
--- a/marshal/reader_reflect.go
+++ b/marshal/reader_reflect.go
@@ -161,7 +161,6 @@ func (r *Reader) Read(i interface{}) error {
 		if val, ok = i.(reflect.Value); !ok {
 			val = reflect.ValueOf(i)
 		}
-		val = reflect.ValueOf(i)
 		if val.Kind() == reflect.Ptr {
 			val = val.Elem()
 			rt := val.Type()
-- 
2.43.0


From ee52923470dfe76cf4eef3e3f274cd8b4959e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:10 +0000
Subject: [PATCH 78/85] fix: memory for a body is allocated as the body comes,
 not as its header says

---
 net/slice_reader.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/net/slice_reader.go b/net/slice_reader.go
index 91cd2b1..74cd01f 100644
--- a/net/slice_reader.go
+++ b/net/slice_reader.go
@@ -14,6 +14,10 @@ type SliceReader struct {
 	dChecked bool
 }
 
+// maxAhead is how much is allocated for a body before its bytes come: nothing but
+// a header tells its length
+const maxAhead = 1024 * 1024
+
 func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	if len(sl.buf) > n {
 		res = sl.buf[:n:n]
@@ -22,7 +26,9 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	}
 	var buf []byte
 	if cap(sl.buf) < n {
-		if n > sl.size {
+		if n > maxAhead {
+			buf = make([]byte, len(sl.buf), maxAhead)
+		} else if n > sl.size {
 			buf = make([]byte, len(sl.buf), n)
 		} else {
 			buf = make([]byte, len(sl.buf), sl.size)
@@ -34,6 +40,13 @@ func (sl *SliceReader) Read(n int) (res []byte, err error) {
 	l := len(buf)
 	for l < n && err == nil {
 		var nn int
+		if l == cap(buf) {
+			c := 2 * l
+			if c > n {
+				c = n
+			}
+			buf = append(make([]byte, 0, c), buf[:l]...)
+		}
 		nn, err = sl.read(buf[l:cap(buf)])
 		l += nn
 	}
-- 
2.43.0


From 61e762ff2d059db49ef76c7183b73d166a4e97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:35:55 +0000
Subject: [PATCH 79/85] fix: answer to an id which is being given to a request
 raced with the giving

---
 net/client/connection/request_holder.go | 29 ++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/net/client/connection/request_holder.go b/net/client/connection/request_holder.go
index b69bd36..029b772 100644
--- a/net/client/connection/request_holder.go
+++ b/net/client/connection/request_holder.go
@@ -68,18 +68,29 @@ func (h *RequestHolder) getNext(conn *Connection) (req *Request) {
 		reqs := h.cur
 		if id != 0 && id != uint32(iproto.PingRequestId) {
 			req = &reqs.reqs[id&rowMask]
-			if req.fakeId != 0 {
-				continue
+			if h.take(req, id) {
+				return
 			}
-			req.fakeId = uint32(id)
-			return
 		}
 	}
 }
 
+// take gives id to r, unless r has one
+func (h *RequestHolder) take(r *Request, id uint32) bool {
+	h.Lock()
+	defer h.Unlock()
+	if r.fakeId != 0 {
+		return false
+	}
+	r.fakeId = id
+	return true
+}
+
 // sent registers that request is going to be written under an id of r
 func (h *RequestHolder) sent(r *Request, request *iproto.Request) {
+	h.Lock()
 	r.req = request
+	h.Unlock()
 	atomic.AddUint64(&h.got, 1)
 }
 
@@ -98,7 +109,11 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 
 	reqs := h.last
 	req := &reqs.reqs[fakeId&rowMask]
-	if fakeId == 0 || req.fakeId != fakeId || req.req == nil {
+	/* peer may answer an id which is being given to a request right now */
+	h.Lock()
+	known := fakeId != 0 && req.fakeId == fakeId && req.req != nil
+	h.Unlock()
+	if !known {
 		/* there is no such request, or it is already answered */
 		return nil
 	}
@@ -110,9 +125,11 @@ func (h *RequestHolder) remove(fakeId uint32) (ireq *iproto.Request) {
 		h.Unlock()
 	}
 
-	req.fakeId = 0
 	ireq = req.pending()
+	h.Lock()
+	req.fakeId = 0
 	req.req = nil
+	h.Unlock()
 	atomic.AddUint64(&h.put, 1)
 	return
 }
-- 
2.43.0


From 518df75bdeefea220c31d05a9943e45084f1da21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:42 +0000
Subject: [PATCH 80/85] fix: elements of arrays and slices of interfaces were
 written without their counts

---
 marshal/writer_reflect.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/marshal/writer_reflect.go b/marshal/writer_reflect.go
index 98b1075..9430345 100644
--- a/marshal/writer_reflect.go
+++ b/marshal/writer_reflect.go
@@ -604,7 +604,7 @@ func (t *TWriter) FillArray() {
 				}
 				el := v.Index(i).Elem()
 				tt := WriterFor(el.Type())
-				tt.Write(w, el)
+				tt.WriteAuto(w, el)
 			}
 		}
 	}
@@ -665,7 +665,7 @@ func (t *TWriter) FillSlice() {
 				}
 				el := v.Index(i).Elem()
 				tt := WriterFor(el.Type())
-				tt.Write(w, el)
+				tt.WriteAuto(w, el)
 			}
 		}
 	}
-- 
2.43.0


From b958621c3787d9a8694e2d8ce36e9208f94964cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:54 +0000
Subject: [PATCH 81/85] fix: requests read after the connection has broken were
 never cancelled

---
 net/server/connection.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/net/server/connection.go b/net/server/connection.go
index de0d72a..07d5c1b 100644
--- a/net/server/connection.go
+++ b/net/server/connection.go
@@ -149,8 +149,10 @@ func (conn *Connection) controlLoop() {
 			}
 			conn.Unlock()
 		case writeClosed:
+			conn.Lock()
 			conn.state &= CsClosed
 			conn.state |= CsWriteClosed
+			conn.Unlock()
 			conn.cancelInFly()
 			if conn.state&CsReadClosed == 0 {
 				conn.conn.CloseRead()
@@ -212,6 +214,11 @@ func (conn *Connection) readLoop() {
 			Responder: conn,
 		}
 		conn.Lock()
+		if conn.state&CsWriteClosed != 0 {
+			/* there is nobody to answer to, and nobody to cancel it later */
+			conn.Unlock()
+			break
+		}
 		conn.inFly[request.Id] = request
 		conn.Unlock()
 
-- 
2.43.0


From d6571766704f1c83a12db05a6e4cd5490b13e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:55:49 +0000
Subject: [PATCH 82/85] fix: a request which was answered before its timeout
 was set was kept until that time

---
 request.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/request.go b/request.go
index 84f95a5..63fda0e 100644
--- a/request.go
+++ b/request.go
@@ -41,6 +41,10 @@ func (r *Request) SetTimeout(timeout time.Duration) {
 	if timeout > 0 && !r.timerSet {
 		r.timerSet = true
 		r.timer.After(timeout, r)
+		if r.State() == RsPerformed {
+			/* it was answered meanwhile, and timer was not set yet to be stopped */
+			r.timer.Stop()
+		}
 	}
 }
 
-- 
2.43.0


From f2a91dbebdfc51132a0196f49ae341192a3db508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:08 +0000
Subject: [PATCH 83/85] fix: timers and durations depended on steps of the
 clock of the system

---
 epoch.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/epoch.go b/epoch.go
index 4b61c88..d3901d8 100644
--- a/epoch.go
+++ b/epoch.go
@@ -12,8 +12,12 @@ func NewEpoch(tm time.Time) Epoch {
 	return Epoch(tm.Sub(epoch))
 }
 
+// startTime is a reading of the monotonic clock too: steps of the wall clock do not change what has elapsed since it
+var startTime = time.Now()
+var startEpoch = NewEpoch(startTime)
+
 func NowEpoch() Epoch {
-	return Epoch(time.Now().Sub(epoch))
+	return startEpoch.Add(time.Since(startTime))
 }
 
 func (e Epoch) Before(o Epoch) bool {
-- 
2.43.0


From 3ff90a9fce4ec9d4409d5858123be93094812a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:37 +0000
Subject: [PATCH 84/85] fix: context of a request which was answered shared
 buffers of its requests with others

---
 request.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/request.go b/request.go
index 63fda0e..11274fd 100644
--- a/request.go
+++ b/request.go
@@ -210,9 +210,8 @@ func (cm *ReqContext) Respond(res *Response) {
 		cm.Expire()
 		cm.Request.ResetToPending()
 		cm.Request.SetInFly(nil)
-	} else {
-		cm.Context.Done()
 	}
+	/* context is not done yet: one who works on request may go on making others after it is answered */
 }
 
 func (cm *ReqContext) Done() {
-- 
2.43.0


From 8343e72ef2558cd0c9081fac863e8cdb7c5ce1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:13 +0000
Subject: [PATCH 85/85] fix: timeouts which mean never expired at once

---
 epoch.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/epoch.go b/epoch.go
index d3901d8..9c53fa3 100644
--- a/epoch.go
+++ b/epoch.go
@@ -1,6 +1,7 @@
 package iproto
 
 import (
+	"math"
 	"time"
 )
 
@@ -29,7 +30,12 @@ func (e Epoch) Sub(o Epoch) time.Duration {
 }
 
 func (e Epoch) Add(dur time.Duration) Epoch {
-	return e + Epoch(dur)
+	res := e + Epoch(dur)
+	if dur > 0 && res < e {
+		/* never, as far as Epoch could express it */
+		res = math.MaxInt64
+	}
+	return res
 }
 
 func (e Epoch) SubTime(tm time.Time) time.Duration {
-- 
2.43.0


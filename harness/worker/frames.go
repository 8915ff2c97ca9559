package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	nt "github.com/funny-falcon/go-iproto/net"
)

func init() {
	props["C10"] = c10
	props["C11"] = c11
}

type frame struct {
	msg, id, code uint32
	body          []byte
	short         bool // response without room for its code
}

func rcLen(rc nt.RCType) int {
	switch rc {
	case nt.RC4byte:
		return 4
	case nt.RC1byte:
		return 1
	}
	return 0
}

func put32(b []byte, v uint32) []byte { return binary.LittleEndian.AppendUint32(b, v) }

// refFrame is the documented layout, written down independently of the library
func refFrame(b []byte, f frame, resp bool, rcl int) []byte {
	if !resp || f.msg == 0xFF00 || f.short {
		rcl = 0
	}
	b = put32(b, f.msg)
	b = put32(b, uint32(len(f.body)+rcl))
	b = put32(b, f.id)
	switch rcl {
	case 4:
		b = put32(b, f.code)
	case 1:
		b = append(b, byte(f.code))
	}
	return append(b, f.body...)
}

func bodySize(r *rand.Rand) int {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1, 2, 3:
		return r.IntN(20)
	case 4, 5:
		return r.IntN(300)
	case 6:
		return 1000 + r.IntN(60)
	case 7:
		return 4096 - 40 + r.IntN(80)
	case 8:
		return 8192 - 60 + r.IntN(120)
	case 9:
		return 8192*(1+r.IntN(3)) - 30 + r.IntN(60)
	case 10:
		return r.IntN(20000)
	}
	return r.IntN(70000)
}

func randBody(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	s := r.Uint64()
	for i := range b {
		if i&7 == 0 {
			s = s*6364136223846793005 + 1442695040888963407
		}
		b[i] = byte(s >> (8 * (i & 7)))
	}
	return b
}

func randFrame(r *rand.Rand, size int) frame {
	f := frame{msg: r.Uint32(), id: r.Uint32(), code: r.Uint32(), body: randBody(r, size)}
	switch r.IntN(6) {
	case 0:
		f.msg = 0xFF00
	case 1:
		f.msg = r.Uint32N(300)
		f.code = r.Uint32N(0x10000)
	case 2:
		f.id = []uint32{0, 1, 0xFFFFFFFF, 0x80000000}[r.IntN(4)]
		f.code = []uint32{0, 1, 2, 3, 0xFF, 0x100, 0xFFFFFFFF}[r.IntN(7)]
	}
	return f
}

// chopped gives what it has in pieces
type chopped struct {
	b    []byte
	r    *rand.Rand
	mode int
	eof  bool // together with the last bytes
	zero int
	end  error
}

func (c *chopped) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, c.end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	switch c.mode {
	case 0:
		n = 1
	case 1:
		n = 1 + c.r.IntN(40)
	case 2:
		n = 1 + c.r.IntN(5000)
	case 3:
		if c.r.IntN(4) == 0 && c.zero < 20 {
			c.zero++
			return 0, nil
		}
		c.zero = 0
		n = 1 + c.r.IntN(3000)
	}
	if n > len(p) {
		n = len(p)
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	if len(c.b) == 0 && c.eof {
		return n, c.end
	}
	return n, nil
}

// brokenWriter accepts limit bytes and fails then
type brokenWriter struct {
	got    []byte
	limit  int
	writes int
}

var errBroken = errors.New("broken")

func (w *brokenWriter) Write(b []byte) (int, error) {
	w.writes++
	if w.limit >= 0 && len(w.got)+len(b) > w.limit {
		n := w.limit - len(w.got)
		w.got = append(w.got, b[:n]...)
		return n, errBroken
	}
	w.got = append(w.got, b...)
	return len(b), nil
}

func c10(e *Env) {
	n := e.N(12000, 144000)
	e.Cases(n, 1, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[r.IntN(3)]
		resp := r.IntN(3) > 0
		nf := 1 + r.IntN(40)
		small := r.IntN(2) == 0
		var fs []frame
		for len(fs) < nf {
			sz := bodySize(r)
			if small {
				sz = r.IntN(200)
			}
			fs = append(fs, randFrame(r, sz))
		}
		if i%150 == 0 { // a big one
			fs[r.IntN(nf)] = randFrame(r, pick(r, 1<<20-20+r.IntN(40), 2<<20-20+r.IntN(40), r.IntN(5<<20)))
		}
		checkFrames(e, cs, r, fs, rc, resp)
	})
}

func frameSig(fs []frame) string {
	s := ""
	for _, f := range fs {
		s += fmt.Sprintf("%v:%d,", f.msg == 0xFF00, len(f.body))
	}
	return s
}

func checkFrames(e *Env, cs string, r *rand.Rand, fs []frame, rc nt.RCType, resp bool) {
	rcl := rcLen(rc)
	var want []byte
	var ends []int
	for _, f := range fs {
		want = refFrame(want, f, resp, rcl)
		ends = append(ends, len(want))
	}
	e.Eval(1)
	e.Distinct("%v %v %s", rc, resp, frameSig(fs))
	e.Sample("%s: rc width %d, responses %v, (ping:body size) %s", cs, rcl, resp, frameSig(fs))

	// the writer
	bw := &brokenWriter{limit: -1}
	if r.IntN(5) == 0 {
		bw.limit = r.IntN(len(want))
	}
	var w nt.HeaderWriter
	w.Init(bw, 0, rc)
	var werr error
	for _, f := range fs {
		if resp {
			werr = w.WriteResponse(nt.Response{Msg: iproto.RequestType(f.msg), Id: f.id, Code: iproto.RetCode(f.code), Body: f.body})
		} else if f.msg == 0xFF00 && f.id == 0xFFFFFFFF && len(f.body) == 0 && r.IntN(2) == 0 {
			werr = w.Ping()
		} else {
			werr = w.WriteRequest(nt.Request{Msg: iproto.RequestType(f.msg), Id: f.id, Body: f.body})
		}
		if werr == nil && r.IntN(5) == 0 {
			werr = w.Flush()
		}
		if werr != nil {
			break
		}
	}
	if werr == nil {
		werr = w.Flush()
	}
	e.Count("frames written", len(fs))
	if bw.limit < 0 {
		if werr != nil {
			e.Viol(cs, "write-error", "writer failed without a reason: %v", werr)
		}
		if !bytes.Equal(bw.got, want) {
			e.Viol(cs, "written-bytes", "%s: stream of %d bytes differs from the documented layout at byte %d (frames %s)", cs, len(bw.got), diffAt(bw.got, want), frameSig(fs))
			return
		}
	} else {
		e.Count("broken writers", 1)
		if werr == nil {
			e.Viol(cs, "write-error-lost", "a failed write was not reported; %d of %d bytes went through", len(bw.got), len(want))
		} else if !bytes.HasPrefix(want, bw.got) {
			e.Viol(cs, "written-bytes", "%s: stream broken after %d bytes differs from the documented layout at %d", cs, len(bw.got), diffAt(bw.got, want))
		}
	}

	// the reader
	stream := want
	if resp && rcl > 0 && r.IntN(3) == 0 {
		// some responses are too short for their code
		stream, ends = nil, nil
		for k := range fs {
			if r.IntN(3) == 0 && fs[k].msg != 0xFF00 {
				fs[k].short = true
				fs[k].body = fs[k].body[:min(len(fs[k].body), r.IntN(rcl))]
				e.Count("short responses", 1)
			}
			stream = refFrame(stream, fs[k], resp, rcl)
			ends = append(ends, len(stream))
		}
	}
	modes := []int{r.IntN(5), r.IntN(5)}
	readFrames(e, cs, stream, len(stream), ends, fs, rc, resp, &chopped{b: stream, r: r, mode: modes[0], eof: r.IntN(2) == 0, end: io.EOF})
	for t := 0; t < 4; t++ {
		cut := r.IntN(len(stream))
		switch r.IntN(3) {
		case 0:
			cut = ends[r.IntN(len(ends))]
		case 1:
			k := r.IntN(len(ends))
			cut = min(len(stream), max(0, ends[k]-20+r.IntN(40)))
		}
		e.Count("truncations", 1)
		readFrames(e, cs, stream[:cut], cut, ends, fs, rc, resp, &chopped{b: stream[:cut:cut], r: r, mode: modes[1], eof: r.IntN(2) == 0, end: io.EOF})
	}
}

func diffAt(a, b []byte) int {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	return i
}

func readFrames(e *Env, cs string, stream []byte, cut int, ends []int, fs []frame, rc nt.RCType, resp bool, src *chopped) {
	var rd nt.HeaderReader
	rd.Init(src, 0, rc)
	what := fmt.Sprintf("%s: %d frames, cut at %d, chopping %d, eof with data %v, responses %v, rc %v", cs, len(fs), cut, src.mode, src.eof, resp, rc)
	whole := 0
	inside := cut != 0
	for whole < len(fs) && ends[whole] <= cut {
		inside = ends[whole] != cut
		whole++
	}
	for k := 0; ; k++ {
		var got frame
		var err error
		if resp {
			var x nt.Response
			x, err = rd.ReadResponse()
			got = frame{msg: uint32(x.Msg), id: x.Id, code: uint32(x.Code), body: x.Body}
		} else {
			var x nt.Request
			x, err = rd.ReadRequest()
			got = frame{msg: uint32(x.Msg), id: x.Id, body: x.Body}
		}
		if k < whole {
			f := fs[k]
			code := f.code
			switch {
			case !resp || f.msg == 0xFF00 || rc == nt.RC0byte:
				code = 0
			case f.short:
				code = 0x0302
			case rc == nt.RC1byte:
				code = f.code & 0xFF
			}
			if err != nil {
				e.Viol(cs, "read-error", "%s: whole frame %d gives error %v", what, k, err)
				return
			}
			if got.msg != f.msg || got.id != f.id || got.code != code || !bytes.Equal(got.body, f.body) {
				e.Viol(cs, "read-frame", "%s: frame %d (type %x id %x code %x, %d bytes) is read as type %x id %x code %x, %d bytes", what, k, f.msg, f.id, code, len(f.body), got.msg, got.id, got.code, len(got.body))
				return
			}
			e.Count("frames read", 1)
			continue
		}
		if err == nil {
			e.Viol(cs, "truncated-frame", "%s: frame %d is read from a stream with %d whole ones", what, k, whole)
		} else if !inside && err != io.EOF {
			e.Viol(cs, "eof", "%s: end between frames is reported as %v", what, err)
		}
		return
	}
}

// C11: delivered bodies do not change

type kept struct {
	body, was []byte
	what      string
}

func c11(e *Env) {
	n := e.N(1600, 20000)
	e.Cases(n, 1, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		switch i % 4 {
		case 0, 1:
			c11frames(e, cs, r)
		case 2:
			c11decode(e, cs, r)
		case 3:
			c11net(e, cs, r)
		}
	})
}

// scribble lets owners overwrite and append to some of their bodies, then checks all others
func scribble(e *Env, cs string, r *rand.Rand, ks []kept) {
	own := make([]bool, len(ks))
	for k := range ks {
		if !bytes.Equal(ks[k].body, ks[k].was) {
			e.Viol(cs, "changed-later", "%s: %s (%d of %d) changed at byte %d of %d while later ones arrived", cs, ks[k].what, k, len(ks), diffAt(ks[k].body, ks[k].was), len(ks[k].was))
			return
		}
	}
	for _, k := range r.Perm(len(ks)) {
		switch r.IntN(3) {
		case 0:
			own[k] = true
			for j := range ks[k].body {
				ks[k].body[j] ^= 0x5a
			}
			ks[k].was = append([]byte(nil), ks[k].body...)
			e.Count("bodies overwritten", 1)
		case 1:
			_ = append(ks[k].body, randBody(r, 1+r.IntN(64))...)
			e.Count("bodies appended to", 1)
		}
	}
	for k := range ks {
		if !bytes.Equal(ks[k].body, ks[k].was) {
			e.Viol(cs, "changed-by-other", "%s: %s (%d of %d, %d bytes) changed when an owner of another one wrote to it", cs, ks[k].what, k, len(ks), len(ks[k].was))
			return
		}
	}
	e.Count("bodies kept", len(ks))
}

func keep(ks []kept, b []byte, what string) []kept {
	return append(ks, kept{b, append([]byte(nil), b...), what})
}

func c11frames(e *Env, cs string, r *rand.Rand) {
	rc := []nt.RCType{nt.RC4byte, nt.RC1byte, nt.RC0byte}[r.IntN(3)]
	resp := r.IntN(2) == 0
	nf := 1 + r.IntN(60)
	small := r.IntN(3)
	var stream []byte
	for k := 0; k < nf; k++ {
		sz := bodySize(r)
		if small > 0 {
			sz = r.IntN(100 * small * small)
		}
		stream = refFrame(stream, randFrame(r, sz), resp, rcLen(rc))
	}
	var rd nt.HeaderReader
	src := &chopped{b: stream, r: r, mode: r.IntN(5), end: io.EOF}
	rd.Init(src, 0, rc)
	var ks []kept
	for {
		var body []byte
		if resp {
			x, err := rd.ReadResponse()
			if err != nil {
				break
			}
			body = x.Body
		} else {
			x, err := rd.ReadRequest()
			if err != nil {
				break
			}
			body = x.Body
		}
		ks = keep(ks, body, "a body")
		if r.IntN(4) == 0 { // the owner appends at once, while the rest is not read yet
			_ = append(body, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)
			e.Count("bodies appended to", 1)
		}
	}
	if len(ks) != nf {
		e.Viol(cs, "desync", "%s: %d frames of %d were read after owners appended to their bodies", cs, len(ks), nf)
	}
	e.Eval(1)
	e.Distinct("frames %v %v %d %d %d", rc, resp, nf, src.mode, len(stream))
	e.Sample("%s: %d frames in %d bytes, chopping %d", cs, nf, len(stream), src.mode)
	scribble(e, cs, r, ks)
}

// byte strings decoded from a message share it, but must not reach each other
func c11decode(e *Env, cs string, r *rand.Rand) {
	n := 1 + r.IntN(20)
	var msg []byte
	for k := 0; k < n; k++ {
		b := randBody(r, r.IntN(40))
		msg = append(put32(msg, uint32(len(b))), b...)
	}
	body := iproto.Body(append(make([]byte, 0, len(msg)+r.IntN(50)), msg...))
	var ks []kept
	rd := body.Reader()
	var list [][]byte
	switch r.IntN(2) {
	case 0:
		for k := 0; k < n; k++ {
			var b []byte
			if rd.Read(&b) != nil {
				e.Viol(cs, "decode", "%s: string %d of %d is not decoded: %v", cs, k, n, rd.Err)
				return
			}
			list = append(list, b)
			if r.IntN(3) == 0 {
				_ = append(b, 0xff, 0xff, 0xff, 0xff, 0xff)
			}
		}
	case 1:
		if err := marshal.ReadTail(body, &list); err != nil || len(list) != n {
			e.Viol(cs, "decode", "%s: %d strings of %d are decoded: %v", cs, len(list), n, err)
			return
		}
	}
	for _, b := range list {
		ks = keep(ks, b, "a decoded byte string")
	}
	e.Eval(1)
	e.Distinct("decode %d %d", n, len(msg))
	scribble(e, cs, r, ks)
}

package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"runtime"
	"strings"

	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
)

// allocated tells how much f allocates, whatever is freed
func allocated(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// allowed is what decoding of n bytes may allocate: more than any type used here needs
func allowed(n int) uint64 { return 1<<20 + 2048*uint64(n) }

// allocatesMuch calls f again: the first decoding of a type may also copy caches of all types seen so far,
// of which there are thousands here
func allocatesMuch(k, limit uint64, again func()) bool {
	return k > limit && allocated(func() { guarded(again) }) > limit
}

// mutate spoils bytes
func mutate(r *rand.Rand, b []byte) []byte {
	b = append([]byte(nil), b...)
	for k := 1 + r.IntN(3); k > 0; k-- {
		at := func(n int) int {
			if len(b) < n {
				b = append(b, make([]byte, n-len(b))...)
			}
			return r.IntN(len(b) - n + 1)
		}
		switch r.IntN(11) {
		case 0:
			i := at(1)
			b[i] ^= 1 << r.IntN(8)
		case 1:
			b[at(1)] = pick[byte](r, 0, 1, 0x7f, 0x80, 0xff, byte(r.Uint32()))
		case 2, 3:
			i := at(4)
			binary.LittleEndian.PutUint32(b[i:], pick(r, 0, 0xffff, 0xffffff, 0x7ffffff, 0x7fffffff, 0x80000000, 0xfffffffc, 0xffffffff, r.Uint32()>>r.IntN(32)))
		case 4:
			i := at(8)
			binary.LittleEndian.PutUint64(b[i:], pick(r, 1<<31, 1<<32, 1<<40, 1<<62, 1<<63, 1<<63-1, 1<<61, ^uint64(0), r.Uint64()>>r.IntN(64)))
		case 5: // a long number
			i := at(1)
			n := pick(r, 3, 4, 5, 8, 9, 10, 11, 20)
			num := bytes.Repeat([]byte{pick[byte](r, 0xff, 0x80, 0x81)}, n)
			num[n-1] = byte(r.IntN(128))
			b = append(append(append([]byte(nil), b[:i]...), num...), b[i+r.IntN(2):]...)
		case 6:
			b = b[:r.IntN(len(b)+1)]
		case 7:
			i := at(1)
			b = append(b[:i], b[min(len(b), i+1+r.IntN(5)):]...)
		case 8:
			b = append(b, pad(r.Uint64(), r.IntN(20))...)
		case 9:
			i := at(1)
			ins := pad(r.Uint64(), 1+r.IntN(6))
			b = append(append(append([]byte(nil), b[:i]...), ins...), b[i:]...)
		case 10:
			i := at(2)
			binary.LittleEndian.PutUint16(b[i:], pick[uint16](r, 0xffff, 0x8000, 0x7fff, 0))
		}
	}
	return b
}

// within puts bytes in front of others, so that everything read behind the end is noticed
func within(b []byte, c byte) []byte {
	x := make([]byte, len(b)+64)
	copy(x, b)
	for i := len(b); i < len(x); i++ {
		x[i] = c
	}
	return x[:len(b)]
}

type decoder struct {
	name string
	f    func(r *marshal.Reader, x interface{}) error
}

func c13(e *Env) {
	if e.shard == 0 && e.only < 0 {
		c13sizes(e)
	}
	// allocations are counted for the process: one by one
	e.Cases(e.N(6000, 72000), 1, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		if !finishes(func() { c13case(e, cs, r) }) {
			e.hung(cs, "decode", "decoding does not end")
		}
	})
}

func c13case(e *Env, cs string, r *rand.Rand) {
	t, open := someType(r, r.IntN(3) == 0, r.IntN(6) == 0)
	if hasPtrIn(t, false) {
		return
	}
	fresh := func() reflect.Value {
		p := reflect.New(t)
		prepare(p.Elem(), false)
		return p
	}
	ifaces := r.IntN(8) == 0
	if ifaces { // values of known types behind interfaces
		el := t
		if el == ownTypes[0] || el == ownTypes[1] { // these can not be counted
			el = reflect.TypeOf(uint32(0))
		}
		t = reflect.TypeOf(behind{})
		open = true
		fresh = func() reflect.Value {
			b := reflect.New(t)
			f := func() interface{} {
				p := reflect.New(el)
				prepare(p.Elem(), false)
				return p.Interface()
			}
			b.Elem().Set(reflect.ValueOf(behind{f(), f(), f(), []interface{}{f(), new(uint16), f()}, f()}))
			return b
		}
	}
	s := pick(r, sizers...)
	decs := []decoder{
		{"Read", func(r *marshal.Reader, x interface{}) error { return r.Read(x) }},
		{"ReadTail", func(r *marshal.Reader, x interface{}) error { return r.ReadTail(x) }},
		{"ReadWithSize(" + s.width + ")", func(r *marshal.Reader, x interface{}) error { return r.ReadWithSize(x, s.r) }},
	}
	what := fmt.Sprintf("%s: %v", cs, t)
	// values of these types have the only encoding each
	text := t.String()
	canonical := !ifaces && !strings.Contains(text, "ber") && !strings.Contains(text, "main.own") && !open
	floats := strings.Contains(text, "float32") || strings.Contains(text, "nf32")
	attempt := func(d decoder, b []byte) (failed bool, ok bool) {
		var outs [2]reflect.Value
		var errs [2]error
		for k, c := range []byte{0x00, 0xEE} {
			in := within(b, c)
			dst := fresh()
			rd := &marshal.Reader{Body: in}
			var p interface{}
			n := allocated(func() {
				p = guarded(func() { errs[k] = d.f(rd, dst.Interface()) })
			})
			outs[k] = dst
			switch {
			case p != nil:
				e.Viol(cs, "panic", "%s: %s of %s panics: %v", what, d.name, show(b), p)
				return
			case allocatesMuch(n, allowed(len(b)), func() { d.f(&marshal.Reader{Body: in}, fresh().Interface()) }):
				e.Viol(cs, "allocation", "%s: %s of %d bytes %s allocates %d bytes (error: %.100v)", what, d.name, len(b), show(b), n, errs[k])
				return
			case errs[k] != rd.Err:
				e.Viol(cs, "error", "%s: %s of %s returns error %v, but the reader has %v", what, d.name, show(b), errs[k], rd.Err)
				return
			case !bytes.Equal(in, b):
				e.Viol(cs, "input", "%s: %s of %s has changed its input", what, d.name, show(b))
				return
			case len(rd.Body) > len(b):
				e.Viol(cs, "beyond", "%s: %s of %s leaves more than there was", what, d.name, show(b))
				return
			}
		}
		if (errs[0] == nil) != (errs[1] == nil) {
			e.Viol(cs, "beyond", "%s: %s of %s depends on what stands behind its end: %v and %v", what, d.name, show(b), errs[0], errs[1])
			return
		}
		if errs[0] == nil && !ifaces {
			if eq, where := same(outs[0].Elem(), outs[1].Elem(), 0); !eq {
				e.Viol(cs, "beyond", "%s: %s of %s depends on what stands behind its end: %s", what, d.name, show(b), where)
				return
			}
		}
		if errs[0] == nil && canonical && d.name == "Read" {
			rd := &marshal.Reader{Body: b}
			dst := fresh()
			rd.Read(dst.Interface())
			x := ref{}
			x.auto(dst.Elem(), false)
			used := b[:len(b)-len(rd.Body)]
			if len(x.b) != len(used) || !floats && !bytes.Equal(x.b, used) {
				e.Viol(cs, "unfaithful", "%s: Read accepts %s for %s, which is encoded as %s", what, show(used), fmt.Sprintf("%.600s", fmt.Sprint(dst.Elem())), show(x.b))
				return
			}
			e.Count("accepted inputs encoded back", 1)
		}
		return errs[0] != nil, true
	}
	rejected, accepted := 0, 0
	try := func(d decoder, b []byte) bool {
		failed, ok := attempt(d, b)
		if failed {
			rejected++
		} else {
			accepted++
		}
		return ok
	}
	for n := 0; n < 3; n++ {
		var auto, content []byte
		if !ifaces {
			pv := reflect.New(t)
			(&vgen{r, pick(r, 2, 4, 12)}).fill(pv.Elem(), false)
			x, y := ref{}, ref{}
			x.auto(pv.Elem(), false)
			y.content(pv.Elem(), false)
			if x.bad || len(x.b) > 4000 {
				continue
			}
			auto, content = x.b, y.b
		} else {
			auto = pad(r.Uint64(), r.IntN(60))
			content = auto
		}
		sized, ok := refPrefix(nil, s.width, len(content))
		sized = append(sized, content...)
		if n == 0 {
			try(decs[0], auto) // caches are filled
		}
		for k := 0; k < 10; k++ {
			b := pick(r, auto, content, sized)
			switch r.IntN(10) {
			case 0:
				b = pad(r.Uint64(), r.IntN(40))
			case 1:
				b = bytes.Repeat([]byte{pick[byte](r, 0xff, 0x80, 0, 1)}, r.IntN(30))
			default:
				b = mutate(r, b)
			}
			for _, d := range decs {
				if !try(d, b) {
					return
				}
			}
			e.Eval(3)
		}
		if ifaces {
			continue
		}
		// every proper prefix fails
		step := 1 + len(auto)/40
		for k := r.IntN(step); k < len(auto) && !open; k += step {
			failed, ok := attempt(decs[0], auto[:k])
			if !ok {
				return
			}
			if !failed {
				e.Viol(cs, "prefix", "%s: Read of the first %d of %d bytes of %s does not fail", what, k, len(auto), show(auto))
				return
			}
			e.Count("prefixes", 1)
			e.Eval(1)
		}
		for k := 0; k < len(sized) && ok && len(content) > 0; k += step {
			failed, ok := attempt(decs[2], sized[:k])
			if !ok {
				return
			}
			if !failed {
				e.Viol(cs, "prefix", "%s: ReadWithSize(%s) of the first %d of %d bytes of %s does not fail", what, s.width, k, len(sized), show(sized))
				return
			}
			e.Eval(1)
		}
		// what is not consumed is reported
		if k := t.Kind(); !open && k != reflect.Slice && k != reflect.String && !t.Implements(tOwner) {
			junk := pad(r.Uint64(), 1+r.IntN(9))
			if failed, ok := attempt(decs[1], append(append([]byte(nil), content...), junk...)); !ok {
				return
			} else if !failed {
				e.Viol(cs, "rest", "%s: ReadTail of %s does not report %d bytes behind it", what, show(content), len(junk))
				return
			}
			if b, ok := refPrefix(nil, s.width, len(content)+len(junk)); ok {
				if failed, ok := attempt(decs[2], append(append(b, content...), junk...)); !ok {
					return
				} else if !failed {
					e.Viol(cs, "rest", "%s: ReadWithSize(%s) of %s does not report %d bytes behind it", what, s.width, show(content), len(junk))
					return
				}
			}
			e.Count("rests reported", 1)
		}
	}
	e.Count("mutants rejected", rejected)
	e.Count("mutants accepted", accepted)
	e.Distinct("%v %d", t, accepted)
	e.Sample("%v: %d decodings failed, %d succeeded", t, rejected, accepted)
	if n := r.IntN(4); n == 0 {
		c13tuples(e, cs, r)
	}
}

// c13sizes: sizes of slices which cover a part of an element
func c13sizes(e *Env) {
	els := append([]reflect.Type{
		reflect.TypeOf(struct {
			A uint8
			B uint32
		}{}), reflect.TypeOf([3]uint16{}), reflect.TypeOf([2]struct{ A, B int16 }{}), reflect.TypeOf([7]byte{}),
	}, numTypes...)
	for _, el := range els {
		sz := len(marshal.Write(reflect.Zero(el).Interface()))
		t := reflect.SliceOf(el)
		for n := 0; n <= 4*sz && n < 60; n++ {
			for _, s := range sizers {
				content := pad(uint64(n), n)
				sized, ok := refPrefix(nil, s.width, n)
				if !ok {
					continue
				}
				sized = append(sized, content...)
				fields := []reflect.StructField{
					{Name: "A", Type: t, Tag: reflect.StructTag(`iproto:"size(` + s.width + `)"`)},
					{Name: "B", Type: reflect.TypeOf(uint8(0))},
				}
				for _, how := range []struct {
					name string
					f    func() (reflect.Value, error)
				}{
					{"field", func() (reflect.Value, error) {
						p := reflect.New(reflect.StructOf(fields))
						err := marshal.Read(append(append([]byte(nil), sized...), 77), p.Interface())
						if err == nil && p.Elem().Field(1).Uint() != 77 {
							err = fmt.Errorf("HARNESS")
						}
						return p.Elem().Field(0), err
					}},
					{"ReadWithSize", func() (reflect.Value, error) {
						p := reflect.New(t)
						rd := &marshal.Reader{Body: append(append([]byte(nil), sized...), 77)}
						return p.Elem(), rd.ReadWithSize(p.Interface(), s.r)
					}},
					{"ReadTail", func() (reflect.Value, error) {
						p := reflect.New(t)
						return p.Elem(), marshal.ReadTail(content, p.Interface())
					}},
				} {
					var v reflect.Value
					var err error
					if p := guarded(func() { v, err = how.f() }); p != nil {
						e.Viol("", "panic", "%s of %v with a size(%s) of %d bytes panics: %v", how.name, t, s.width, n, p)
						return
					}
					if (err == nil) != (n%sz == 0) || err == nil && (v.Len() != n/sz || !bytes.Equal(marshal.WriteTail(v.Interface()), content)) {
						e.Viol("", "size", "%s of %v with a size(%s) of %d bytes, elements have %d: %v, %v", how.name, t, s.width, n, sz, err, v)
						return
					}
					e.Eval(1)
				}
			}
		}
	}
}

// behind has values behind interfaces
type behind struct {
	A interface{}   `iproto:"cnt(i16)"`
	B interface{}   `iproto:"size(ber)"`
	C interface{}   `iproto:"cnt(i32)"`
	D []interface{} `iproto:"cnt(ber)"`
	E interface{}   `iproto:"size(no)"`
}

// c13tuples: arbitrary bytes as tuples
func c13tuples(e *Env, cs string, r *rand.Rand) {
	t := tupleType(r)
	what := fmt.Sprintf("%s: tuple %v", cs, t)
	for n := 0; n < 20; n++ {
		pv := reflect.New(t)
		(&vgen{r, pick(r, 2, 6)}).fill(pv.Elem(), false)
		enc, ok := refTuple(pv.Elem())
		if !ok || len(enc) > 4000 {
			continue
		}
		b := mutate(r, enc)
		if n%5 == 0 {
			b = pad(r.Uint64(), r.IntN(30))
		}
		for _, sized := range []bool{false, true} {
			in := within(b, 0xEE)
			rd := &marshal.Reader{Body: in}
			var err error
			var p interface{}
			dst := reflect.New(t)
			k := allocated(func() {
				p = guarded(func() {
					if sized {
						err = sbox.ReadSizedTuple(rd, dst.Interface())
					} else {
						err = sbox.ReadRawTuple(rd, dst.Interface())
					}
				})
			})
			switch {
			case p != nil:
				e.Viol(cs, "panic", "%s: reading %s (sized: %v) panics: %v", what, show(b), sized, p)
				return
			case allocatesMuch(k, allowed(len(b)), func() {
				rd := &marshal.Reader{Body: in}
				if sized {
					sbox.ReadSizedTuple(rd, reflect.New(t).Interface())
				} else {
					sbox.ReadRawTuple(rd, reflect.New(t).Interface())
				}
			}):
				e.Viol(cs, "allocation", "%s: reading %d bytes %s allocates %d bytes (error: %.100v)", what, len(b), show(b), k, err)
				return
			case err != rd.Err:
				e.Viol(cs, "error", "%s: reading %s returns error %v, but the reader has %v", what, show(b), err, rd.Err)
				return
			}
			e.Eval(1)
			e.Count("mutants of tuples", 1)
		}
	}
}

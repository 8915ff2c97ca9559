package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/funny-falcon/go-iproto/marshal"
)

// All other ways to write and read the same: methods for single kinds, slices of known length, lists, values.

// way of writing (or of reading) of a slice of numbers
type wayW struct {
	name string
	f    func(w *marshal.Writer)
}

type wayR struct {
	name  string
	body  []byte
	exact bool // takes the whole body
	f     func(r *marshal.Reader) reflect.Value
}

func call(x interface{}, name string, args ...reflect.Value) []reflect.Value {
	m := reflect.ValueOf(x).MethodByName(name)
	if !m.IsValid() {
		panic("HARNESS: no method " + name)
	}
	return m.Call(args)
}

var kindNames = map[reflect.Kind]string{
	reflect.Uint8: "Uint8", reflect.Uint16: "Uint16", reflect.Uint32: "Uint32", reflect.Uint64: "Uint64",
	reflect.Int8: "Int8", reflect.Int16: "Int16", reflect.Int32: "Int32", reflect.Int64: "Int64",
	reflect.Float32: "Float32", reflect.Float64: "Float64",
}

// waysOf lists ways for a slice of numbers sv, which content is raw
func waysOf(r *rand.Rand, sv reflect.Value, raw []byte) (ww []wayW, wr []wayR) {
	t := sv.Type()
	el := t.Elem()
	name := kindNames[el.Kind()]
	plain := el == reflect.TypeOf(reflect.Zero(el).Interface()) && el.PkgPath() == ""
	n := sv.Len()
	at := reflect.ArrayOf(n, el)
	av := reflect.New(at).Elem()
	reflect.Copy(av, sv)
	fixed := reflect.ValueOf(av.Interface()) // is not addressable
	w := func(name string, f func(w *marshal.Writer)) { ww = append(ww, wayW{name, f}) }
	if plain {
		w("one by one", func(w *marshal.Writer) {
			for i := 0; i < n; i++ {
				call(w, name, sv.Index(i))
			}
		})
		w(name+"sl", func(w *marshal.Writer) { call(w, name+"sl", sv) })
		if name == "Uint8" {
			w("Bytes", func(w *marshal.Writer) { w.Bytes(sv.Bytes()) })
			w("String", func(w *marshal.Writer) { w.String(string(sv.Bytes())) })
			w("StringVal", func(w *marshal.Writer) { w.StringVal(reflect.ValueOf(string(sv.Bytes()))) })
		}
	}
	w("values one by one", func(w *marshal.Writer) {
		for i := 0; i < n; i++ {
			call(w, name+"Val", reflect.ValueOf(sv.Index(i)))
		}
	})
	w(name+"slVal of slice", func(w *marshal.Writer) { call(w, name+"slVal", reflect.ValueOf(sv)) })
	w(name+"slVal of array", func(w *marshal.Writer) { call(w, name+"slVal", reflect.ValueOf(fixed)) })
	w("Write of elements", func(w *marshal.Writer) {
		for i := 0; i < n; i++ {
			w.Write(sv.Index(i).Interface())
		}
	})
	w("WriteTail of slice", func(w *marshal.Writer) { w.WriteTail(sv.Interface()) })
	w("Write of array", func(w *marshal.Writer) { w.Write(fixed.Interface()) })
	w("WriteTail of array", func(w *marshal.Writer) { w.WriteTail(av.Addr().Interface()) })
	w("WriteValue of array", func(w *marshal.Writer) { w.WriteValue(fixed) })
	w("Need", func(w *marshal.Writer) { copy(w.Need(len(raw)), raw) })

	// reading
	rd := func(name string, exact bool, body []byte, f func(r *marshal.Reader, d reflect.Value)) {
		wr = append(wr, wayR{name, body, exact, func(r *marshal.Reader) reflect.Value {
			d := reflect.New(t).Elem()
			d.Set(reflect.MakeSlice(t, n, n+1))
			for i := 0; i < n; i++ { // what was there has to go
				d.Index(i).Set(reflect.ValueOf(int8(i)).Convert(el))
			}
			f(r, d)
			return d
		}})
	}
	if plain {
		rd("one by one", false, raw, func(r *marshal.Reader, d reflect.Value) {
			for i := 0; i < n; i++ {
				d.Index(i).Set(call(r, name)[0])
			}
		})
		rd(name+"sl", false, raw, func(r *marshal.Reader, d reflect.Value) { call(r, name+"sl", d) })
		if name == "Uint8" {
			rd("Bytes", false, raw, func(r *marshal.Reader, d reflect.Value) { r.Bytes(d.Bytes()) })
			rd("Slice", false, raw, func(r *marshal.Reader, d reflect.Value) { d.SetBytes(r.Slice(n)) })
			rd("String", false, raw, func(r *marshal.Reader, d reflect.Value) { d.SetBytes([]byte(r.String(n))) })
			rd("Tail", true, raw, func(r *marshal.Reader, d reflect.Value) { d.SetBytes(r.Tail()) })
		}
	}
	rd("values one by one", false, raw, func(r *marshal.Reader, d reflect.Value) {
		for i := 0; i < n; i++ {
			call(r, name+"Val", reflect.ValueOf(d.Index(i)))
		}
	})
	rd("Read of elements", false, raw, func(r *marshal.Reader, d reflect.Value) {
		for i := 0; i < n; i++ {
			r.Read(d.Index(i).Addr().Interface())
		}
	})
	rd("Read of values of elements", false, raw, func(r *marshal.Reader, d reflect.Value) {
		for i := 0; i < n; i++ {
			if i&1 == 0 {
				r.ReadValueAuto(d.Index(i))
			} else {
				r.ReadValueFixed(d.Index(i))
			}
		}
	})
	rd(name+"slVal", false, raw, func(r *marshal.Reader, d reflect.Value) { call(r, name+"slVal", reflect.ValueOf(d)) })
	// into values which can not be set their length is fixed
	own := func(d reflect.Value) reflect.Value { return reflect.ValueOf(d.Interface()) }
	rd(name+"slValTail of fixed", false, raw, func(r *marshal.Reader, d reflect.Value) {
		call(r, name+"slValTail", reflect.ValueOf(own(d)))
	})
	if plain || name != "Uint8" {
		rd(name+"slValTail", true, raw, func(r *marshal.Reader, d reflect.Value) {
			call(r, name+"slValTail", reflect.ValueOf(d))
		})
	}
	rd("Read of slice", false, raw, func(r *marshal.Reader, d reflect.Value) { r.Read(d.Interface()) })
	rd("Read of value of slice", false, raw, func(r *marshal.Reader, d reflect.Value) { r.Read(d) })
	rd("ReadValueFixed of slice", false, raw, func(r *marshal.Reader, d reflect.Value) { r.ReadValueFixed(d) })
	rd("ReadTail of slice", true, raw, func(r *marshal.Reader, d reflect.Value) { r.ReadTail(d.Interface()) })
	rd("ReadTail of pointer to slice", true, raw, func(r *marshal.Reader, d reflect.Value) { r.ReadTail(d.Addr().Interface()) })
	toArray := func(d reflect.Value, f func(a reflect.Value)) {
		a := reflect.New(at).Elem()
		f(a)
		reflect.Copy(d, a)
	}
	rd("Read of array", false, raw, func(r *marshal.Reader, d reflect.Value) {
		toArray(d, func(a reflect.Value) { r.Read(a.Addr().Interface()) })
	})
	rd("ReadTail of array", true, raw, func(r *marshal.Reader, d reflect.Value) {
		toArray(d, func(a reflect.Value) { r.ReadTail(a.Addr().Interface()) })
	})
	count, _ := refPrefix(nil, "i32", n)
	rd("ReadValueAuto of slice", false, append(count, raw...), func(r *marshal.Reader, d reflect.Value) { r.ReadValueAuto(d) })
	rd("Read of value of pointer to slice", false, append(count, raw...), func(r *marshal.Reader, d reflect.Value) { r.Read(d.Addr()) })
	rd("Read of pointer to slice", false, append(count, raw...), func(r *marshal.Reader, d reflect.Value) { r.Read(d.Addr().Interface()) })
	w4 := pick(r, sizers...)
	if size, ok := refPrefix(nil, w4.width, len(raw)); ok {
		body := append(size, raw...)
		rd("ReadWithSize("+w4.width+") of slice", false, body, func(r *marshal.Reader, d reflect.Value) { r.ReadWithSize(d.Interface(), w4.r) })
		rd("ReadWithSize("+w4.width+") of pointer to slice", false, body, func(r *marshal.Reader, d reflect.Value) {
			d.SetLen(0)
			r.ReadWithSize(d.Addr().Interface(), w4.r)
		})
		rd("ReadValueWithSize("+w4.width+") of slice", false, body, func(r *marshal.Reader, d reflect.Value) { r.ReadValueWithSize(d, w4.r) })
		rd("ReadValueWithSize("+w4.width+") of array", false, body, func(r *marshal.Reader, d reflect.Value) {
			toArray(d, func(a reflect.Value) { r.ReadValueWithSize(a, w4.r) })
		})
	}
	if el.Kind() <= reflect.Uint64 && el.Kind() >= reflect.Uint8 {
		var vr []byte
		for i := 0; i < n; i++ {
			vr = refVar(vr, sv.Index(i).Uint())
		}
		rd("variable-length", false, vr, func(r *marshal.Reader, d reflect.Value) {
			for i := 0; i < n; i++ {
				if i&1 == 0 {
					d.Index(i).SetUint(r.Uint64var())
				} else {
					r.Uint64varVal(d.Index(i))
				}
			}
		})
	}
	return
}

func c12ways(e *Env, cs string, r *rand.Rand) {
	el := pick(r, numTypes...)
	t := reflect.SliceOf(el)
	n := pick(r, 0, 1, 2, 3, r.IntN(9), r.IntN(70), r.IntN(300))
	sv := reflect.New(t).Elem()
	sv.Set(reflect.MakeSlice(t, n, n+r.IntN(2)))
	g := &vgen{r, 1}
	var raw []byte
	for i := 0; i < n; i++ {
		g.fill(sv.Index(i), false)
		raw, _ = refNumber(raw, sv.Index(i), false)
	}
	ww, wr := waysOf(r, sv, raw)
	w := &marshal.Writer{DefSize: pick(r, 0, 1, 16, 512)}
	for _, x := range ww {
		w.Uint8(0x5a)
		p := guarded(func() { x.f(w) })
		w.Uint8(0xa5)
		if got := w.Written(); p != nil {
			e.Viol(cs, "ways-panic", "%s: %s of %v: %v panics: %v", cs, x.name, t, sv, p)
			w = &marshal.Writer{}
		} else if want := append(append([]byte{0x5a}, raw...), 0xa5); !bytes.Equal(got, want) {
			e.Viol(cs, "ways-write", "%s: %s of %v: %v is between marks\n% x instead of\n% x", cs, x.name, t, sv, got, want)
		}
		e.Count("ways of writing", 1)
	}
	for _, x := range wr {
		rest := 0
		if !x.exact {
			rest = pick(r, 0, 1, 7)
		}
		rd := &marshal.Reader{Body: append(append([]byte(nil), x.body...), pad(5, rest)...)}
		var got reflect.Value
		if p := guarded(func() { got = x.f(rd) }); p != nil {
			e.Viol(cs, "ways-panic", "%s: reading of %v by %s panics: %v", cs, t, x.name, p)
			continue
		}
		if rd.Err != nil || (rd.Error() != nil) != (rest > 0) || len(rd.Body) != rest || rd.Done() != (rest == 0) {
			e.Viol(cs, "ways-read", "%s: reading of %v (%d elements) by %s: error %v, leaves %d bytes instead of %d, done %v", cs, t, n, x.name, rd.Err, len(rd.Body), rest, rd.Done())
		} else if ok, where := same(sv, got, 0); !ok {
			e.Viol(cs, "ways-read", "%s: reading of %v %v by %s gives %v: %s", cs, t, sv, x.name, got, where)
		}
		e.Count("ways of reading", 1)
		if n == 0 || x.name == "Tail" || len(x.body) == 0 {
			continue
		}
		// an incomplete one
		cut := r.IntN(len(x.body))
		rd = &marshal.Reader{Body: append([]byte(nil), x.body[:cut]...)}
		if p := guarded(func() { got = x.f(rd) }); p != nil {
			e.Viol(cs, "ways-panic", "%s: reading of %d bytes of %d of %v by %s panics: %v", cs, cut, len(x.body), t, x.name, p)
		} else if sz := el.Size(); rd.Err == nil && !(x.exact && got.Len() < n && (len(rd.Body) == cut%int(sz) && (len(rd.Body) == 0 || strings.HasSuffix(x.name, "slValTail")))) {
			e.Viol(cs, "ways-short", "%s: reading of %d bytes of %d of %v by %s succeeds: %v", cs, cut, len(x.body), t, x.name, got)
		} else if first := rd.Err; first != nil {
			// nothing is read after an error
			rd.Body = append(rd.Body, pad(9, 40)...)
			left := len(rd.Body)
			var u8 uint8
			var sl []uint16
			var s string
			x.f(rd)
			err := rd.Read(&u8)
			err2 := rd.Read(&sl)
			err3 := rd.ReadTail(&s)
			err4 := rd.ReadWithSize(&s, (*marshal.Reader).IntUint8)
			if rd.Err != first || err != first || err2 != first || err3 != first || err4 != first || left != len(rd.Body) || u8 != 0 || sl != nil || s != "" || rd.Done() {
				e.Viol(cs, "ways-error", "%s: after an error of %s %v: errors %v %v %v %v %v, %d bytes of %d, read %v %v %q", cs, x.name, first, rd.Err, err, err2, err3, err4, len(rd.Body), left, u8, sl, s)
			}
		}
	}
	e.Eval(1)
	e.Distinct("ways %v %d", el, min(n, 5))
}

// lists of readers

func c12readers(e *Env, cs string, r *rand.Rand) {
	n := r.IntN(6)
	count, _ := refPrefix(nil, "i32", n)
	var long, short, any []byte
	var ovs []ownVar
	var ows []ownRGB
	for i := 0; i < n; i++ {
		o := ownVar{string(pad(r.Uint64(), r.IntN(9)))}
		q := ownRGB{byte(r.Uint32()), byte(r.Uint32()), byte(i)}
		ovs, ows = append(ovs, o), append(ows, q)
		long = append(long, o.refContent()...)
		short = append(short, q.refContent()...)
		if i&1 == 0 {
			any = append(any, o.refContent()...)
		} else {
			any = append(any, q.refContent()...)
		}
	}
	for _, tail := range []bool{false, true} {
		for _, ptr := range []bool{false, true} {
			if tail && ptr {
				continue
			}
			var ls []marshal.IReader
			var ss []marshal.IShortReader
			var as []interface{}
			for i := 0; i < n; i++ {
				ls = append(ls, new(ownVar))
				ss = append(ss, new(ownRGB))
				if i&1 == 0 {
					as = append(as, new(ownVar))
				} else {
					as = append(as, new(ownRGB))
				}
			}
			for k, x := range []struct {
				name string
				body []byte
				x, p interface{}
				get  func(i int) interface{}
				want func(i int) interface{}
			}{
				{"[]IReader", long, ls, &ls, func(i int) interface{} { return *ls[i].(*ownVar) }, func(i int) interface{} { return ovs[i] }},
				{"[]IShortReader", short, ss, &ss, func(i int) interface{} { return *ss[i].(*ownRGB) }, func(i int) interface{} { return ows[i] }},
				{"[]interface{}", any, as, &as, func(i int) interface{} { return reflect.ValueOf(as[i]).Elem().Interface() }, func(i int) interface{} {
					if i&1 == 0 {
						return ovs[i]
					}
					return ows[i]
				}},
			} {
				body := append([]byte(nil), x.body...)
				rest := pick(r, 0, 3)
				if tail {
					rest = 0
				}
				if ptr {
					x.x, x.name = x.p, "*"+x.name
					body = append(append([]byte(nil), count...), body...)
				}
				rd := &marshal.Reader{Body: append(body, pad(1, rest)...)}
				var err error
				p := guarded(func() {
					if tail {
						err = rd.ReadTail(x.x)
					} else {
						err = rd.Read(x.x)
					}
				})
				if p != nil || err != nil || len(rd.Body) != rest {
					e.Viol(cs, "list-read", "%s: reading of %s of %d: panic %v, error %v, %d bytes left instead of %d", cs, x.name, n, p, err, len(rd.Body), rest)
					continue
				}
				for i := 0; i < n; i++ {
					if x.get(i) != x.want(i) {
						e.Viol(cs, "list-read", "%s: reading of %s: element %d is %+v instead of %+v", cs, x.name, i, x.get(i), x.want(i))
					}
				}
				e.Count("lists of readers", 1)
				if ptr { // a wrong count is reported
					wrong, _ := refPrefix(nil, "i32", n+1-2*(k&1)+k/2)
					body = append(wrong, append(append([]byte(nil), x.body...), pad(0, 64)...)...)
					if p := guarded(func() { err = marshal.Read(body, x.x) }); p != nil || err == nil {
						e.Viol(cs, "list-count", "%s: reading of %s of %d elements where there are %x: panic %v, error %v", cs, x.name, n, wrong, p, err)
					}
				}
				if len(body) > 0 { // a cut one as well
					cut := r.IntN(len(x.body) + 1)
					if cut == len(x.body) {
						continue
					}
					b := append([]byte(nil), x.body[:cut]...)
					if ptr {
						b = append(append([]byte(nil), count...), b...)
					}
					if p := guarded(func() {
						if tail {
							err = marshal.ReadTail(b, x.x)
						} else {
							err = marshal.Read(b, x.x)
						}
					}); p != nil || err == nil {
						e.Viol(cs, "list-short", "%s: reading of %s of %d from %d bytes of %d: panic %v, error %v", cs, x.name, n, cut, len(x.body), p, err)
					}
				}
			}
		}
	}
	e.Eval(1)
}

// c12iface: fields of interface types are written as what they hold
func c12iface(e *Env, cs string, r *rand.Rand) {
	any := reflect.TypeOf((*interface{})(nil)).Elem()
	n := 1 + r.IntN(4)
	fs := make([]reflect.StructField, 0, n+1)
	ts := make([]reflect.Type, n)
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: any}
		sized := false
		if r.IntN(3) > 0 {
			k := pick(r, "size(", "cnt(")
			sized = k == "size("
			f.Tag = reflect.StructTag(`iproto:"` + k + pick(r, widths...) + `)"`)
		}
		fs = append(fs, f)
		if r.IntN(5) == 0 {
			continue // is nil
		}
		for {
			t, open := someType(r, false, false)
			if open && !sized || hasPtrIn(t, false) {
				continue
			}
			ts[i] = t
			break
		}
	}
	fs = append(fs, reflect.StructField{Name: "Mark", Type: reflect.TypeOf(uint32(0))})
	t := reflect.StructOf(fs)
	v, d := reflect.New(t).Elem(), reflect.New(t).Elem()
	for i, ft := range ts {
		if ft == nil {
			continue
		}
		p := reflect.New(ft)
		(&vgen{r, 5}).fill(p.Elem(), false)
		if r.IntN(3) == 0 {
			v.Field(i).Set(p)
		} else {
			v.Field(i).Set(p.Elem())
		}
		p = reflect.New(ft)
		prepare(p.Elem(), false)
		d.Field(i).Set(p)
	}
	v.Field(n).SetUint(uint64(r.Uint32()))
	x := ref{}
	x.auto(v, false)
	if x.bad || len(x.b) > 1<<16 {
		return
	}
	var got []byte
	show := fmt.Sprintf("%v %+v", t, v)
	if p := guarded(func() { got = marshal.Write(v.Interface()) }); p != nil || !bytes.Equal(got, x.b) {
		e.Viol(cs, "iface-write", "%s: Write of %s is\n% x instead of\n% x (panic %v)", cs, show, got, x.b, p)
		return
	}
	rd := &marshal.Reader{Body: append(append([]byte(nil), x.b...), 7)}
	var err error
	if p := guarded(func() { err = rd.Read(d.Addr().Interface()) }); p != nil || err != nil || len(rd.Body) != 1 {
		e.Viol(cs, "iface-read", "%s: Read of %s: panic %v, error %v, %d bytes left instead of 1", cs, show, p, err, len(rd.Body))
		return
	}
	for i, f := range rulesOf(t) {
		a, b := v.Field(i), d.Field(i)
		if i == n {
			if a.Uint() != b.Uint() {
				e.Viol(cs, "iface-read", "%s: Read of %s gives mark %x instead of %x", cs, show, b.Uint(), a.Uint())
			}
			continue
		}
		none := ts[i] == nil
		if !none && f.pre != 0 {
			y := ref{}
			y.content(a, false)
			none = f.pre == 's' && len(y.b) == 0 || f.pre == 'c' && refCountOf(a) == 0
		}
		if none && b.IsNil() {
			continue
		}
		if ts[i] == nil || b.IsNil() {
			e.Viol(cs, "iface-read", "%s: Read of %s: field %d is %v", cs, show, i, b)
			continue
		}
		for a.Kind() == reflect.Interface || a.Kind() == reflect.Ptr {
			a = a.Elem()
		}
		if ok, where := same(a, b.Elem().Elem(), 0); !ok {
			e.Viol(cs, "iface-read", "%s: Read of %s: field %d differs: %s", cs, show, i, where)
		}
	}
	e.Eval(1)
	e.Count("structures with interfaces", 1)
	e.Distinct("iface %v", ts)
}

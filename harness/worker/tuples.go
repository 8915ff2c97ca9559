package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"

	iproto "github.com/funny-falcon/go-iproto"
	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
)

func init() {
	props["C15"] = c15
	props["C16"] = c16
	props["C17"] = c17
}

// okField: a value which may be a field of a tuple and comes back
func okField(t reflect.Type, el bool) bool {
	if misplaced(t, true) || addressed(t) {
		return false
	}
	if t.Kind() == reflect.Ptr {
		if el || t.Elem() == ownTypes[0] || t.Elem() == ownTypes[1] {
			return false
		}
		return !hasPtrIn(t.Elem(), true)
	}
	return !hasPtrIn(t, true)
}

func (g *tgen) field(depth int) reflect.Type {
	for {
		if t := g.typ(depth); okField(t, true) {
			return t
		}
	}
}

// tupleStruct: members of structs may have tails
func tupleStruct(r *rand.Rand, own bool) reflect.Type {
	g := &tgen{r: r, own: own}
	for {
		k := r.IntN(5)
		t := g.structure(pick(r, 1, 2), k > 1 && r.IntN(4) == 0)
		ok := true
		var fs []reflect.StructField
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, t.Field(i))
		}
		for _, f := range rulesOf(t) {
			ok = ok && okField(t.Field(f.i).Type, false)
		}
		if !ok {
			continue
		}
		if k > 1 {
			return t
		}
		if r.IntN(8) == 0 {
			fs = nil
		}
		f := reflect.StructField{Name: "Tail", Tag: `sbox:"tail"`}
		if k == 0 {
			f.Type = reflect.SliceOf(g.field(1))
			if r.IntN(4) == 0 {
				f.Type = reflect.SliceOf(pick(r, uintTypes...))
				f.Tag = `sbox:"tail" iproto:"ber"`
			}
		} else {
			el := tupleStruct(r, own)
			for tailOf(el) != "" {
				el = tupleStruct(r, own)
			}
			for _, f := range rulesOf(el) {
				ok = ok && okField(el.Field(f.i).Type, true)
			}
			if !ok {
				continue
			}
			f.Type = reflect.SliceOf(el)
			f.Tag = `sbox:"tailsplit"`
		}
		fs = append(fs, f)
		if r.IntN(5) == 0 { // nothing which is written follows
			fs = append(fs, reflect.StructField{Name: "Skipped", Type: g.typ(0), Tag: `iproto:"skip"`})
		}
		return reflect.StructOf(fs)
	}
}

func tailOf(t reflect.Type) string {
	rs := rulesOf(t)
	return t.Field(rs[len(rs)-1].i).Tag.Get("sbox")
}

func tupleType(r *rand.Rand) reflect.Type {
	g := &tgen{r: r, own: r.IntN(2) == 0}
	switch r.IntN(12) {
	case 0:
		return g.num()
	case 1, 2:
		return pick(r, strTypes...)
	case 3, 4:
		return reflect.SliceOf(g.field(1))
	case 5:
		return reflect.ArrayOf(1+r.IntN(5), g.field(1))
	case 6:
		return reflect.ArrayOf(1+r.IntN(pick(r, 6, 300)), reflect.TypeOf(uint8(0)))
	}
	return tupleStruct(r, g.own)
}

// refTuple: fields of a tuple
func refFields(v reflect.Value) (fs [][]byte, ok bool) {
	ok = true
	add := func(v reflect.Value, ber bool) {
		x := ref{}
		x.content(v, ber)
		ok = ok && !x.bad
		fs = append(fs, x.b)
	}
	t := v.Type()
	switch k := v.Kind(); {
	case k == reflect.Ptr:
		return refFields(v.Elem())
	case (k == reflect.Slice || k == reflect.Array) && t.Elem().Kind() != reflect.Uint8:
		for i := 0; i < v.Len(); i++ {
			add(v.Index(i), false)
		}
	case k == reflect.Struct:
		for _, f := range rulesOf(t) {
			fv := v.Field(f.i)
			switch t.Field(f.i).Tag.Get("sbox") {
			case "tail":
				for i := 0; i < fv.Len(); i++ {
					add(fv.Index(i), f.ber)
				}
			case "tailsplit":
				for i := 0; i < fv.Len(); i++ {
					for _, h := range rulesOf(fv.Type().Elem()) {
						add(fv.Index(i).Field(h.i), h.ber)
					}
				}
			default:
				add(fv, f.ber)
			}
		}
	default:
		add(v, false)
	}
	return
}

func tupleOf(fs [][]byte) []byte {
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(fs)))
	for _, f := range fs {
		b = append(refVar(b, uint64(len(f))), f...)
	}
	return b
}

func refTuple(v reflect.Value) ([]byte, bool) {
	fs, ok := refFields(v)
	return tupleOf(fs), ok
}

// sameTuple: members of structs are sized, therefore pointers to nothing may become nil
func sameTuple(a, b reflect.Value) (bool, string) {
	t := a.Type()
	switch a.Kind() {
	case reflect.Ptr:
		return sameTuple(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false, fmt.Sprintf("length %d and %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if ok, w := sameField(a.Index(i), b.Index(i)); !ok {
				return false, fmt.Sprintf("[%d]%s", i, w)
			}
		}
		return true, ""
	case reflect.Struct:
		if t.Implements(tOwner) {
			break
		}
		for _, f := range rulesOf(t) {
			x, y := a.Field(f.i), b.Field(f.i)
			n := t.Field(f.i).Name
			if t.Field(f.i).Tag.Get("sbox") == "tailsplit" {
				if x.Len() != y.Len() {
					return false, "." + n + fmt.Sprintf(": length %d and %d", x.Len(), y.Len())
				}
				for i := 0; i < x.Len(); i++ {
					if ok, w := sameTuple(x.Index(i), y.Index(i)); !ok {
						return false, fmt.Sprintf(".%s[%d]%s", n, i, w)
					}
				}
			} else if ok, w := sameField(x, y); !ok {
				return false, "." + n + w
			}
		}
		return true, ""
	}
	return sameField(a, b)
}

func sameField(a, b reflect.Value) (bool, string) {
	if a.Kind() == reflect.Ptr {
		return same(a, b, 's')
	}
	return same(a, b, 0)
}

func text(v interface{}) string {
	s := fmt.Sprintf("%+v", v)
	if len(s) > 1200 {
		s = s[:1200] + "..."
	}
	return s
}

func c15(e *Env) {
	e.Cases(e.N(72000, 864000), 4, func(i int, r *rand.Rand) {
		c15case(e, fmt.Sprintf("case %d", i), r)
	})
}

func c15case(e *Env, cs string, r *rand.Rand) {
	t := tupleType(r)
	what := fmt.Sprintf("%s: %v", cs, t)
	dirty := reflect.New(t)
	w := &marshal.Writer{DefSize: pick(r, 0, 1, 16, 512)}
	for n := 0; n < 5 && !e.violated(); n++ {
		pv := reflect.New(t)
		(&vgen{r, pick(r, 2, 5, 20, 140)}).fill(pv.Elem(), false)
		v := pv.Elem()
		fields, ok := refFields(v)
		enc := tupleOf(fields)
		if !ok || len(enc) > 1<<17 {
			e.Count("values not fitting their prefixes", 1)
			continue
		}
		val := func() string { return text(v.Interface()) }
		ppv := reflect.New(pv.Type())
		ppv.Elem().Set(pv)
		for k, x := range []interface{}{pv.Interface(), v.Interface(), ppv.Interface()} {
			var got []byte
			if p := guarded(func() {
				if k == 1 {
					w.Uint16(0xbeef)
				}
				sbox.WriteTuple(w, x)
				got = w.Written()
				if k == 1 {
					got = got[2:]
				}
			}); p != nil {
				e.Viol(cs, "encode-panic", "%s: writing tuple %s panics: %v", what, val(), p)
				return
			}
			if !bytes.Equal(got, enc) {
				e.Viol(cs, "encode", "%s: tuple %s is written as\n% x instead of\n% x", what, val(), got, enc)
				return
			}
		}
		e.Count("tuples written", 3)
		if len(fields) > 0 && t.Kind() != reflect.Struct {
			var list []interface{} // the same as values of any types
			if t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Uint8 {
				for i := 0; i < v.Len(); i++ {
					list = append(list, v.Index(i).Interface())
				}
			} else if t.Kind() != reflect.Array {
				list = []interface{}{v.Interface()}
			}
			if list != nil {
				var got []byte
				p := guarded(func() { sbox.WriteTuple(w, list); got = w.Written() })
				if p != nil || !bytes.Equal(got, enc) {
					e.Viol(cs, "encode", "%s: tuple %s of values of any types is written as\n% x instead of\n% x (%v)", what, val(), got, enc, p)
					return
				}
			}
		}
		read := func(name string, b []byte, rest int, dst reflect.Value) bool {
			for _, sized := range []bool{false, true} {
				in := b
				if sized {
					in = append(binary.LittleEndian.AppendUint32(nil, uint32(len(b)-4)), b...)
				}
				rd := &marshal.Reader{Body: append(append([]byte(nil), in...), pad(7, rest)...)}
				var err error
				p := guarded(func() {
					if sized {
						err = sbox.ReadSizedTuple(rd, dst.Interface())
					} else {
						err = sbox.ReadRawTuple(rd, dst.Interface())
					}
				})
				if p != nil {
					e.Viol(cs, "decode-panic", "%s: %s of tuple %s panics: %v", what, name, val(), p)
					return false
				}
				if err != nil || rd.Err != nil {
					e.Viol(cs, "decode-error", "%s: %s of tuple %s (% x) fails: %v", what, name, val(), b, err)
					return false
				}
				if len(rd.Body) != rest && (sized || len(b) == len(enc)) {
					e.Viol(cs, "decode-rest", "%s: %s of tuple %s leaves %d bytes instead of %d", what, name, val(), len(rd.Body), rest)
					return false
				}
				if ok, where := sameTuple(v, dst.Elem()); !ok {
					e.Viol(cs, "decode", "%s: %s of tuple %s (% x) gives another value %s: %s", what, name, val(), b, text(dst.Elem().Interface()), where)
					return false
				}
				e.Count("tuples read", 1)
			}
			return true
		}
		if !read("reading", enc, pick(r, 0, 1, 9), reflect.New(t)) || !read("reading over another value", enc, 0, dirty) {
			return
		}
		// into what is already there
		if t.Kind() == reflect.Slice {
			sl := reflect.MakeSlice(t, v.Len(), v.Len())
			rd := &marshal.Reader{Body: enc}
			var err error
			p := guarded(func() { err = sbox.ReadRawTuple(rd, sl.Interface()) })
			if ok, where := sameTuple(v, sl); p != nil || err != nil || !ok {
				e.Viol(cs, "decode-fixed", "%s: reading of tuple %s into a slice fails: %v %v %s", what, val(), p, err, where)
				return
			}
			if t.Elem().Kind() != reflect.Uint8 {
				var ptrs []interface{}
				var vars []reflect.Value
				for i := 0; i < v.Len(); i++ {
					p := reflect.New(t.Elem())
					vars = append(vars, p)
					ptrs = append(ptrs, p.Interface())
				}
				rd := &marshal.Reader{Body: enc}
				p := guarded(func() { err = sbox.ReadRawTuple(rd, ptrs) })
				if p != nil || err != nil {
					e.Viol(cs, "decode-fixed", "%s: reading of tuple %s into a list of pointers fails: %v %v", what, val(), p, err)
					return
				}
				for i := range vars {
					if ok, where := sameField(v.Index(i), vars[i].Elem()); !ok {
						e.Viol(cs, "decode-fixed", "%s: reading of tuple %s into a list of pointers: [%d]%s", what, val(), i, where)
						return
					}
				}
			}
		}
		fixed := true // arity
		tail := ""
		if t.Kind() == reflect.Struct {
			tail = tailOf(t)
			fixed = tail == ""
		} else if t.Kind() == reflect.Slice && t.Elem().Kind() != reflect.Uint8 {
			fixed = false
		}
		if fixed { // extra fields
			var more [][]byte
			more = append(more, fields...)
			for k := 1 + r.IntN(4); k > 0; k-- {
				more = append(more, pad(r.Uint64(), pick(r, 0, 1, 4, 200)))
			}
			if !read("reading with extra fields", tupleOf(more), 0, reflect.New(t)) {
				return
			}
			e.Count("extra fields", 1)
		}
		if tail == "tailsplit" { // an incomplete element of the tail is an extra field as well
			last := t.Field(rulesOf(t)[len(rulesOf(t))-1].i)
			if n := len(rulesOf(last.Type.Elem())); n > 1 {
				more := append([][]byte(nil), fields...)
				for k := 1 + r.IntN(n-1); k > 0; k-- {
					more = append(more, pad(r.Uint64(), 3))
				}
				if !read("reading with an incomplete element", tupleOf(more), 0, reflect.New(t)) {
					return
				}
				e.Count("incomplete elements of tails", 1)
			}
		}
		// missing fields
		if !e.missing(cs, what, t, v, fields, r) {
			return
		}
		// fields of wrong size
		if len(fields) > 0 {
			i := r.IntN(len(fields))
			if ft := fieldType(t, i); ft != nil && fixedSize(ft) {
				bad := append([][]byte(nil), fields...)
				bad[i] = pick(r, append(append([]byte(nil), bad[i]...), 7), bad[i][:len(bad[i])-1], nil)
				rd := &marshal.Reader{Body: tupleOf(bad)}
				var err error
				p := guarded(func() { err = sbox.ReadRawTuple(rd, reflect.New(t).Interface()) })
				if p != nil || err == nil {
					e.Viol(cs, "wrong-size", "%s: field %d of %s, which has %d bytes instead of %d, is not reported (%v)", what, i, val(), len(bad[i]), len(fields[i]), p)
					return
				}
				e.Count("fields of wrong sizes reported", 1)
			}
		}
		e.Eval(1)
		e.Distinct("%v %d", t, min(len(fields), 9))
		e.Sample("%v: %s", t, show(enc))
	}
}

// fieldType gives the type of field i if it is simple to tell
func fieldType(t reflect.Type, i int) reflect.Type {
	switch t.Kind() {
	case reflect.Struct:
		rs := rulesOf(t)
		if i < len(rs) && !rs[i].ber && t.Field(rs[i].i).Tag.Get("sbox") == "" {
			return t.Field(rs[i].i).Type
		}
		return nil
	case reflect.Array, reflect.Slice:
		if t.Elem().Kind() != reflect.Uint8 {
			return t.Elem()
		}
		if t.Kind() == reflect.Slice {
			return nil
		}
	case reflect.String:
		return nil
	}
	return t
}

func fixedSize(t reflect.Type) bool {
	switch k := t.Kind(); {
	case k == reflect.Array:
		return fixedSize(t.Elem())
	case k >= reflect.Int && k <= reflect.Float64:
		return true
	}
	return false
}

// missing: tuples which have fewer fields than their types
func (e *Env) missing(cs, what string, t reflect.Type, v reflect.Value, fields [][]byte, r *rand.Rand) bool {
	k := t.Kind()
	if k == reflect.Slice && t.Elem().Kind() != reflect.Uint8 || len(fields) == 0 {
		return true
	}
	left := r.IntN(len(fields))
	b := tupleOf(fields[:left])
	dst, was := reflect.New(t), reflect.New(t)
	s1, s2 := r.Uint64(), r.Uint64()
	for _, p := range []reflect.Value{dst, was} { // equal values
		(&vgen{rand.New(rand.NewPCG(s1, s2)), 5}).fill(p.Elem(), false)
	}
	var err error
	rd := &marshal.Reader{Body: b}
	if p := guarded(func() { err = sbox.ReadRawTuple(rd, dst.Interface()) }); p != nil {
		e.Viol(cs, "decode-panic", "%s: reading of %d of %d fields panics: %v", what, left, len(fields), p)
		return false
	}
	if k != reflect.Struct {
		if err == nil {
			e.Viol(cs, "missing", "%s: reading of %d of %d fields is not reported", what, left, len(fields))
			return false
		}
		e.Count("missing fields reported", 1)
		return true
	}
	if err != nil {
		e.Viol(cs, "missing", "%s: reading of the first %d of %d fields of struct fails: %v", what, left, len(fields), err)
		return false
	}
	for i, f := range rulesOf(t) {
		a, name := was.Elem().Field(f.i), t.Field(f.i).Name
		if tail := t.Field(f.i).Tag.Get("sbox"); tail != "" {
			if i > left {
				if eq, where := equal(a, dst.Elem().Field(f.i)); !eq {
					e.Viol(cs, "missing", "%s: reading of the first %d of %d fields has changed .%s%s", what, left, len(fields), name, where)
					return false
				}
			}
			continue
		}
		if i < left {
			a = v.Field(f.i)
			if eq, where := sameField(a, dst.Elem().Field(f.i)); !eq {
				e.Viol(cs, "missing", "%s: reading of the first %d of %d fields reads another .%s%s", what, left, len(fields), name, where)
				return false
			}
			continue
		}
		if eq, where := equal(a, dst.Elem().Field(f.i)); !eq {
			e.Viol(cs, "missing", "%s: reading of the first %d of %d fields has changed .%s%s", what, left, len(fields), name, where)
			return false
		}
	}
	e.Count("missing fields untouched", 1)
	return true
}

// equal: really equal
func equal(a, b reflect.Value) (bool, string) {
	if a.Kind() == reflect.Ptr && (a.IsNil() || b.IsNil()) {
		return a.IsNil() == b.IsNil(), "pointer"
	}
	return same(a, b, 0)
}

// Requests

type (
	keyStruct struct {
		Id     int32
		Domain string
	}
	keyList  []interface{}
	keyNum   uint32
	keyBytes []byte
)

// someKey gives a value which is one key and its tuple
func someKey(r *rand.Rand) (interface{}, []byte) {
	for {
		t := tupleType(r)
		if r.IntN(3) == 0 {
			t = pick(r, numTypes[r.IntN(len(numTypes))], reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf(keyStruct{}), reflect.TypeOf(keyNum(0)), reflect.TypeOf(keyBytes(nil)))
		}
		pv := reflect.New(t)
		(&vgen{r, pick(r, 2, 5, 20, 140)}).fill(pv.Elem(), false)
		b, ok := refTuple(pv.Elem())
		if !ok || len(b) > 1<<15 {
			continue
		}
		if r.IntN(3) == 0 {
			return pv.Interface(), b
		}
		return pv.Elem().Interface(), b
	}
}

// someKeys gives a way to give keys, and their tuples
func someKeys(r *rand.Rand) (keys interface{}, how string, tuples [][]byte) {
	fill := func(t reflect.Type, max int) reflect.Value {
		pv := reflect.New(t)
		(&vgen{r, max}).fill(pv.Elem(), false)
		return pv
	}
	one := func(v reflect.Value) {
		b, _ := refTuple(v)
		tuples = append(tuples, b)
	}
	count := pick(r, 0, 1, 2, 3, 10, 300)
	switch k := r.IntN(9); k {
	case 0: // the only key: anything except lists
		for {
			t := tupleType(r)
			if k := t.Kind(); (k == reflect.Slice || k == reflect.Array) && t.Elem().Kind() != reflect.Uint8 {
				continue
			}
			pv := fill(t, 9)
			if _, ok := refTuple(pv.Elem()); !ok {
				continue
			}
			one(pv.Elem())
			if r.IntN(2) == 0 {
				return pv.Interface(), fmt.Sprintf("*%v", t), tuples
			}
			return pv.Elem().Interface(), t.String(), tuples
		}
	case 1, 2, 3: // list of numbers, strings and so on
		el := pick(r, numTypes...)
		if k == 2 {
			el = pick(r, reflect.TypeOf(""), reflect.TypeOf([]byte(nil)), reflect.TypeOf(nstr("")), reflect.TypeOf(nbs(nil)), reflect.TypeOf([]string(nil)), reflect.TypeOf([]uint32(nil)), reflect.TypeOf([][]byte(nil)), reflect.TypeOf([3]uint16{}), reflect.TypeOf([5]byte{}))
		}
		if k == 3 {
			el = pick(r, reflect.TypeOf(keyStruct{}), tupleStruct(r, false))
		}
		for el.Kind() == reflect.Uint8 {
			el = pick(r, numTypes...)
		}
		t := reflect.SliceOf(el)
		if r.IntN(4) == 0 {
			t = reflect.ArrayOf(1+r.IntN(4), el)
		}
		pv := reflect.New(t)
		if t.Kind() == reflect.Slice {
			pv.Elem().Set(reflect.MakeSlice(t, count, count+r.IntN(2)))
		}
		for i := 0; i < pv.Elem().Len(); i++ {
			v := pv.Elem().Index(i)
			(&vgen{r, 5}).fill(v, false)
			if _, ok := refTuple(v); !ok {
				return someKeys(r)
			}
			one(v)
		}
		if r.IntN(4) == 0 {
			return pv.Interface(), fmt.Sprintf("*%v", t), tuples
		}
		return pv.Elem().Interface(), t.String(), tuples
	case 4: // list of pointers
		t := tupleStruct(r, false)
		v := reflect.MakeSlice(reflect.SliceOf(reflect.PointerTo(t)), 0, count)
		for i := 0; i < count; i++ {
			pv := fill(t, 4)
			if _, ok := refTuple(pv.Elem()); ok {
				v = reflect.Append(v, pv)
				one(pv.Elem())
			}
		}
		return v.Interface(), v.Type().String(), tuples
	case 5, 6: // list of anything
		list := []interface{}{}
		for i := 0; i < min(count, 20); i++ {
			k, b := someKey(r)
			list = append(list, k)
			tuples = append(tuples, b)
		}
		if k == 6 && r.IntN(2) == 0 {
			return keyList(list), "named []interface{}", tuples
		}
		return list, "[]interface{}", tuples
	case 7:
		list := make([][][]byte, count)
		for i := range list {
			for k := r.IntN(4); k > 0; k-- {
				list[i] = append(list[i], pad(r.Uint64(), r.IntN(150)))
			}
			tuples = append(tuples, tupleOf(list[i]))
		}
		return list, "[][][]byte", tuples
	}
	// values of all types known to the selector
	var n = r.Uint64()
	list := []interface{}{int8(n), uint8(n), int16(n), uint16(n), int32(n), uint32(n), int64(n), n, float32(n), float64(n), "key", []byte("bytes"), keyStruct{1, "a"}, &keyStruct{2, "b"}, keyNum(n), keyBytes("more")}
	x := list[r.IntN(len(list))]
	v := reflect.ValueOf(x)
	one(v)
	return x, fmt.Sprintf("%T", x), tuples
}

var opCodes = map[sbox.OpKind]byte{sbox.OpSet: 0, sbox.OpAdd: 1, sbox.OpAnd: 2, sbox.OpOr: 3, sbox.OpXor: 4, sbox.OpSplice: 5, sbox.OpDelete: 6, sbox.OpInsert: 7}

// someOp gives an operation and its encoding
func someOp(r *rand.Rand) (sbox.Op, []byte) {
	op := sbox.Op{Field: uint32(r.Uint64() >> (32 + r.IntN(32)))}
	b := binary.LittleEndian.AppendUint32(nil, op.Field)
	op.Op = pick(r, sbox.OpSet, sbox.OpAdd, sbox.OpAnd, sbox.OpOr, sbox.OpXor, sbox.OpSplice, sbox.OpDelete, sbox.OpInsert)
	code := opCodes[op.Op]
	if r.IntN(4) == 0 {
		op.Op = sbox.OpKind(code)
	}
	b = append(b, code)
	var val []byte
	le := binary.LittleEndian
	switch r.IntN(8) {
	case 0:
	case 1: // splice
		s := sbox.Slice{Offset: int32(r.Uint32()), Length: int32(r.Uint32())}
		var x []byte
		switch r.IntN(4) {
		case 0:
			s.Val = "spliced"
			x = []byte("spliced")
		case 1:
			x = pad(r.Uint64(), r.IntN(200))
			s.Val = x
		case 2:
			s.Val = uint16(0x1234)
			x = []byte{0x34, 0x12}
		}
		val = le.AppendUint32(append(val, 4), uint32(s.Offset))
		val = le.AppendUint32(append(val, 4), uint32(s.Length))
		val = append(refVar(val, uint64(len(x))), x...)
		op.Val = s
		if r.IntN(2) == 0 {
			op.Val = &s
		}
	default:
		for {
			t := pick(r, append(append([]reflect.Type{}, numTypes...), strTypes...)...)
			if r.IntN(4) == 0 {
				for t = tupleType(r); hasPtrIn(t, true); t = tupleType(r) {
				}
			}
			pv := reflect.New(t)
			(&vgen{r, pick(r, 3, 150)}).fill(pv.Elem(), false)
			x := ref{}
			x.content(pv.Elem(), false)
			if x.bad {
				continue
			}
			val = x.b
			op.Val = pv.Elem().Interface()
			if r.IntN(5) == 0 {
				op.Val = pv.Interface()
			}
			break
		}
	}
	return op, append(refVar(b, uint64(len(val))), val...)
}

func c16(e *Env) {
	e.Cases(e.N(120000, 1440000), 4, func(i int, r *rand.Rand) {
		c16case(e, fmt.Sprintf("case %d", i), r)
	})
}

func c16case(e *Env, cs string, r *rand.Rand) {
	le := binary.LittleEndian
	var req, ptr interface{}
	var want []byte
	var msg iproto.RequestType
	num := func() uint32 { return uint32(r.Uint64() >> (32 + r.IntN(32))) }
	space := num()
	want = le.AppendUint32(want, space)
	ret := r.IntN(2) == 0
	flags := uint32(0)
	if ret {
		flags = 1
	}
	how := ""
	switch r.IntN(6) {
	case 0, 1:
		keys, h, tuples := someKeys(r)
		how = "select by " + h
		q := sbox.SelectReq{Space: space, Index: num(), Offset: num(), Limit: pick(r, sbox.SelectAll, sbox.SelectN, 0, 1, 1<<31-1, int32(num()>>1), -3, -1<<31, -int32(num()>>1)), Keys: keys}
		want = le.AppendUint32(want, q.Index)
		want = le.AppendUint32(want, q.Offset)
		limit := uint32(q.Limit)
		if q.Limit == sbox.SelectN {
			limit = uint32(len(tuples))
		} else if q.Limit < 0 {
			limit = 1<<31 - 1
		}
		want = le.AppendUint32(want, limit)
		want = le.AppendUint32(want, uint32(len(tuples)))
		for _, b := range tuples {
			want = append(want, b...)
		}
		var n int
		var w marshal.Writer
		p := guarded(func() { n = sbox.CountKeys(keys); sbox.WriteKeys(&w, keys) })
		if p != nil {
			e.Viol(cs, "keys-panic", "%s: %s: keys %s panic: %v", cs, how, text(keys), p)
			return
		}
		if got := w.Written(); n != len(tuples) || !bytes.Equal(got, bytes.Join(tuples, nil)) {
			e.Viol(cs, "keys", "%s: %s: %d keys instead of %d are written as\n% x instead of\n% x", cs, how, n, len(tuples), got, bytes.Join(tuples, nil))
			return
		}
		req, ptr, msg = q, &q, 17
		e.Count("selects", 1)
		e.Count("keys", len(tuples))
		e.Distinct("select %s %d", how, min(len(tuples), 9))
	case 2:
		k, b := someKey(r)
		q := sbox.StoreReq{Space: space, Return: ret, Mode: pick(r, uint16(sbox.InsertOrReplace), uint16(sbox.Insert), uint16(sbox.Replace), 3, 4, 0xffff), Tuple: k}
		flags |= uint32(q.Mode) << 1
		want = append(le.AppendUint32(want, flags), b...)
		req, ptr, msg = q, &q, 13
		how = fmt.Sprintf("store of %T", k)
		e.Count("stores", 1)
		e.Distinct("%s", how)
	case 3:
		k, b := someKey(r)
		q := sbox.DeleteReq{Space: space, Return: ret, Key: k}
		want = append(le.AppendUint32(want, flags), b...)
		req, ptr, msg = q, &q, 21
		how = fmt.Sprintf("delete by %T", k)
		e.Count("deletes", 1)
		e.Distinct("%s", how)
	case 4:
		k, b := someKey(r)
		q := sbox.UpdateReq{Space: space, Return: ret, Key: k}
		want = append(le.AppendUint32(want, flags), b...)
		n := r.IntN(pick(r, 2, 5, 40))
		want = le.AppendUint32(want, uint32(n))
		for i := 0; i < n; i++ {
			op, b := someOp(r)
			q.Ops = append(q.Ops, op)
			want = append(want, b...)
			var got []byte
			p := guarded(func() { got = marshal.Write(op) })
			if p != nil || !bytes.Equal(got, b) {
				e.Viol(cs, "op", "%s: operation %c of field %d with %T %s is written as\n% x instead of\n% x (%v)", cs, op.Op, op.Field, op.Val, text(op.Val), got, b, p)
				return
			}
			e.Distinct("op %d %T", op.Op, op.Val)
		}
		e.Count("updates", 1)
		e.Count("operations", n)
		req, ptr, msg = q, &q, 19
		how = fmt.Sprintf("update by %T", k)
	case 5:
		q := sbox.RPCReq{Name: string(pad(r.Uint64(), pick(r, 0, 1, 10, 127, 128, 129, 300)))}
		want = le.AppendUint32(nil, 0)
		want = append(refVar(want, uint64(len(q.Name))), q.Name...)
		n := r.IntN(pick(r, 2, 5, 300))
		want = le.AppendUint32(want, uint32(n))
		for i := 0; i < n; i++ {
			a := string(pad(r.Uint64(), r.IntN(pick(r, 2, 10, 200, 20000/(n+1)))))
			q.Args = append(q.Args, a)
			want = append(refVar(want, uint64(len(a))), a...)
		}
		req, ptr, msg = q, &q, 22
		how = "call"
		e.Count("calls", 1)
		e.Distinct("call %d %d", n, len(q.Name))
	}
	for _, x := range []interface{}{req, ptr} {
		var got, body []byte
		var typ iproto.RequestType
		serv := iproto.SF(func(q *iproto.Request) {
			typ, body = q.Msg, q.Body
			q.RespondBytes(iproto.RcOK, nil)
		})
		p := guarded(func() {
			got = marshal.Write(x)
			switch cx := new(iproto.Context); r.IntN(4) {
			case 0:
				iproto.Call(serv, x.(iproto.RequestData))
			case 1:
				_, ch := iproto.Send(serv, x.(iproto.RequestData))
				<-ch
			case 2:
				cx.Call(serv, x.(iproto.RequestData))
			case 3:
				m := cx.NewMulti()
				m.Send(serv, x.(iproto.RequestData))
				m.Results()
			}
		})
		switch {
		case p != nil:
			e.Viol(cs, "panic", "%s: %s panics: %v\nrequest %T %s", cs, how, p, x, text(x))
			return
		case !bytes.Equal(got, want):
			e.Viol(cs, "encode", "%s: %s is written as\n% x instead of\n% x\nrequest %T %s", cs, how, got, want, x, text(x))
			return
		case typ != msg || !bytes.Equal(body, want):
			e.Viol(cs, "request", "%s: %s becomes request of type %d with body\n% x instead of %d\n% x", cs, how, typ, body, msg, want)
			return
		}
		e.Eval(1)
	}
	e.Sample("%s: %s", how, show(want))
}

// Results

func resultOf(tuples [][]byte) []byte {
	b := binary.LittleEndian.AppendUint32(nil, uint32(len(tuples)))
	for _, t := range tuples {
		b = binary.LittleEndian.AppendUint32(b, uint32(len(t)-4))
		b = append(b, t...)
	}
	return b
}

func c17(e *Env) {
	e.Cases(e.N(40000, 480000), 1, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		if !finishes(func() { c17case(e, cs, r) }) {
			e.hung(cs, "result", "reading of a result does not end")
		}
	})
}

// flat: a type of elements of a list of results
func flat(r *rand.Rand) reflect.Type {
	switch r.IntN(8) {
	case 0, 1:
		return pick(r, numTypes...)
	case 2:
		return reflect.TypeOf("")
	case 3:
		return reflect.SliceOf(pick(r, append([]reflect.Type{reflect.TypeOf("")}, numTypes...)...))
	case 4:
		return reflect.ArrayOf(1+r.IntN(4), pick(r, append([]reflect.Type{reflect.TypeOf("")}, numTypes...)...))
	}
	return tupleStruct(r, r.IntN(2) == 0)
}

type shortTuple struct {
	A uint32
	B string
	C []byte
	D int8
}

// c17short: tuples with some of fields missing, read over results which were read before
func c17short(e *Env, cs string, r *rand.Rand) {
	var tuples [][]byte
	var want []shortTuple
	for n := r.IntN(6); n > 0; n-- {
		var x shortTuple
		var fs [][]byte
		k := r.IntN(5)
		if k > 0 {
			x.A = r.Uint32()
			fs = append(fs, binary.LittleEndian.AppendUint32(nil, x.A))
		}
		if k > 1 {
			x.B = string(pad(r.Uint64(), r.IntN(5)))
			fs = append(fs, []byte(x.B))
		}
		if k > 2 {
			x.C = pad(r.Uint64(), 1+r.IntN(5))
			fs = append(fs, x.C)
		}
		if k > 3 {
			x.D = int8(r.Uint32())
			fs = append(fs, []byte{byte(x.D)})
		}
		tuples = append(tuples, tupleOf(fs))
		want = append(want, x)
	}
	old := make([]shortTuple, 3+r.IntN(6))
	for i := range old {
		old[i] = shortTuple{0xAAAAAAAA, "old", []byte("bytes"), -5}
	}
	var got, keep []shortTuple
	how := r.IntN(3)
	ps := make([]*shortTuple, len(old))
	for i := range ps {
		ps[i] = &old[i]
	}
	pkeep := ps
	var n, total int
	var err error
	p := guarded(func() {
		switch how {
		case 0: // filled before
			got, keep = old[:r.IntN(len(old)+1)], old
			n, total, err = sbox.ReadMany(resultOf(tuples), &got)
		case 1: // with pointers
			keep = old
			n, total, err = sbox.ReadMany(resultOf(tuples), &ps)
			for _, x := range ps {
				if x != nil {
					got = append(got, *x)
				}
			}
		case 2: // behind a few in front
			keep = old
			var a, b shortTuple
			got = old[:r.IntN(len(old)+1)]
			n, total, err = sbox.ReadMany(resultOf(tuples), []interface{}{&a, &b, &got})
			got = append(append([]shortTuple{}, []shortTuple{a, b}[:min(2, len(want))]...), got[:max(0, min(len(got), len(want)-2))]...)
		}
	})
	same := len(got) == len(want)
	for i := range want {
		same = same && got[i].A == want[i].A && got[i].B == want[i].B && bytes.Equal(got[i].C, want[i].C) && got[i].D == want[i].D
	}
	if p != nil || err != nil || total != len(want) || n != len(want) && how < 2 || !same {
		e.Viol(cs, "short", "%s: tuples with missing fields %+v read over another result (%d) give %+v, %d, %d, %v (panic: %v)", cs, want, how, got, n, total, err, p)
		return
	}
	for i, x := range keep {
		if x.A != 0xAAAAAAAA || x.B != "old" || string(x.C) != "bytes" || x.D != -5 || how == 1 && pkeep[i] != &old[i] {
			e.Viol(cs, "short", "%s: reading a result into a variable (%d) has changed what was read into it before: element %d is %+v", cs, how, i, x)
			return
		}
	}
	e.Count("results with missing fields", 1)
}

// c17values: tuples are read into what an array given by value has in it
func c17values(e *Env, cs string, r *rand.Rand) {
	var tuples [][]byte
	var want [2][]byte
	var wantN [2][]uint16
	n := r.IntN(4)
	nums, anew := r.IntN(2) == 0, r.IntN(3) == 0
	for i := 0; i < n; i++ {
		k := pick(r, 0, 1, 2, 7, 200)
		b := pad(r.Uint64(), 2*k)
		var fs [][]byte
		var ns []uint16
		for j := 0; j < k; j++ {
			fs = append(fs, b[2*j:2*j+2])
			ns = append(ns, binary.LittleEndian.Uint16(b[2*j:]))
		}
		if i < 2 {
			want[i], wantN[i] = b, ns
		}
		if !nums {
			fs = [][]byte{b}
		}
		for m := r.IntN(3); m > 0 && !(nums && anew); m-- { // extra ones
			fs = append(fs, []byte{1, 2, 3})
		}
		tuples = append(tuples, tupleOf(fs))
	}
	less, at := r.IntN(4) == 0, r.IntN(2) // what is there is of another length
	var got [2][]byte
	var gotN [2][]uint16
	for i := range got {
		got[i], gotN[i] = make([]byte, len(want[i])), make([]uint16, len(wantN[i]))
	}
	if less {
		got[at] = append(got[at], 0)
		gotN[at] = append(gotN[at], 0)
		if less = at < n; !less {
			return
		}
	}
	var dst interface{} = got
	if nums {
		dst = gotN
	}
	if anew { // elements of slices are made anew
		dst = got[:]
		if nums {
			dst = gotN[:]
		}
		if less {
			return
		}
	}
	var k, total int
	var err error
	p := guarded(func() { k, total, err = sbox.ReadMany(resultOf(tuples), dst) })
	if less {
		if p != nil || total != n || err == nil {
			e.Viol(cs, "values-less", "%s: %d tuples (numbers: %v) read into %T by value, where slice %d is longer by one: %d %d %v (panic %v)", cs, n, nums, dst, at, k, total, err, p)
		}
		return
	}
	same := true
	for i := 0; i < min(n, 2); i++ {
		if nums {
			same = same && slices.Equal(gotN[i], wantN[i])
		} else {
			same = same && bytes.Equal(got[i], want[i])
		}
	}
	if p != nil || err != nil || total != n || k != min(n, 2) || !same {
		e.Viol(cs, "values", "%s: %d tuples (numbers: %v) read into %T by value: %d %d %v (panic %v): %x %x instead of %x %x", cs, n, nums, dst, k, total, err, p, got, gotN, want, wantN)
		return
	}
	e.Count("results read into values", 1)
}

func c17case(e *Env, cs string, r *rand.Rand) {
	t := flat(r)
	n := pick(r, 0, 1, 2, 3, 5, 20, 200)
	var vals []reflect.Value
	var tuples [][]byte
	for len(vals) < n {
		pv := reflect.New(t)
		(&vgen{r, pick(r, 2, 5, 20)}).fill(pv.Elem(), false)
		if b, ok := refTuple(pv.Elem()); ok {
			vals = append(vals, pv.Elem())
			tuples = append(tuples, b)
		}
		if len(tuples) > 3 && len(tuples[0]) > 3000 {
			break
		}
	}
	n = len(vals)
	res := resultOf(tuples)
	what := fmt.Sprintf("%s: result of %d %v", cs, n, t)
	type got struct {
		read, total int
		first       bool
		err         error
	}
	call := func(b []byte, dst interface{}, first bool) (g got, ok bool) {
		in := within(b, 0xEE)
		var p interface{}
		k := allocated(func() {
			p = guarded(func() {
				if first {
					g.first, g.total, g.err = sbox.ReadFirst(in, dst)
				} else {
					g.read, g.total, g.err = sbox.ReadMany(in, dst)
				}
			})
		})
		e.Eval(1)
		switch {
		case p != nil:
			e.Viol(cs, "panic", "%s: reading %s into %T panics: %v", what, show(b), dst, p)
		case allocatesMuch(k, allowed(len(b))+64*uint64(len(b))*uint64(t.Size()), func() {
			if first {
				sbox.ReadFirst(in, dst)
			} else {
				sbox.ReadMany(in, dst)
			}
		}):
			e.Viol(cs, "allocation", "%s: reading %d bytes %s into %T allocates %d bytes", what, len(b), show(b), dst, k)
		case !bytes.Equal(in, b):
			e.Viol(cs, "input", "%s: reading into %T has changed the input", what, dst)
		default:
			return g, true
		}
		return g, false
	}
	// shape gives a destination, how many tuples fit, and where they are
	shape := func(k, n int) (dst interface{}, room int, at func(i int) reflect.Value) {
		st := reflect.SliceOf(t)
		pt := reflect.SliceOf(reflect.PointerTo(t))
		switch k {
		case 0: // *[]T
			p := reflect.New(st)
			if r.IntN(2) == 0 { // there is something already
				p.Elem().Set(reflect.MakeSlice(st, r.IntN(4), 6))
			}
			return p.Interface(), n, func(i int) reflect.Value { return p.Elem().Index(i) }
		case 1: // *[]*T
			p := reflect.New(pt)
			return p.Interface(), n, func(i int) reflect.Value { return p.Elem().Index(i).Elem() }
		case 2: // *[room]T
			room = r.IntN(n + 3)
			p := reflect.New(reflect.ArrayOf(room, t))
			return p.Interface(), room, func(i int) reflect.Value { return p.Elem().Index(i) }
		case 3: // []*T, some of them are there
			room = r.IntN(n + 3)
			s := reflect.MakeSlice(pt, room, room)
			for i := 0; i < room; i++ {
				if r.IntN(2) == 0 {
					s.Index(i).Set(reflect.New(t))
				}
			}
			return s.Interface(), room, func(i int) reflect.Value { return s.Index(i).Elem() }
		case 4: // [room]*T
			room = r.IntN(min(n, 5) + 3)
			a := reflect.New(reflect.ArrayOf(room, reflect.PointerTo(t))).Elem()
			for i := 0; i < room; i++ {
				a.Index(i).Set(reflect.New(t))
			}
			return a.Interface(), room, func(i int) reflect.Value { return a.Index(i).Elem() }
		case 5: // one
			p := reflect.New(t)
			return p.Interface(), 1, func(i int) reflect.Value { return p.Elem() }
		case 6: // **T
			p := reflect.New(reflect.PointerTo(t))
			return p.Interface(), 1, func(i int) reflect.Value { return p.Elem().Elem() }
		}
		// list of pointers
		room = r.IntN(n + 3)
		var list []interface{}
		for i := 0; i < room; i++ {
			if i%2 == 0 {
				list = append(list, reflect.New(t).Interface())
			} else {
				list = append(list, reflect.New(reflect.PointerTo(t)).Interface())
			}
		}
		at = func(i int) reflect.Value {
			v := reflect.ValueOf(list[i]).Elem()
			if i%2 != 0 {
				v = v.Elem()
			}
			return v
		}
		if r.IntN(2) == 0 {
			return &list, room, at
		}
		return list, room, at
	}
	single := func() (int, bool) { // lists themselves are lists of results, not results
		switch t.Kind() {
		case reflect.Slice, reflect.Array:
			return r.IntN(5), false
		}
		return r.IntN(8), true
	}
	check := func(name string, dst interface{}, g got, want, total int, at func(i int) reflect.Value, skip int) bool {
		if g.err != nil && skip < 0 {
			e.Viol(cs, "error", "%s: %s into %T fails: %v", what, name, dst, g.err)
			return false
		}
		if g.total != total || g.read != want {
			e.Viol(cs, "count", "%s: %s into %T gives %d of %d instead of %d of %d", what, name, dst, g.read, g.total, want, total)
			return false
		}
		for i := 0; i < want; i++ {
			if i == skip {
				continue
			}
			if ok, where := sameTuple(vals[i], at(i)); !ok {
				e.Viol(cs, "tuple", "%s: %s into %T: tuple %d %s differs at %s: %s", what, name, dst, i, text(vals[i].Interface()), where, text(at(i).Interface()))
				return false
			}
		}
		return true
	}
	for k := 0; k < 4; k++ {
		sh, _ := single()
		dst, room, at := shape(sh, n)
		b := res
		if r.IntN(3) == 0 {
			b = append(append([]byte(nil), res...), pad(9, 12)...)
		}
		g, ok := call(b, dst, false)
		if !ok || !check("ReadMany", dst, g, min(room, n), n, at, -1) {
			return
		}
		e.Count("results read", 1)
		e.Count("tuples read", g.read)
		e.Distinct("%v %d %d", t, sh, min(n, 3))
	}
	// first
	p := reflect.New(t)
	if r.IntN(3) == 0 {
		p = reflect.New(reflect.PointerTo(t))
		p.Elem().Set(reflect.New(t))
	}
	g, ok := call(res, p.Interface(), true)
	if !ok {
		return
	}
	if g.err != nil || g.total != n || g.first != (n > 0) {
		e.Viol(cs, "first", "%s: ReadFirst gives %v, %d, %v", what, g.first, g.total, g.err)
		return
	}
	if n > 0 {
		v := p.Elem()
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if ok, where := sameTuple(vals[0], v); !ok {
			e.Viol(cs, "first", "%s: ReadFirst of %s differs at %s: %s", what, text(vals[0].Interface()), where, text(v.Interface()))
			return
		}
	}
	// cut before the end of the first tuple
	for k := 0; k < 6; k++ {
		end := 4
		if n > 0 {
			end = 8 + len(tuples[0])
		}
		cut := r.IntN(end)
		if k < 4 {
			cut = k + 1
		}
		if cut >= end || cut == 4 && n == 0 {
			continue
		}
		g, ok := call(res[:cut], reflect.New(t).Interface(), true)
		if !ok {
			return
		}
		if g.err == nil {
			e.Viol(cs, "truncated", "%s: ReadFirst of the first %d of %d bytes, the first tuple ends at %d, gives no error", what, cut, len(res), end)
			return
		}
	}
	c17short(e, cs, r)
	c17values(e, cs, r)
	c17values(e, cs, r)
	// a few in front and the rest behind
	if _, ok := single(); ok && n > 1 {
		front := 1 + r.IntN(min(n-1, 4))
		var list []interface{}
		for i := 0; i < front; i++ {
			list = append(list, reflect.New(t).Interface())
		}
		rest := reflect.New(reflect.SliceOf(t))
		list = append(list, rest.Interface())
		g, ok := call(res, list, false)
		if !ok {
			return
		}
		if g.err != nil || g.total != n || rest.Elem().Len() != n-front {
			e.Viol(cs, "mixed", "%s: %d in front and %d behind, total %d: %v", what, front, rest.Elem().Len(), g.total, g.err)
			return
		}
		for i := range vals {
			var v reflect.Value
			if i < front {
				v = reflect.ValueOf(list[i]).Elem()
			} else {
				v = rest.Elem().Index(i - front)
			}
			if ok, where := sameTuple(vals[i], v); !ok {
				e.Viol(cs, "mixed", "%s: tuple %d of %d in front and others behind differs at %s", what, i, front, where)
				return
			}
		}
		e.Count("mixed destinations", 1)
	}
	// one of tuples is malformed inside, its size is right
	if n > 0 && len(res) < 20000 {
		for k := 0; k < 3; k++ {
			bad := r.IntN(n)
			spoiled := append([][]byte(nil), tuples...)
			b := append([]byte(nil), spoiled[bad]...)
			sure := t.Kind() != reflect.Struct || tailOf(t) != "tailsplit" // it may be an incomplete element
			if len(b) > 4 && r.IntN(2) == 0 {
				b[4+r.IntN(len(b)-4)] ^= byte(1 + r.IntN(255))
				sure = false
			} else { // more fields than there are bytes, the first of them is too long
				b = append([]byte{3, 0, 0, 0, 0xff, 0x7f}, b[4:]...)
				if len(b) > 0x3f00 {
					continue
				}
			}
			spoiled[bad] = b
			sh, _ := single()
			dst, room, at := shape(sh, n)
			g, ok := call(resultOf(spoiled), dst, false)
			if !ok || !check(fmt.Sprintf("ReadMany with malformed tuple %d", bad), dst, g, min(room, n), n, at, bad) {
				return
			}
			if sure && bad < room && g.err == nil {
				e.Viol(cs, "malformed", "%s: malformed tuple %d % x read into %T is not reported", what, bad, b, dst)
				return
			}
			if bad >= room && g.err != nil {
				e.Viol(cs, "malformed", "%s: tuple %d is not read, but reported into %T: %v", what, bad, dst, g.err)
				return
			}
			if g.err != nil {
				e.Count("malformed tuples reported", 1)
			}
			if bad == 0 && sure {
				q := reflect.New(t)
				if g, ok := call(resultOf(spoiled), q.Interface(), true); !ok {
					return
				} else if g.err == nil {
					e.Viol(cs, "malformed", "%s: malformed first tuple % x is not reported", what, b)
					return
				}
			}
		}
	}
	// truncated and mutated
	for k := 0; k < 12; k++ {
		b := mutate(r, res)
		cut := -1
		switch k % 4 {
		case 0:
			cut = r.IntN(len(res))
			b = res[:cut]
		case 1: // a hostile count
			b = append([]byte(nil), res...)
			binary.LittleEndian.PutUint32(b, pick(r, 0xffffffff, 0x7fffffff, 0x80000000, uint32(n)+1, uint32(len(b)), 1<<24))
		}
		if len(b) > 20000 {
			continue
		}
		sh, _ := single()
		dst, room, _ := shape(sh, n)
		g, ok := call(b, dst, false)
		if !ok {
			return
		}
		if cut >= 0 && room >= n && g.err == nil {
			e.Viol(cs, "truncated", "%s: the first %d of %d bytes are read into %T without an error", what, cut, len(res), dst)
			return
		}
		if k%4 == 1 && n > 0 && sh == 0 && g.err == nil {
			e.Viol(cs, "truncated", "%s: a wrong count of tuples is read into %T without an error", what, dst)
			return
		}
		q := reflect.New(t)
		if g, ok = call(b, q.Interface(), true); !ok {
			return
		}
		if g.err != nil {
			e.Count("hostile results rejected", 1)
		} else {
			e.Count("hostile results accepted", 1)
		}
	}
	e.Sample("%v: %s", t, show(res))
}

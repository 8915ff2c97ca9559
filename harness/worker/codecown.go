package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"reflect"

	"github.com/funny-falcon/go-iproto/marshal"
)

// User types which tell and take their sizes and counts: methods of both flavours, of values and of pointers,
// with a tail reader or without it. Those without it can be read only if they are told their size or count.

var errOwn = errors.New("own type does not want that")

// cell is what they keep
type cell struct{ v []uint16 }

func (c *cell) write(w *marshal.Writer, key uint16) {
	for _, x := range c.v {
		w.Uint16(x ^ key)
	}
}

func (c *cell) read(r *marshal.Reader, key uint16) {
	for i := range c.v {
		c.v[i] = r.Uint16() ^ key
	}
}

func (c *cell) tail(r *marshal.Reader, key uint16) {
	c.v = nil
	for len(r.Body) > 1 && r.Err == nil {
		c.v = append(c.v, r.Uint16()^key)
	}
}

func (c *cell) setCount(n int) error {
	if n > 60 {
		return errOwn
	}
	c.v = make([]uint16, n)
	return nil
}

// choosy ones leave some sizes to their tail readers
func (c *cell) setSize(n int, choosy bool) (bool, error) {
	if n%2 != 0 || n > 120 {
		return false, errOwn
	}
	if choosy && n%4 == 0 {
		c.v = nil
		return false, nil
	}
	c.v = make([]uint16, n/2)
	return true, nil
}

type ownLongPtr struct{ C cell }

func (o *ownLongPtr) IWrite(self interface{}, w *marshal.Writer) {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	o.C.write(w, 0x1111)
}

func (o *ownLongPtr) ISize(self interface{}) int {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return 2 * len(o.C.v)
}

func (o *ownLongPtr) ICount(self interface{}) int {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return len(o.C.v)
}

func (o *ownLongPtr) IRead(self interface{}, r *marshal.Reader) {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	o.C.read(r, 0x1111)
}

func (o *ownLongPtr) ISetSize(self interface{}, n int) (bool, error) {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return o.C.setSize(n, false)
}

func (o *ownLongPtr) ISetCount(self interface{}, n int) error {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return o.C.setCount(n)
}

type ownLongPtrTail struct{ C cell }

func (o *ownLongPtrTail) IWrite(self interface{}, w *marshal.Writer) {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	o.C.write(w, 0x2222)
}

func (o *ownLongPtrTail) ISize(self interface{}) int {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return 2 * len(o.C.v)
}

func (o *ownLongPtrTail) ICount(self interface{}) int {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return len(o.C.v)
}

func (o *ownLongPtrTail) IRead(self interface{}, r *marshal.Reader) {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	o.C.read(r, 0x2222)
}

func (o *ownLongPtrTail) ISetSize(self interface{}, n int) (bool, error) {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return o.C.setSize(n, true)
}

func (o *ownLongPtrTail) ISetCount(self interface{}, n int) error {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	return o.C.setCount(n)
}

func (o *ownLongPtrTail) IReadTail(self interface{}, r *marshal.Reader) {
	if self != interface{}(o) {
		panic("own type is given another value of itself")
	}
	o.C.tail(r, 0x2222)
}

type ownLongVal struct{ c *cell }

func (o ownLongVal) IWrite(self interface{}, w *marshal.Writer) {
	if p, ok := self.(*ownLongVal); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	o.c.write(w, 0x3333)
}

func (o ownLongVal) ISize(self interface{}) int {
	if p, ok := self.(*ownLongVal); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return 2 * len(o.c.v)
}

func (o ownLongVal) ICount(self interface{}) int {
	if p, ok := self.(*ownLongVal); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return len(o.c.v)
}

func (o ownLongVal) IRead(self interface{}, r *marshal.Reader) {
	if p, ok := self.(*ownLongVal); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	o.c.read(r, 0x3333)
}

func (o ownLongVal) ISetSize(self interface{}, n int) (bool, error) {
	if p, ok := self.(*ownLongVal); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return o.c.setSize(n, false)
}

func (o ownLongVal) ISetCount(self interface{}, n int) error {
	if p, ok := self.(*ownLongVal); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return o.c.setCount(n)
}

type ownLongValTail struct{ c *cell }

func (o ownLongValTail) IWrite(self interface{}, w *marshal.Writer) {
	if p, ok := self.(*ownLongValTail); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	o.c.write(w, 0x4444)
}

func (o ownLongValTail) ISize(self interface{}) int {
	if p, ok := self.(*ownLongValTail); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return 2 * len(o.c.v)
}

func (o ownLongValTail) ICount(self interface{}) int {
	if p, ok := self.(*ownLongValTail); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return len(o.c.v)
}

func (o ownLongValTail) IRead(self interface{}, r *marshal.Reader) {
	if p, ok := self.(*ownLongValTail); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	o.c.read(r, 0x4444)
}

func (o ownLongValTail) ISetSize(self interface{}, n int) (bool, error) {
	if p, ok := self.(*ownLongValTail); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return o.c.setSize(n, true)
}

func (o ownLongValTail) ISetCount(self interface{}, n int) error {
	if p, ok := self.(*ownLongValTail); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	return o.c.setCount(n)
}

func (o ownLongValTail) IReadTail(self interface{}, r *marshal.Reader) {
	if p, ok := self.(*ownLongValTail); self != interface{}(o) && !(ok && *p == o) {
		panic("own type is given another value of itself")
	}
	o.c.tail(r, 0x4444)
}

type ownShortPtr struct{ C cell }

func (o *ownShortPtr) IWrite(w *marshal.Writer) {
	o.C.write(w, 0x5555)
}

func (o *ownShortPtr) ISize() int {
	return 2 * len(o.C.v)
}

func (o *ownShortPtr) ICount() int {
	return len(o.C.v)
}

func (o *ownShortPtr) IRead(r *marshal.Reader) {
	o.C.read(r, 0x5555)
}

func (o *ownShortPtr) ISetSize(n int) (bool, error) {
	return o.C.setSize(n, false)
}

func (o *ownShortPtr) ISetCount(n int) error {
	return o.C.setCount(n)
}

type ownShortPtrTail struct{ C cell }

func (o *ownShortPtrTail) IWrite(w *marshal.Writer) {
	o.C.write(w, 0x6666)
}

func (o *ownShortPtrTail) ISize() int {
	return 2 * len(o.C.v)
}

func (o *ownShortPtrTail) ICount() int {
	return len(o.C.v)
}

func (o *ownShortPtrTail) IRead(r *marshal.Reader) {
	o.C.read(r, 0x6666)
}

func (o *ownShortPtrTail) ISetSize(n int) (bool, error) {
	return o.C.setSize(n, true)
}

func (o *ownShortPtrTail) ISetCount(n int) error {
	return o.C.setCount(n)
}

func (o *ownShortPtrTail) IReadTail(r *marshal.Reader) {
	o.C.tail(r, 0x6666)
}

type ownShortVal struct{ c *cell }

func (o ownShortVal) IWrite(w *marshal.Writer) {
	o.c.write(w, 0x7777)
}

func (o ownShortVal) ISize() int {
	return 2 * len(o.c.v)
}

func (o ownShortVal) ICount() int {
	return len(o.c.v)
}

func (o ownShortVal) IRead(r *marshal.Reader) {
	o.c.read(r, 0x7777)
}

func (o ownShortVal) ISetSize(n int) (bool, error) {
	return o.c.setSize(n, false)
}

func (o ownShortVal) ISetCount(n int) error {
	return o.c.setCount(n)
}

type ownShortValTail struct{ c *cell }

func (o ownShortValTail) IWrite(w *marshal.Writer) {
	o.c.write(w, 0x8888)
}

func (o ownShortValTail) ISize() int {
	return 2 * len(o.c.v)
}

func (o ownShortValTail) ICount() int {
	return len(o.c.v)
}

func (o ownShortValTail) IRead(r *marshal.Reader) {
	o.c.read(r, 0x8888)
}

func (o ownShortValTail) ISetSize(n int) (bool, error) {
	return o.c.setSize(n, true)
}

func (o ownShortValTail) ISetCount(n int) error {
	return o.c.setCount(n)
}

func (o ownShortValTail) IReadTail(r *marshal.Reader) {
	o.c.tail(r, 0x8888)
}

type ownKind struct {
	t         reflect.Type
	key       uint16
	val, tail bool
}

var ownKinds = []ownKind{
	{reflect.TypeOf(ownLongPtr{}), 0x1111, false, false},
	{reflect.TypeOf(ownLongPtrTail{}), 0x2222, false, true},
	{reflect.TypeOf(ownLongVal{}), 0x3333, true, false},
	{reflect.TypeOf(ownLongValTail{}), 0x4444, true, true},
	{reflect.TypeOf(ownShortPtr{}), 0x5555, false, false},
	{reflect.TypeOf(ownShortPtrTail{}), 0x6666, false, true},
	{reflect.TypeOf(ownShortVal{}), 0x7777, true, false},
	{reflect.TypeOf(ownShortValTail{}), 0x8888, true, true},
}

// fresh gives an addressed value with its cell
func (k ownKind) fresh() (v reflect.Value, c *cell) {
	v = reflect.New(k.t)
	switch x := v.Interface().(type) {
	case *ownLongPtr:
		return v.Elem(), &x.C
	case *ownLongPtrTail:
		return v.Elem(), &x.C
	case *ownLongVal:
		x.c = new(cell)
		return v.Elem(), x.c
	case *ownLongValTail:
		x.c = new(cell)
		return v.Elem(), x.c
	case *ownShortPtr:
		return v.Elem(), &x.C
	case *ownShortPtrTail:
		return v.Elem(), &x.C
	case *ownShortVal:
		x.c = new(cell)
		return v.Elem(), x.c
	case *ownShortValTail:
		x.c = new(cell)
		return v.Elem(), x.c
	}
	panic("HARNESS: own kind")
}

// cellOf finds the cell of a value which is addressed or holds it, nil if there is none
func cellOf(v reflect.Value) *cell {
	for v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr && v.Type().Elem().Kind() != reflect.Slice {
		if v.IsNil() {
			return nil
		}
		v = v.Elem()
	}
	switch x := v.Interface().(type) {
	case ownLongPtr:
		c := x.C
		return &c
	case ownLongPtrTail:
		c := x.C
		return &c
	case ownLongVal:
		return x.c
	case ownLongValTail:
		return x.c
	case ownShortPtr:
		c := x.C
		return &c
	case ownShortPtrTail:
		c := x.C
		return &c
	case ownShortVal:
		return x.c
	case ownShortValTail:
		return x.c
	}
	panic("HARNESS: own kind")
}

func (k ownKind) content(v []uint16) (b []byte) {
	for _, x := range v {
		b = binary.LittleEndian.AppendUint16(b, x^k.key)
	}
	return
}

// c12own: structures, arrays and slices of such types, as they are, behind pointers and in interfaces
func c12own(e *Env, cs string, r *rand.Rand) {
	any := reflect.TypeOf((*interface{})(nil)).Elem()
	type slot struct {
		k     ownKind
		how   byte // 'v'alue, 'p'ointer, 'i'nterface with pointer, 'h' interface with value, 'a'rray, 's'lice
		tag   byte // 's', 'c', 0 or 'n': nothing tells the end
		width string
		vals  [][]uint16
		null  bool
	}
	n := 1 + r.IntN(4)
	var slots []slot
	var fs []reflect.StructField
	vals := func() []uint16 {
		v := make([]uint16, pick(r, 0, 1, 2, 3, 4, 9, 58))
		for i := range v {
			v[i] = uint16(r.Uint32())
		}
		return v
	}
	for i := 0; i < n; i++ {
		s := slot{k: pick(r, ownKinds...), tag: pick(r, byte('s'), 's', 'c', 'c', 0), width: pick(r, widths...)}
		s.how = pick(r, byte('v'), 'v', 'p', 'p', 'i', 'a', 's')
		if s.k.val {
			s.how = pick(r, byte('v'), 'v', 'h', 'h', 'i', 'a')
		}
		if i == n-1 && s.k.tail && r.IntN(3) == 0 {
			s.tag, s.how = 'n', pick(r, byte('v'), 'i')
		}
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: s.k.t}
		s.vals = [][]uint16{vals()}
		switch s.how {
		case 'p':
			f.Type = reflect.PointerTo(s.k.t)
			s.null = r.IntN(4) == 0
		case 'i', 'h':
			f.Type = any
			s.null = r.IntN(8) == 0
		case 'a', 's':
			m := 1 + r.IntN(3)
			f.Type = reflect.ArrayOf(m, s.k.t)
			if s.how == 's' {
				f.Type = reflect.SliceOf(s.k.t)
			}
			for len(s.vals) < m {
				s.vals = append(s.vals, vals())
			}
		}
		if s.null {
			s.vals[0] = nil
		}
		switch s.tag {
		case 's':
			f.Tag = reflect.StructTag(`iproto:"size(` + s.width + `)"`)
		case 'c':
			f.Tag = reflect.StructTag(`iproto:"cnt(` + s.width + `)"`)
		case 'n':
			f.Tag = reflect.StructTag(`iproto:"` + pick(r, "size(no)", "cnt(no)") + `"`)
		}
		slots = append(slots, s)
		fs = append(fs, f)
	}
	open := slots[n-1].tag == 'n'
	if !open {
		fs = append(fs, reflect.StructField{Name: "Mark", Type: reflect.TypeOf(uint32(0))})
	}
	t := reflect.StructOf(fs)
	build := func(filled bool) reflect.Value {
		v := reflect.New(t).Elem()
		for i, s := range slots {
			if s.null && (filled || s.how == 'p' || s.tag == 0) || s.how == 'p' && !filled && r.IntN(2) == 0 {
				continue
			}
			f := v.Field(i)
			if s.how == 's' {
				if !filled {
					continue
				}
				f.Set(reflect.MakeSlice(f.Type(), len(s.vals), len(s.vals)))
			}
			for j, x := range s.vals {
				o, c := s.k.fresh()
				if filled {
					c.v = append([]uint16(nil), x...)
				} else if r.IntN(2) == 0 {
					c.v = vals()
				}
				switch s.how {
				case 'v', 'h':
					f.Set(o)
				case 'p', 'i':
					f.Set(o.Addr())
				case 'a', 's':
					f.Index(j).Set(o)
				}
			}
		}
		return v
	}
	prefix := func(b []byte, width string, n int) []byte {
		b, ok := refPrefix(b, width, n)
		if !ok {
			return nil
		}
		return b
	}
	var want []byte
	var ends []int
	for _, s := range slots {
		var in []byte
		cnt := len(s.vals[0])
		if s.how == 'a' || s.how == 's' {
			for _, x := range s.vals {
				in = prefix(in, "i32", len(x))
				in = append(in, s.k.content(x)...)
			}
			cnt = len(s.vals)
		} else {
			in = s.k.content(s.vals[0])
		}
		switch {
		case s.tag == 's':
			want = prefix(want, s.width, len(in))
		case s.tag == 'c':
			want = prefix(want, s.width, cnt)
		case s.tag == 0 && s.how != 'a' && !(s.null && s.how != 'p'):
			want = prefix(want, "i32", cnt)
		}
		if want == nil && len(in) > 0 { // does not fit its prefix
			return
		}
		want = append(want, in...)
		ends = append(ends, len(want))
	}
	v := build(true)
	if !open {
		m := r.Uint32()
		v.Field(n).SetUint(uint64(m))
		want = binary.LittleEndian.AppendUint32(want, m)
	}
	text := func() (s string) {
		s = t.String()
		for _, x := range slots {
			s += fmt.Sprintf(" %c:%x", x.how, x.vals)
		}
		return
	}
	var got []byte
	if p := guarded(func() { got = marshal.Write(v.Addr().Interface()) }); p != nil || !bytes.Equal(got, want) {
		e.Viol(cs, "own-write", "%s: Write of %s is\n% x instead of\n% x (panic %v)", cs, text(), got, want, p)
		return
	}
	d := build(false)
	rest := 0
	if !open {
		rest = r.IntN(3)
	}
	body := append(append([]byte(nil), want...), pad(5, rest)...)
	rd := &marshal.Reader{Body: body}
	var err error
	if p := guarded(func() {
		if open {
			err = rd.ReadTail(d.Addr().Interface())
		} else {
			err = rd.Read(d.Addr().Interface())
		}
	}); p != nil || err != nil || len(rd.Body) != rest {
		e.Viol(cs, "own-read", "%s: Read of %s: panic %v, error %v, %d bytes left instead of %d", cs, text(), p, err, len(rd.Body), rest)
		return
	}
	for i, s := range slots {
		f := d.Field(i)
		if s.how == 's' && f.Len() != len(s.vals) {
			e.Viol(cs, "own-read", "%s: Read of %s: field %d has %d elements", cs, text(), i, f.Len())
			return
		}
		for j, x := range s.vals {
			g := f
			if s.how == 'a' || s.how == 's' {
				g = f.Index(j)
			}
			c := cellOf(g)
			if c == nil && len(x) == 0 {
				continue
			}
			if c == nil || !(len(c.v) == 0 && len(x) == 0 || reflect.DeepEqual(c.v, x)) {
				e.Viol(cs, "own-read", "%s: Read of %s: field %d is %v instead of %x", cs, text(), i, c, x)
				return
			}
		}
	}
	if !open && d.Field(n).Uint() != v.Field(n).Uint() {
		e.Viol(cs, "own-read", "%s: Read of %s: mark differs", cs, text())
	}
	e.Count("values of types with own sizes", len(slots))
	// one of them by itself, with a size which is or is not liked
	s := slots[r.IntN(n)]
	if s.how == 's' || s.how == 'a' {
		s.vals = s.vals[:1]
	}
	in := s.k.content(s.vals[0])
	z := pick(r, sizers...)
	bad := r.IntN(3) == 0
	if bad {
		in = pad(7, pick(r, 1, 3, 7, 121, 122, 200))
	}
	b, ok := refPrefix(nil, z.width, len(in))
	if !ok {
		return
	}
	b = append(append(b, in...), pad(9, 3)...)
	for _, way := range []string{"value", "pointer", "interface"} {
		o, c := s.k.fresh()
		c.v = vals()
		rd := &marshal.Reader{Body: append([]byte(nil), b...)}
		p := guarded(func() {
			switch way {
			case "value":
				err = rd.ReadValueWithSize(o, z.r)
			case "pointer":
				err = rd.ReadWithSize(o.Addr().Interface(), z.r)
			case "interface":
				if !s.k.val {
					var x interface{} = o.Addr().Interface()
					err = rd.ReadWithSize(&x, z.r)
				} else {
					err = rd.ReadWithSize(o.Interface(), z.r)
				}
			}
		})
		what := fmt.Sprintf("%s: %v of size(%s) %d read by %s", cs, s.k.t, z.width, len(in), way)
		switch {
		case p != nil:
			e.Viol(cs, "own-size-panic", "%s panics: %v", what, p)
		case bad && err == nil:
			e.Viol(cs, "own-size-refused", "%s: the type refuses this size, and no error is reported", what)
		case !bad && (err != nil || len(rd.Body) != 3):
			e.Viol(cs, "own-size", "%s: error %v, %d bytes left instead of 3", what, err, len(rd.Body))
		case !bad && len(in) > 0:
			if got := s.k.content(c.v); !bytes.Equal(got, in) {
				e.Viol(cs, "own-size", "%s: it is % x instead of % x", what, got, in)
			}
		}
		e.Count("sizes given to types with own sizes", 1)
	}
	// a count which is refused
	if r.IntN(3) == 0 {
		wrong := reflect.StructOf([]reflect.StructField{{Name: "F", Type: any, Tag: `iproto:"cnt(i16)"`}})
		o, _ := s.k.fresh()
		x := reflect.New(wrong)
		x.Elem().Field(0).Set(o.Addr())
		if p := guarded(func() { err = marshal.Read(append([]byte{61, 0}, pad(1, 300)...), x.Interface()) }); p != nil || err == nil {
			e.Viol(cs, "own-count-refused", "%s: count 61 is refused by %v, reading gives panic %v, error %v", cs, s.k.t, p, err)
		}
	}
	e.Eval(1)
	e.Distinct("own %v %d", t, min(len(want), 9))
}

// c12fixed: slices which are filled before are read as they are: that many elements
func c12fixed(e *Env, cs string, r *rand.Rand) {
	g := &tgen{r: r, own: r.IntN(3) == 0}
	el := g.typ(2)
	for misplaced(el, false) || hasPtrIn(el, true) || el == ownTypes[2] || el == ownTypes[3] {
		el = g.typ(2)
	}
	t := reflect.SliceOf(el)
	open := reflect.StructOf([]reflect.StructField{
		{Name: "A", Type: reflect.TypeOf(uint16(0))},
		{Name: "L", Type: t, Tag: reflect.StructTag(`iproto:"` + pick(r, "size(no)", "cnt(no)") + `"`)},
	})
	n := pick(r, 0, 1, 2, 3, 7)
	v := reflect.MakeSlice(t, n, n)
	for i := 0; i < n; i++ {
		(&vgen{r, 6}).fill(v.Index(i), false)
	}
	x := ref{}
	x.content(v, false)
	if x.bad || len(x.b) > 1<<14 {
		return
	}
	fresh := func() reflect.Value { return reflect.MakeSlice(t, n, n+r.IntN(2)) }
	what := fmt.Sprintf("%s: []%v of %d: %s", cs, el, n, show(x.b))
	try := func(name string, body []byte, left int, f func(rd *marshal.Reader, d reflect.Value) error) bool {
		d := fresh()
		rd := &marshal.Reader{Body: append([]byte(nil), body...)}
		var err error
		p := guarded(func() { err = f(rd, d) })
		if p != nil {
			e.Viol(cs, "fixed", "%s: %s panics: %v", what, name, p)
			return false
		}
		if left < 0 {
			if err == nil {
				e.Viol(cs, "fixed-wrong", "%s: %s of %d bytes fails to fail", what, name, len(body))
			} else if rd.Body = nil; rd.Done() {
				e.Viol(cs, "fixed-done", "%s: after a failed %s of %d bytes reader is done", what, name, len(body))
			}
			return err != nil
		}
		if ok, where := same(v, d, 0); err != nil || len(rd.Body) != left || !ok {
			e.Viol(cs, "fixed", "%s: %s: error %v, %d bytes left instead of %d, %s", what, name, err, len(rd.Body), left, where)
			return false
		}
		return true
	}
	read := func(rd *marshal.Reader, d reflect.Value) error { return rd.Read(d.Interface()) }
	tail := func(rd *marshal.Reader, d reflect.Value) error { return rd.ReadTail(d.Interface()) }
	k := r.IntN(4)
	more := append(append([]byte(nil), x.b...), pad(r.Uint64(), k)...)
	ok := try("Read", more, k, read) && try("ReadTail", x.b, 0, tail) &&
		try("Read of field without size", append([]byte{1, 2}, more...), k, func(rd *marshal.Reader, d reflect.Value) error {
			s := reflect.New(open)
			s.Elem().Field(1).Set(d)
			err := rd.Read(s.Interface())
			if l := s.Elem().Field(1); l.Len() == d.Len() {
				reflect.Copy(d, l)
			}
			return err
		})
	if s := pick(r, sizers...); ok && (el.Kind() == reflect.Uint8 || r.IntN(2) == 0) {
		if b, good := refPrefix(nil, s.width, len(x.b)); good {
			ok = try("ReadWithSize("+s.width+")", append(b, more...), k, func(rd *marshal.Reader, d reflect.Value) error {
				return rd.ReadWithSize(d.Interface(), s.r)
			})
		}
	}
	if ok && k > 0 {
		ok = try("ReadTail with a rest", more, -1, tail)
	}
	if ok && len(x.b) > 0 {
		cut := r.IntN(len(x.b))
		ok = try("Read of a part", x.b[:cut], -1, read) && try("ReadTail of a part", x.b[:cut], -1, tail)
	}
	e.Eval(1)
	e.Count("slices filled before", 1)
	// nothing can be read into interfaces which hold nothing
	for _, pre := range []string{"size(i8)", "cnt(i8)"} {
		st := reflect.StructOf([]reflect.StructField{
			{Name: "F", Type: reflect.TypeOf((*interface{})(nil)).Elem(), Tag: reflect.StructTag(`iproto:"` + pre + `"`)},
			{Name: "Mark", Type: reflect.TypeOf(uint32(0))},
		})
		d := reflect.New(st)
		n := byte(r.IntN(4))
		body := append(append([]byte{n}, pad(r.Uint64(), int(n))...), 1, 2, 3, 4, 5, 6, 7, 8)
		want := uint64(0x04030201)
		var err error
		p := guarded(func() { err = marshal.Read(body, d.Interface()) })
		if p != nil || n == 0 && (err != nil || d.Elem().Field(1).Uint() != want) || n > 0 && err == nil {
			e.Viol(cs, "nil-iface", "%s: reading of %x into nil interface of %s: panic %v, error %v, mark %x", cs, body, pre, p, err, d.Elem().Field(1).Uint())
		}
	}
}

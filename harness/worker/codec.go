package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/funny-falcon/go-iproto/marshal"
)

// Reference encoder: an independent description of the layout, driven by reflection.

type ref struct {
	b   []byte
	bad bool // a count or a size does not fit its prefix
}

// refOwner is a type with an own encoder
type refOwner interface {
	refContent() []byte
	refCount() (n int, counted bool)
}

var tOwner = reflect.TypeOf((*refOwner)(nil)).Elem()

type rule struct {
	i     int
	ber   bool
	pre   byte   // 's' size, 'c' count, 0 nothing special
	width string // of prefix; "no": without it
}

// rulesOf tells what is done with fields of a struct
func rulesOf(t reflect.Type) (rs []rule) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() {
			continue
		}
		x := rule{i: i}
		skip := false
		for _, m := range strings.Split(f.Tag.Get("iproto"), ",") {
			switch {
			case m == "skip":
				skip = true
			case m == "ber":
				x.ber = true
			case strings.HasPrefix(m, "size("):
				x.pre, x.width = 's', m[5:len(m)-1]
			case strings.HasPrefix(m, "cnt("):
				x.pre, x.width = 'c', m[4:len(m)-1]
			}
		}
		if !skip {
			rs = append(rs, x)
		}
	}
	return
}

// null: a pointer may be nil. Types with own encoders deal with nil pointers themselves when there is no prefix.
func (x rule) null(t reflect.Type) bool {
	return x.pre != 0 && (x.width != "no" || t.Kind() != reflect.Ptr || !t.Implements(tOwner))
}

func refVar(b []byte, n uint64) []byte {
	var t []byte
	for {
		t = append(t, byte(n&0x7f))
		if n >>= 7; n == 0 {
			break
		}
	}
	for i := len(t) - 1; i >= 0; i-- {
		c := t[i]
		if i > 0 {
			c |= 0x80
		}
		b = append(b, c)
	}
	return b
}

func refPrefix(b []byte, width string, n int) ([]byte, bool) {
	switch width {
	case "ber":
		return refVar(b, uint64(n)), true
	case "i8":
		return append(b, byte(n)), n < 1<<8
	case "i16":
		return binary.LittleEndian.AppendUint16(b, uint16(n)), n < 1<<16
	case "i32":
		return binary.LittleEndian.AppendUint32(b, uint32(n)), true
	case "i64":
		return binary.LittleEndian.AppendUint64(b, uint64(n)), true
	}
	panic("HARNESS: width " + width)
}

func (x *ref) prefix(width string, n int) {
	var ok bool
	x.b, ok = refPrefix(x.b, width, n)
	x.bad = x.bad || !ok
}

func refNumber(b []byte, v reflect.Value, ber bool) ([]byte, bool) {
	le := binary.LittleEndian
	if ber {
		return refVar(b, v.Uint()), true
	}
	switch v.Kind() {
	case reflect.Int8:
		return append(b, byte(v.Int())), true
	case reflect.Uint8:
		return append(b, byte(v.Uint())), true
	case reflect.Int16:
		return le.AppendUint16(b, uint16(v.Int())), true
	case reflect.Uint16:
		return le.AppendUint16(b, uint16(v.Uint())), true
	case reflect.Int32:
		return le.AppendUint32(b, uint32(v.Int())), true
	case reflect.Uint32:
		return le.AppendUint32(b, uint32(v.Uint())), true
	case reflect.Int64:
		return le.AppendUint64(b, uint64(v.Int())), true
	case reflect.Uint64:
		return le.AppendUint64(b, v.Uint()), true
	case reflect.Float32:
		return le.AppendUint32(b, math.Float32bits(float32(v.Float()))), true
	case reflect.Float64:
		return le.AppendUint64(b, math.Float64bits(v.Float())), true
	}
	return b, false
}

func owner(v reflect.Value) (refOwner, bool) {
	if v.Kind() != reflect.Ptr && v.Type().Implements(tOwner) {
		return v.Interface().(refOwner), true
	}
	return nil, false
}

// auto: a value which has to tell its own end
func (x *ref) auto(v reflect.Value, ber bool) {
	if k := v.Kind(); k == reflect.Ptr || k == reflect.Interface {
		if k == reflect.Ptr || !v.IsNil() {
			x.auto(v.Elem(), ber)
		}
		return
	}
	if o, ok := owner(v); ok {
		if n, counted := o.refCount(); counted {
			x.prefix("i32", n)
		}
		x.b = append(x.b, o.refContent()...)
		return
	}
	switch v.Kind() {
	case reflect.String, reflect.Slice:
		x.prefix("i32", v.Len())
	}
	x.content(v, ber)
}

// content: without a count of its own
func (x *ref) content(v reflect.Value, ber bool) {
	if k := v.Kind(); k == reflect.Ptr || k == reflect.Interface {
		if !v.IsNil() {
			x.content(v.Elem(), ber)
		}
		return
	}
	if o, ok := owner(v); ok {
		x.b = append(x.b, o.refContent()...)
		return
	}
	switch v.Kind() {
	case reflect.String:
		x.b = append(x.b, v.String()...)
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			x.auto(v.Index(i), ber)
		}
	case reflect.Struct:
		for _, f := range rulesOf(v.Type()) {
			fv := v.Field(f.i)
			switch {
			case f.pre == 0:
				x.auto(fv, f.ber)
			case f.width == "no":
				x.content(fv, f.ber)
			default:
				y := ref{}
				y.content(fv, f.ber)
				n := len(y.b)
				if f.pre == 'c' {
					n = refCountOf(fv)
				}
				x.prefix(f.width, n)
				x.b = append(x.b, y.b...)
				x.bad = x.bad || y.bad
			}
		}
	default:
		b, ok := refNumber(x.b, v, ber)
		if !ok {
			panic("HARNESS: kind " + v.Kind().String())
		}
		x.b = b
	}
}

func refCountOf(v reflect.Value) int {
	if k := v.Kind(); k == reflect.Ptr || k == reflect.Interface {
		if v.IsNil() {
			return 0
		}
		return refCountOf(v.Elem())
	}
	if o, ok := owner(v); ok {
		n, _ := o.refCount()
		return n
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array, reflect.String:
		return v.Len()
	}
	return 1
}

// Own encoders

type ownRGB struct{ R, G, B uint8 }

func (o ownRGB) IWrite(w *marshal.Writer)  { w.Uint8(o.B); w.Uint8(o.G); w.Uint8(o.R ^ 0xff) }
func (o ownRGB) ISize() int                { return 3 }
func (o *ownRGB) IRead(r *marshal.Reader)  { o.B, o.G, o.R = r.Uint8(), r.Uint8(), r.Uint8()^0xff }
func (o ownRGB) refContent() []byte        { return []byte{o.B, o.G, o.R ^ 0xff} }
func (o ownRGB) refCount() (n int, c bool) { return 1, false }

type ownVar struct{ S string }

func (o ownVar) IWrite(self interface{}, w *marshal.Writer) {
	w.IntUint16(len(o.S))
	w.String(o.S)
	w.Uint8(0x77)
}
func (o *ownVar) IRead(self interface{}, r *marshal.Reader) {
	if self != interface{}(o) {
		panic("own reader is given another value of itself")
	}
	o.S = r.String(r.IntUint16())
	if c := r.Uint8(); c != 0x77 && r.Err == nil {
		r.Err = fmt.Errorf("no end of ownVar")
	}
}
func (o ownVar) refContent() []byte {
	return append(append(binary.LittleEndian.AppendUint16(nil, uint16(len(o.S))), o.S...), 0x77)
}
func (o ownVar) refCount() (n int, c bool) { return 1, false }

type ownList struct{ V []uint16 }

func (o *ownList) IWrite(self interface{}, w *marshal.Writer) {
	for _, v := range o.V {
		w.Uint16(v ^ 0x5555)
	}
}
func (o *ownList) ISize(self interface{}) int  { return 2 * len(o.V) }
func (o *ownList) ICount(self interface{}) int { return len(o.V) }
func (o *ownList) IRead(self interface{}, r *marshal.Reader) {
	for i := range o.V {
		o.V[i] = r.Uint16() ^ 0x5555
	}
}
func (o *ownList) IReadTail(self interface{}, r *marshal.Reader) {
	o.V = nil
	for len(r.Body) > 1 && r.Err == nil {
		o.V = append(o.V, r.Uint16()^0x5555)
	}
}
func (o *ownList) ISetCount(self interface{}, n int) error {
	if n > 1<<12 {
		return fmt.Errorf("ownList is too long")
	}
	o.V = make([]uint16, n)
	return nil
}
func (o *ownList) ISetSize(self interface{}, n int) (bool, error) {
	if n%2 != 0 || n > 1<<13 {
		return false, fmt.Errorf("odd size of ownList")
	}
	o.V = make([]uint16, n/2)
	return true, nil
}
func (o ownList) refContent() (b []byte) {
	for _, v := range o.V {
		b = binary.LittleEndian.AppendUint16(b, v^0x5555)
	}
	return
}
func (o ownList) refCount() (n int, c bool) { return len(o.V), true }

type ownShort struct{ V []uint32 }

func (o *ownShort) IWrite(w *marshal.Writer) {
	for _, v := range o.V {
		w.Uint32(v + 1)
	}
}
func (o *ownShort) ISize() int  { return 4 * len(o.V) }
func (o *ownShort) ICount() int { return len(o.V) }
func (o *ownShort) IRead(r *marshal.Reader) {
	for i := range o.V {
		o.V[i] = r.Uint32() - 1
	}
}
func (o *ownShort) IReadTail(r *marshal.Reader) {
	o.V = nil
	for len(r.Body) > 3 && r.Err == nil {
		o.V = append(o.V, r.Uint32()-1)
	}
}
func (o *ownShort) ISetCount(n int) error {
	if n > 1<<12 {
		return fmt.Errorf("ownShort is too long")
	}
	o.V = make([]uint32, n)
	return nil
}
func (o *ownShort) ISetSize(n int) (bool, error) {
	if n%4 != 0 || n > 1<<14 {
		return false, fmt.Errorf("odd size of ownShort")
	}
	o.V = make([]uint32, n/4)
	return true, nil
}
func (o ownShort) refContent() (b []byte) {
	for _, v := range o.V {
		b = binary.LittleEndian.AppendUint32(b, v+1)
	}
	return
}
func (o ownShort) refCount() (n int, c bool) { return len(o.V), true }

type (
	nu8   uint8
	nu16  uint16
	nu32  uint32
	nu64  uint64
	ni8   int8
	ni16  int16
	ni32  int32
	ni64  int64
	nf32  float32
	nf64  float64
	nstr  string
	nbs   []byte
	nu32s []uint32
)

var numTypes = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
	reflect.TypeOf(nu8(0)), reflect.TypeOf(nu16(0)), reflect.TypeOf(nu32(0)), reflect.TypeOf(nu64(0)),
	reflect.TypeOf(ni8(0)), reflect.TypeOf(ni16(0)), reflect.TypeOf(ni32(0)), reflect.TypeOf(ni64(0)),
	reflect.TypeOf(nf32(0)), reflect.TypeOf(nf64(0)),
}
var uintTypes = []reflect.Type{
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(nu16(0)), reflect.TypeOf(nu32(0)), reflect.TypeOf(nu64(0)),
}
var strTypes = []reflect.Type{reflect.TypeOf(""), reflect.TypeOf(nstr("")), reflect.TypeOf([]byte(nil)), reflect.TypeOf(nbs(nil)), reflect.TypeOf(nu32s(nil))}
var ownTypes = []reflect.Type{reflect.TypeOf(ownRGB{}), reflect.TypeOf(ownVar{}), reflect.TypeOf(ownList{}), reflect.TypeOf(ownShort{})}

// tgen makes types
type tgen struct {
	r   *rand.Rand
	own bool // types with own encoders as well
	ptr bool // untagged pointers as well
}

func (g *tgen) num() reflect.Type { return pick(g.r, numTypes...) }

// value type: anything which may stand anywhere
func (g *tgen) typ(depth int) reflect.Type {
	r := g.r
	switch k := r.IntN(12); {
	case k < 3 || depth <= 0 && k < 9:
		return g.num()
	case k < 5 || depth <= 0:
		return pick(r, strTypes...)
	case k == 5 && g.own:
		return pick(r, ownTypes...)
	case k < 8:
		return reflect.SliceOf(g.typ(depth - 1))
	case k < 9:
		return reflect.ArrayOf(1+r.IntN(4), g.typ(depth-1))
	case k == 9:
		return reflect.ArrayOf(1+r.IntN(pick(r, 4, 40, 300)), g.num())
	}
	return g.structure(depth, r.IntN(6) == 0)
}

var widths = []string{"ber", "i8", "i16", "i32", "i64"}

// structure; open: its last field may be without a prefix
func (g *tgen) structure(depth int, open bool) reflect.Type {
	r := g.r
	n := 1 + r.IntN(6)
	var fs []reflect.StructField
	real := false
	for i := 0; i < n; i++ {
		f := reflect.StructField{Name: fmt.Sprintf("F%d", i)}
		var tags []string
		if r.IntN(14) == 0 {
			f.Name, f.PkgPath = fmt.Sprintf("f%d", i), "main"
			f.Type = g.typ(0)
			fs = append(fs, f)
			continue
		}
		if r.IntN(12) == 0 {
			f.Type = g.typ(0)
			f.Tag = `iproto:"skip"`
			fs = append(fs, f)
			continue
		}
		prefix := func() string { return pick(r, "size(", "cnt(") + pick(r, widths...) + ")" }
		switch k := r.IntN(10); {
		case k < 2: // variable-length numbers
			u := pick(r, uintTypes...)
			f.Type = pick(r, u, u, reflect.SliceOf(u), reflect.ArrayOf(1+r.IntN(5), u))
			tags = append(tags, "ber")
			if r.IntN(4) == 0 {
				f.Type = reflect.PointerTo(u)
			}
			if r.IntN(2) == 0 || f.Type.Kind() == reflect.Ptr && !g.ptr {
				tags = append(tags, prefix())
			}
		case k < 4: // pointers
			f.Type = reflect.PointerTo(g.typ(depth - 1))
			if !g.ptr || r.IntN(3) > 0 {
				tags = append(tags, prefix())
			}
		case k < 7:
			f.Type = g.typ(depth - 1)
			if k := f.Type.Kind(); k == reflect.Struct && f.Type.Name() == "" && r.IntN(3) == 0 {
				// only a sized one may be open
				f.Type = g.structure(depth-1, true)
				tags = append(tags, "size("+pick(r, widths...)+")")
			} else {
				tags = append(tags, prefix())
			}
		default:
			f.Type = g.typ(depth - 1)
		}
		if open && i == n-1 && r.IntN(2) == 0 {
			keep := tags[:0]
			for _, t := range tags {
				if t == "ber" {
					keep = append(keep, t)
				}
			}
			tags = append(keep, pick(r, "size(no)", "cnt(no)"))
		}
		if el := f.Type; el.Kind() == reflect.Ptr || el == ownTypes[0] || el == ownTypes[1] {
			if el.Kind() == reflect.Ptr {
				el = el.Elem()
			}
			if el == ownTypes[0] || el == ownTypes[1] { // they do not tell their count
				for i, t := range tags {
					tags[i] = strings.Replace(t, "cnt(", "size(", 1)
				}
			}
		}
		r.Shuffle(len(tags), func(i, j int) { tags[i], tags[j] = tags[j], tags[i] })
		if len(tags) > 0 {
			f.Tag = reflect.StructTag(`iproto:"` + strings.Join(tags, ",") + `"`)
		}
		real = true
		fs = append(fs, f)
	}
	if !real {
		fs = append(fs, reflect.StructField{Name: "Last", Type: g.num()})
	}
	return reflect.StructOf(fs)
}

// isOpen: a value does not tell where it ends even as a whole
func isOpen(t reflect.Type) bool {
	if t.Kind() != reflect.Struct || t.Implements(tOwner) {
		return false
	}
	rs := rulesOf(t)
	return len(rs) > 0 && rs[len(rs)-1].width == "no"
}

// misplaced: an open struct stands where nothing tells its end
func misplaced(t reflect.Type, end bool) bool {
	if t.Implements(tOwner) {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr:
		return misplaced(t.Elem(), end)
	case reflect.Slice, reflect.Array:
		return misplaced(t.Elem(), false)
	case reflect.Struct:
		if isOpen(t) && !end {
			return true
		}
		for _, f := range rulesOf(t) {
			if misplaced(t.Field(f.i).Type, f.pre == 's' || f.width == "no") {
				return true
			}
		}
	}
	return false
}

// hasPtrIn: pointers stand in elements of slices
func hasPtrIn(t reflect.Type, in bool) bool {
	if t.Implements(tOwner) && t.Kind() != reflect.Ptr {
		return false
	}
	switch t.Kind() {
	case reflect.Ptr:
		return in || hasPtrIn(t.Elem(), in)
	case reflect.Slice:
		return hasPtrIn(t.Elem(), true)
	case reflect.Array:
		return hasPtrIn(t.Elem(), in)
	case reflect.Struct:
		for _, f := range rulesOf(t) {
			ft := t.Field(f.i).Type
			if f.null(ft) && ft.Kind() == reflect.Ptr {
				ft = ft.Elem()
				if hasPtrIn(ft, true) { // is made anew
					return true
				}
				continue
			}
			if hasPtrIn(ft, in) {
				return true
			}
		}
	}
	return false
}

// addressed: has to be given by a pointer, because own encoders want it
func addressed(t reflect.Type) bool {
	switch t {
	case ownTypes[2], ownTypes[3]:
		return true
	}
	switch t.Kind() {
	case reflect.Array:
		return addressed(t.Elem())
	case reflect.Struct:
		for _, f := range rulesOf(t) {
			if addressed(t.Field(f.i).Type) {
				return true
			}
		}
	}
	return false
}

// vgen fills values
type vgen struct {
	r   *rand.Rand
	max int // of lengths
}

func (g *vgen) length() int {
	switch g.r.IntN(4) {
	case 0:
		return 0
	case 1:
		return 1
	}
	return g.r.IntN(g.max + 1)
}

func (g *vgen) bits() uint64 {
	switch g.r.IntN(6) {
	case 0:
		return 0
	case 1:
		return ^uint64(0)
	case 2:
		return 1<<g.r.IntN(64) - uint64(g.r.IntN(3))
	case 3:
		return uint64(g.r.IntN(300))
	}
	return g.r.Uint64() >> g.r.IntN(64)
}

func (g *vgen) fill(v reflect.Value, null bool) {
	switch v.Kind() {
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(g.bits() & (1<<v.Type().Bits() - 1))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n := 64 - v.Type().Bits()
		v.SetInt(int64(g.bits()<<n) >> n)
	case reflect.Float32:
		f := math.Float32frombits(uint32(g.bits()))
		if f != f { // conversions to float64 do not keep all NaNs
			f = -1.5
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		v.SetFloat(math.Float64frombits(g.bits()))
	case reflect.String:
		v.SetString(string(pad(g.r.Uint64(), g.length())))
	case reflect.Slice:
		n := g.length()
		if n == 0 && g.r.IntN(2) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.MakeSlice(v.Type(), n, n+g.r.IntN(3)))
		h := &vgen{g.r, g.max}
		if v.Type().Elem().Kind() > reflect.Float64 {
			h.max = g.max/2 + 1
		}
		for i := 0; i < n; i++ {
			h.fill(v.Index(i), null)
		}
	case reflect.Array:
		h := &vgen{g.r, g.max/2 + 1}
		for i := 0; i < v.Len(); i++ {
			h.fill(v.Index(i), null)
		}
	case reflect.Ptr:
		if null && g.r.IntN(3) == 0 {
			v.SetZero()
			return
		}
		v.Set(reflect.New(v.Type().Elem()))
		g.fill(v.Elem(), false)
	case reflect.Struct:
		if v.Type().Implements(tOwner) {
			for i := 0; i < v.NumField(); i++ {
				g.fill(v.Field(i), false)
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if f.IsExported() && f.Tag.Get("iproto") == "skip" {
				g.fill(v.Field(i), false)
			}
		}
		for _, f := range rulesOf(v.Type()) {
			g.fill(v.Field(f.i), f.null(v.Field(f.i).Type()))
		}
	}
}

// prepared gives a new value where untagged pointers point to values already
func prepare(v reflect.Value, tagged bool) {
	if v.Type().Implements(tOwner) && v.Kind() != reflect.Ptr {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !tagged {
			v.Set(reflect.New(v.Type().Elem()))
			prepare(v.Elem(), false)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			prepare(v.Index(i), false)
		}
	case reflect.Struct:
		for _, f := range rulesOf(v.Type()) {
			prepare(v.Field(f.i), f.null(v.Field(f.i).Type()))
		}
	}
}

// same tells whether b is what a has to become after its way. tagged: a pointer to nothing comes back as nil
func same(a, b reflect.Value, tagged byte) (ok bool, where string) {
	if a.Type() != b.Type() {
		return false, "type"
	}
	switch a.Kind() {
	case reflect.Ptr:
		none := func(v reflect.Value) bool {
			if v.IsNil() {
				return true
			}
			if tagged == 'c' {
				return refCountOf(v) == 0
			}
			x := ref{}
			x.content(v, false)
			return len(x.b) == 0
		}
		if el := a.Type().Elem(); tagged == 0 && (el == ownTypes[2] || el == ownTypes[3]) {
			tagged = 'c' // these are always counted
		}
		if tagged != 0 && (a.IsNil() || b.IsNil()) {
			return none(a) && none(b), "pointer"
		}
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil(), "pointer"
		}
		return same(a.Elem(), b.Elem(), tagged)
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false, fmt.Sprintf("length %d and %d", a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if ok, w := same(a.Index(i), b.Index(i), 0); !ok {
				return false, fmt.Sprintf("[%d]%s", i, w)
			}
		}
		return true, ""
	case reflect.Struct:
		if a.Type().Implements(tOwner) {
			for i := 0; i < a.NumField(); i++ {
				if ok, w := same(a.Field(i), b.Field(i), 0); !ok {
					return false, "." + a.Type().Field(i).Name + w
				}
			}
			return true, ""
		}
		for _, f := range rulesOf(a.Type()) {
			pre := f.pre
			if pre == 'c' && f.width == "no" { // nothing tells the count
				pre = 's'
			}
			if ok, w := same(a.Field(f.i), b.Field(f.i), pre); !ok {
				return false, "." + a.Type().Field(f.i).Name + w
			}
		}
		return true, ""
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) == math.Float64bits(b.Float()) {
			return true, ""
		}
	case reflect.String:
		if a.String() == b.String() {
			return true, ""
		}
	default:
		if a.CanInt() && a.Int() == b.Int() || a.CanUint() && a.Uint() == b.Uint() {
			return true, ""
		}
	}
	return false, fmt.Sprintf(": %v and %v", a, b)
}

// guarded runs f and turns a panic into a text
func guarded(f func()) (p interface{}) {
	defer func() {
		if x := recover(); x != nil {
			p = fmt.Sprintf("%v\n%s", x, oneStack())
		}
	}()
	f()
	return nil
}

func oneStack() string {
	s := string(debugStack())
	if len(s) > 2500 {
		s = s[:2500]
	}
	return s
}

func show(b []byte) string {
	if len(b) > 60 {
		return fmt.Sprintf("% x... (%d bytes)", b[:60], len(b))
	}
	return fmt.Sprintf("% x", b)
}

type sizer struct {
	width string
	w     func(*marshal.Writer, int)
	r     func(*marshal.Reader) int
}

var sizers = []sizer{
	{"ber", (*marshal.Writer).Intvar, (*marshal.Reader).Intvar},
	{"i8", (*marshal.Writer).IntUint8, (*marshal.Reader).IntUint8},
	{"i16", (*marshal.Writer).IntUint16, (*marshal.Reader).IntUint16},
	{"i32", (*marshal.Writer).IntUint32, (*marshal.Reader).IntUint32},
	{"i64", (*marshal.Writer).IntUint64, (*marshal.Reader).IntUint64},
}

func init() {
	props["C12"] = c12
	props["C13"] = c13
}

// someType makes a type and tells whether it is open
func someType(r *rand.Rand, own, ptr bool) (t reflect.Type, open bool) {
	for {
		g := &tgen{r: r, own: own, ptr: ptr}
		switch r.IntN(6) {
		case 0:
			t = g.typ(3)
		case 1:
			t = reflect.SliceOf(g.typ(2))
		default:
			t = g.structure(pick(r, 1, 2, 3), r.IntN(3) == 0)
		}
		if misplaced(t, true) || t == ownTypes[2] || t == ownTypes[3] {
			continue // by themselves counted types are written without their counts
		}
		return t, isOpen(t)
	}
}

func c12(e *Env) {
	e.Cases(e.N(70000, 800000), 4, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		switch i % 10 {
		case 7:
			c12ways(e, cs, r)
			c12readers(e, cs, r)
		case 8:
			c12iface(e, cs, r)
			c12fixed(e, cs, r)
			c12own(e, cs, r)
			c12own(e, cs, r)
		default:
			c12case(e, cs, r)
		}
	})
	if e.mine(0) {
		c12numbers(e)
		c12nil(e)
		c12nil(e)
		c12lists(e)
		c12recursive(e)
	}
}

type (
	rtree struct {
		V    uint16
		Kids []rtree `iproto:"cnt(i8)"`
	}
	chain struct {
		V    uint32 `iproto:"ber"`
		Next *chain `iproto:"size(ber)"`
	}
	mutual struct {
		S string `iproto:"size(i8)"`
		L []mutual2
	}
	mutual2 struct {
		P *mutual `iproto:"cnt(i8)"`
		F float64
	}
)

// c12recursive: types which have themselves in them
func c12recursive(e *Env) {
	r := e.rng(1<<30 + 1)
	for n := 0; n < 300 && !e.violated(); n++ {
		t := pick(r, reflect.TypeOf(rtree{}), reflect.TypeOf(chain{}), reflect.TypeOf(mutual{}), reflect.TypeOf(mutual2{}))
		pv, dst := reflect.New(t), reflect.New(t)
		(&vgen{r, 3}).fill(pv.Elem(), false)
		x := ref{}
		x.auto(pv.Elem(), false)
		if x.bad || len(x.b) > 1<<16 {
			continue
		}
		var b []byte
		var err error
		if p := guarded(func() { b = marshal.Write(pv.Interface()); err = marshal.ReadTail(b, dst.Interface()) }); p != nil || !bytes.Equal(b, x.b) {
			e.Viol("", "recursive", "Write of %+v is % x instead of % x (%v)", pv.Interface(), b, x.b, p)
		} else if ok, where := same(pv.Elem(), dst.Elem(), 0); !ok || err != nil {
			e.Viol("", "recursive", "Read of %+v encoded as % x: %v %s", pv.Interface(), b, err, where)
		}
		e.Eval(1)
		e.Count("values of recursive types", 1)
	}
}

func c12case(e *Env, cs string, r *rand.Rand) {
	ptr := r.IntN(4) == 0
	t, open := someType(r, r.IntN(2) == 0, ptr)
	undec := hasPtrIn(t, false) // untagged pointers in elements can not be decoded
	byPtr := addressed(t)
	w := &marshal.Writer{DefSize: pick(r, 0, 1, 16, 512)}
	dirty := reflect.New(t)
	prepare(dirty.Elem(), false)
	for n := 0; n < 6 && !e.violated(); n++ {
		g := &vgen{r, pick(r, 2, 5, 20, 140)}
		pv := reflect.New(t)
		g.fill(pv.Elem(), false)
		v := pv.Elem()
		auto, content := &ref{}, &ref{}
		auto.auto(v, false)
		content.content(v, false)
		if auto.bad || len(auto.b) > 1<<17 {
			e.Count("values not fitting their prefixes", 1)
			continue
		}
		what := fmt.Sprintf("%s: %v", cs, t)
		val := func() string {
			s := fmt.Sprintf("%+v", v.Interface())
			if len(s) > 1500 {
				s = s[:1500] + "..."
			}
			return s
		}
		bad := false
		enc := func(name string, want []byte, f func() []byte) {
			var got []byte
			if p := guarded(func() { got = f() }); p != nil {
				e.Viol(cs, "encode-panic", "%s: %s of %s panics: %v", what, name, val(), p)
				bad = true
			} else if !bytes.Equal(got, want) {
				e.Viol(cs, "encode", "%s: %s of %s is\n% x instead of\n% x", what, name, val(), got, want)
				bad = true
			}
		}
		use := []interface{}{pv.Interface()}
		if !byPtr {
			use = append(use, v.Interface())
		}
		for _, x := range use {
			enc("Write", auto.b, func() []byte { return marshal.Write(x) })
			if reflect.ValueOf(x).Kind() != reflect.Ptr || t.Kind() != reflect.Ptr {
				enc("WriteTail", content.b, func() []byte { return marshal.WriteTail(x) })
			}
			s := pick(r, sizers...)
			if b, ok := refPrefix(nil, s.width, len(content.b)); ok {
				enc("WriteWithSize("+s.width+")", append(b, content.b...), func() []byte {
					w.Write(uint16(1))
					w.WriteWithSize(x, s.w)
					return w.Written()[2:]
				})
			}
		}
		enc("WriteValue", auto.b, func() []byte { w.WriteValue(v); return w.Written() })
		s := pick(r, sizers...)
		if b, ok := refPrefix(nil, s.width, len(content.b)); ok {
			if s.width == "i32" && r.IntN(2) == 0 {
				s.w = nil // that is default
			}
			enc("WriteValueWithSize("+s.width+")", append(b, content.b...), func() []byte { w.WriteValueWithSize(v, s.w); return w.Written() })
		}
		if bad {
			return
		}
		e.Count("values encoded", 1)
		dec := func(name string, body []byte, rest int, dst reflect.Value, f func(r *marshal.Reader, x interface{}) error) {
			rd := &marshal.Reader{Body: append(append([]byte(nil), body...), pad(3, rest)...)}
			var err error
			p := guarded(func() { err = f(rd, dst.Interface()) })
			switch {
			case p != nil:
				e.Viol(cs, "decode-panic", "%s: %s of the encoding of %s panics: %v", what, name, val(), p)
			case err != nil || rd.Err != nil:
				e.Viol(cs, "decode-error", "%s: %s of the encoding of %s fails: %v", what, name, val(), err)
			case len(rd.Body) != rest:
				e.Viol(cs, "decode-rest", "%s: %s of the encoding of %s leaves %d bytes instead of %d", what, name, val(), len(rd.Body), rest)
			default:
				if ok, where := same(v, dst.Elem(), 0); !ok {
					e.Viol(cs, "decode", "%s: %s of the encoding of %s gives another value: %s", what, name, val(), where)
				} else {
					e.Count("values decoded", 1)
					return
				}
			}
			bad = true
		}
		fresh := func() reflect.Value {
			p := reflect.New(t)
			prepare(p.Elem(), false)
			return p
		}
		if undec {
			e.Count("types which are not decoded", 1)
		} else {
			read := func(r *marshal.Reader, x interface{}) error { return r.Read(x) }
			tail := func(r *marshal.Reader, x interface{}) error { return r.ReadTail(x) }
			if !open {
				dec("Read", auto.b, pick(r, 0, 1, 9), fresh(), read)
				dec("Read over another value", auto.b, 0, dirty, read)
				dec("ReadValueAuto", auto.b, pick(r, 0, 1, 9), fresh(), func(r *marshal.Reader, x interface{}) error { return r.ReadValueAuto(reflect.ValueOf(x).Elem()) })
			}
			dec("ReadTail", content.b, 0, fresh(), tail)
			if n == 0 {
				dec("marshal.ReadTail", content.b, 0, fresh(), func(r *marshal.Reader, x interface{}) error {
					err := marshal.ReadTail(r.Body, x)
					r.Body = nil
					return err
				})
			}
			s := pick(r, sizers...)
			if b, ok := refPrefix(nil, s.width, len(content.b)); ok {
				dec("ReadWithSize("+s.width+")", append(b, content.b...), pick(r, 0, 1, 9), fresh(), func(r *marshal.Reader, x interface{}) error { return r.ReadWithSize(x, s.r) })
				if s.width == "i32" && r.IntN(2) == 0 {
					s.r = nil // that is default
				}
				dec("ReadValueWithSize("+s.width+")", append(b, content.b...), pick(r, 0, 1, 9), fresh(), func(r *marshal.Reader, x interface{}) error {
					return r.ReadValueWithSize(reflect.ValueOf(x).Elem(), s.r)
				})
			}
		}
		if bad {
			return
		}
		e.Eval(1)
		e.Distinct("%v %d", t, min(len(auto.b), 9))
		e.Sample("%v = %s", t, show(auto.b))
	}
}

// c12numbers: all variable-length numbers near boundaries, every primitive, by all of its ways
func c12numbers(e *Env) {
	w := &marshal.Writer{}
	for k := 0; k < 64; k++ {
		for d := -2; d <= 2; d++ {
			n := uint64(1)<<k + uint64(d)
			w.Uint64var(n)
			got := w.Written()
			want := refVar(nil, n)
			r := &marshal.Reader{Body: got}
			if !bytes.Equal(got, want) {
				e.Viol("", "var", "variable-length %d is % x instead of % x", n, got, want)
			} else if m := r.Uint64var(); m != n || !r.Done() {
				e.Viol("", "var", "variable-length %d is read as %d (%v)", n, m, r.Error())
			}
			e.Eval(1)
		}
	}
}

// c12nil: nothing is nothing, its size is zero
func c12nil(e *Env) {
	for _, s := range sizers {
		w := &marshal.Writer{}
		want, _ := refPrefix(nil, s.width, 0)
		p := guarded(func() {
			w.WriteWithSize(nil, s.w)
			w.Write(nil)
			w.WriteTail(nil)
		})
		if got := w.Written(); p != nil || !bytes.Equal(got, want) {
			e.Viol("", "nil", "WriteWithSize(%s), Write and WriteTail of nil give % x instead of % x (panic: %v)", s.width, got, want, p)
		}
		e.Eval(1)
	}
	if b, t := marshal.Write(nil), marshal.WriteTail(nil); len(b)+len(t) != 0 {
		e.Viol("", "nil", "Write and WriteTail of nil give % x and % x", b, t)
	}
}

// c12lists: lists of interfaces
func c12lists(e *Env) {
	r := e.rng(1 << 30)
	for n := 0; n < 200 && !e.violated(); n++ {
		k := r.IntN(5)
		var list []interface{}
		var ws []marshal.IWriter
		var ss []marshal.IShortWriter
		want := binary.LittleEndian.AppendUint32(nil, uint32(k))
		wantW := append([]byte(nil), want...)
		wantS := append([]byte(nil), want...)
		var back []interface{}
		for j := 0; j < k; j++ {
			t, open := someType(r, false, false)
			if open {
				t = numTypes[r.IntN(10)]
			}
			p := reflect.New(t)
			(&vgen{r, 6}).fill(p.Elem(), false)
			x := ref{}
			x.auto(p.Elem(), false)
			if x.bad {
				p = reflect.ValueOf(new(uint64))
				t = p.Elem().Type()
				x = ref{b: make([]byte, 8)}
			}
			list = append(list, p.Elem().Interface())
			back = append(back, reflect.New(t).Interface())
			want = append(want, x.b...)
			o := ownVar{string(pad(r.Uint64(), r.IntN(9)))}
			ws = append(ws, o)
			wantW = append(wantW, o.refContent()...)
			q := ownRGB{byte(j), byte(k), byte(n)}
			ss = append(ss, q)
			wantS = append(wantS, q.refContent()...)
		}
		for _, c := range []struct {
			x    interface{}
			want []byte
		}{{list, want}, {ws, wantW}, {ss, wantS}} {
			var got, tail []byte
			if p := guarded(func() { got, tail = marshal.Write(c.x), marshal.WriteTail(c.x) }); p != nil {
				e.Viol("", "encode-panic", "Write of %T %+v panics: %v", c.x, c.x, p)
			} else if !bytes.Equal(got, c.want) || !bytes.Equal(tail, c.want[4:]) {
				e.Viol("", "encode", "Write of %T %+v is % x (tail % x) instead of % x", c.x, c.x, got, tail, c.want)
			}
		}
		// nothing is written of nothing
		arr := reflect.New(reflect.ArrayOf(k+1, reflect.TypeOf(&list).Elem().Elem())).Elem()
		hole := r.IntN(k + 1)
		for j := range list {
			if j < hole {
				arr.Index(j).Set(reflect.ValueOf(list[j]))
			} else {
				arr.Index(j + 1).Set(reflect.ValueOf(list[j]))
			}
		}
		var got []byte
		if p := guarded(func() { got = marshal.Write(arr.Interface()) }); p != nil || !bytes.Equal(got, want[4:]) {
			e.Viol("", "encode", "Write of array %+v is % x instead of % x, panic %v", arr, got, want[4:], p)
		}
		type anys []interface{}
		type inside struct {
			L []interface{}
			A anys
		}
		for what, x := range map[string]interface{}{"named": anys(list), "nested": [1][]interface{}{list}, "struct": struct{ L []interface{} }{list},
			"pointer": &list, "interface": struct{ X interface{} }{list}} {
			exp := want
			if what == "named" || what == "pointer" {
				got = marshal.WriteTail(x)
				exp = want[4:]
			} else {
				got = marshal.Write(x)
			}
			if !bytes.Equal(got, exp) {
				e.Viol("", "encode", "Write of %s list %+v is % x instead of % x", what, x, got, exp)
			}
		}
		in := inside{L: append([]interface{}(nil), back...)}
		for j := range list {
			in.A = append(in.A, reflect.New(reflect.TypeOf(list[j])).Interface())
		}
		rd := &marshal.Reader{Body: append(append([]byte(nil), want...), want...)}
		if p := guarded(func() { rd.Read(&in) }); p != nil || !rd.Done() {
			e.Viol("", "decode", "Read of struct of lists %+v: %v %v", list, p, rd.Error())
			return
		}
		for j := range list {
			for _, y := range []interface{}{in.L[j], in.A[j]} {
				if ok, where := same(reflect.ValueOf(list[j]), reflect.ValueOf(y).Elem(), 0); !ok {
					e.Viol("", "decode", "Read of struct of lists %+v: element %d differs: %s", list, j, where)
				}
			}
			back[j] = reflect.New(reflect.TypeOf(list[j])).Interface()
		}
		rd = &marshal.Reader{Body: want}
		if p := guarded(func() { rd.Read(&back) }); p != nil || !rd.Done() {
			e.Viol("", "decode", "Read of list %+v: %v %v", list, p, rd.Error())
			return
		}
		for j := range list {
			if ok, where := same(reflect.ValueOf(list[j]), reflect.ValueOf(back[j]).Elem(), 0); !ok {
				e.Viol("", "decode", "Read of list %+v: element %d differs: %s", list, j, where)
			}
		}
		e.Eval(1)
		e.Count("lists of interfaces", 1)
	}
}

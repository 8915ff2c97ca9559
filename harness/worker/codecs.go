package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"sync"

	"github.com/funny-falcon/go-iproto/marshal"
	"github.com/funny-falcon/go-iproto/sbox"
)

func init() { props["C25"] = c25 }

// novel is a type which nobody has used yet, with a value and its encodings
type novel struct {
	t                    reflect.Type
	v                    reflect.Value
	open                 bool
	auto, content, tuple []byte
	many                 []byte
}

func newTypes(r *rand.Rand, name string, n int) (ns []*novel) {
	inner := tupleStruct(r, r.IntN(2) == 0) // stands in all of them
	for tailOf(inner) != "" || isOpen(inner) || misplaced(inner, false) || hasPtrIn(inner, true) {
		inner = tupleStruct(r, r.IntN(2) == 0)
	}
	for len(ns) < n {
		var fs []reflect.StructField
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("U%s_%d", name, len(ns)), Type: pick(r, numTypes...)})
		switch r.IntN(3) {
		case 0:
			fs = append(fs, reflect.StructField{Name: "In", Type: inner})
		case 1:
			fs = append(fs, reflect.StructField{Name: "In", Type: reflect.SliceOf(inner)})
		}
		t := tupleStruct(r, r.IntN(2) == 0)
		for i := 0; i < t.NumField(); i++ {
			fs = append(fs, t.Field(i))
		}
		t = reflect.StructOf(fs)
		x := &novel{t: t, open: isOpen(t)}
		if misplaced(t, true) {
			continue
		}
		pv := reflect.New(t)
		(&vgen{r, pick(r, 2, 5, 12)}).fill(pv.Elem(), false)
		x.v = pv
		a, c := &ref{}, &ref{}
		a.auto(pv.Elem(), false)
		c.content(pv.Elem(), false)
		var ok bool
		x.tuple, ok = refTuple(pv.Elem())
		if a.bad || c.bad || !ok || len(a.b) > 6000 {
			continue
		}
		x.auto, x.content = a.b, c.b
		x.many = resultOf([][]byte{x.tuple, x.tuple})
		ns = append(ns, x)
	}
	return
}

// use uses a type in all ways and tells what is wrong
func (x *novel) use(r *rand.Rand, w *marshal.Writer) (what string, n int) {
	ops := r.Perm(8)
	t := x.t
	bad := func(f string, a ...interface{}) { what = fmt.Sprintf("%v: %s", t, fmt.Sprintf(f, a...)) }
	for _, op := range ops {
		var v interface{}
		if r.IntN(2) == 0 {
			v = x.v.Interface()
		} else {
			v = x.v.Elem().Interface()
		}
		dst := reflect.New(t)
		if op == 2 || op == 3 {
			prepare(dst.Elem(), false)
		}
		switch op {
		case 0:
			if b := marshal.Write(v); !bytes.Equal(b, x.auto) {
				bad("Write gives % x instead of % x", b, x.auto)
			}
		case 1:
			if b := marshal.WriteTail(v); !bytes.Equal(b, x.content) {
				bad("WriteTail gives % x instead of % x", b, x.content)
			}
		case 2:
			if x.open {
				continue
			}
			if err := marshal.Read(x.auto, dst.Interface()); err != nil {
				bad("Read of % x fails: %v", x.auto, err)
			} else if ok, where := same(x.v.Elem(), dst.Elem(), 0); !ok {
				bad("Read of % x gives another value: %s", x.auto, where)
			}
		case 3:
			if err := marshal.ReadTail(x.content, dst.Interface()); err != nil {
				bad("ReadTail of % x fails: %v", x.content, err)
			} else if ok, where := same(x.v.Elem(), dst.Elem(), 0); !ok {
				bad("ReadTail of % x gives another value: %s", x.content, where)
			}
		case 4:
			sbox.WriteTuple(w, v)
			if b := w.Written(); !bytes.Equal(b, x.tuple) {
				bad("WriteTuple gives % x instead of % x", b, x.tuple)
			}
		case 5:
			if err := sbox.ReadRawTuple(&marshal.Reader{Body: x.tuple}, dst.Interface()); err != nil {
				bad("reading tuple % x fails: %v", x.tuple, err)
			} else if ok, where := sameTuple(x.v.Elem(), dst.Elem()); !ok {
				bad("reading tuple % x gives another value: %s", x.tuple, where)
			}
		case 6:
			dst := reflect.New(reflect.SliceOf(t))
			n, total, err := sbox.ReadMany(x.many, dst.Interface())
			if err != nil || n != 2 || total != 2 {
				bad("reading result % x gives %d of %d: %v", x.many, n, total, err)
				break
			}
			for i := 0; i < 2; i++ {
				if ok, where := sameTuple(x.v.Elem(), dst.Elem().Index(i)); !ok {
					bad("reading result % x gives another tuple: %s", x.many, where)
				}
			}
		case 7:
			got, total, err := sbox.ReadFirst(x.many, dst.Interface())
			if err != nil || !got || total != 2 {
				bad("reading the first of result % x gives %v of %d: %v", x.many, got, total, err)
			} else if ok, where := sameTuple(x.v.Elem(), dst.Elem()); !ok {
				bad("reading the first of result % x gives another tuple: %s", x.many, where)
			}
		}
		if what != "" {
			return
		}
		n++
	}
	return
}

func c25(e *Env) {
	e.Cases(e.N(1280, 15360), 1, func(i int, r *rand.Rand) {
		cs := fmt.Sprintf("case %d", i)
		ns := newTypes(r, fmt.Sprintf("%d_%d", e.seed, i), 1+r.IntN(4))
		gs := pick(r, 2, 4, 8, 12)
		start := make(chan struct{})
		var wg sync.WaitGroup
		wrong := make([]string, gs)
		counts := make([]int, gs)
		for g := 0; g < gs; g++ {
			r := rand.New(rand.NewPCG(r.Uint64(), uint64(g)))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				w := &marshal.Writer{}
				<-start
				for _, k := range r.Perm(len(ns)) {
					var n int
					if p := guarded(func() { wrong[g], n = ns[k].use(r, w) }); p != nil {
						wrong[g] = fmt.Sprintf("%v: panics: %v", ns[k].t, p)
					}
					if wrong[g] != "" {
						return
					}
					counts[g] += n
				}
			}(g)
		}
		close(start)
		if !finishes(wg.Wait) {
			e.hung(cs, "codec", "encoding and decoding do not end")
			return
		}
		for g := range wrong {
			if wrong[g] != "" {
				e.Viol(cs, "codec", "%s: %d goroutines, new types: %s", cs, gs, wrong[g])
				return
			}
			e.Eval(counts[g])
		}
		e.Count("types used for the first time", len(ns))
		e.Count("goroutines", gs)
		for _, n := range ns {
			e.Distinct("%d %v", gs, n.t)
		}
		e.Sample("%d goroutines use %v", gs, ns[0].t)
	})
}

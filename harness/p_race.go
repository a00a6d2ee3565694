package main

import (
	"bufio"
	"bytes"
	"io"
	"math/rand"
	"reflect"
	"sync"
	"time"

	"github.com/zerosnake0/jzon"
)

// recursive types
type RecA struct {
	N int              `json:"n"`
	B *RecB            `json:"b,omitempty"`
	L []RecA           `json:"l"`
	X interface{}      `json:"x"`
	M map[string]*RecC `json:"m"`
}

type RecB struct {
	S string          `json:"s,omitempty"`
	A *RecA           `json:"a"`
	M map[string]RecB `json:"m,omitempty"`
	C [2]*RecC        `json:"c"`
}

type RecC struct {
	P *RecC `json:"p"` // a single pointer
}

type RecD struct {
	D []*RecD         `json:"d,omitempty"`
	A RecA            `json:"a"`
	F float64         `json:"f,string"`
	K map[int8][]RecD `json:"k"`
}

var tyRecA, tyRecB, tyRecC, tyRecD *Ty
var recTys []*Ty

func init() {
	mk := func(o interface{}) *Ty {
		rt := rtOf(o)
		return &Ty{T: "struct", rt: rt, Def: &Def{rt: rt}}
	}
	tyRecA, tyRecB, tyRecC, tyRecD = mk(RecA{}), mk(RecB{}), mk(RecC{}), mk(RecD{})
	f := func(gn, tn string, om bool, ty *Ty) Fld {
		return Fld{GN: gn, Exp: true, Tagged: true, TN: tn, Om: om, Ty: ty}
	}
	tyRecA.Def.Fields = []Fld{f("N", "n", false, tyInt), f("B", "b", true, ptrTo(tyRecB)), f("L", "l", false, sliceOf(tyRecA)),
		f("X", "x", false, tyAny), f("M", "m", false, mapOf(tyString, ptrTo(tyRecC)))}
	tyRecB.Def.Fields = []Fld{f("S", "s", true, tyString), f("A", "a", false, ptrTo(tyRecA)), f("M", "m", true, mapOf(tyString, tyRecB)),
		f("C", "c", false, arrayOf(2, ptrTo(tyRecC)))}
	tyRecC.Def.Fields = []Fld{f("P", "p", false, ptrTo(tyRecC))}
	tyRecD.Def.Fields = []Fld{f("D", "d", true, sliceOf(ptrTo(tyRecD))), f("A", "a", false, tyRecA),
		{GN: "F", Exp: true, Tagged: true, TN: "f", Str: true, Ty: tyFloat64}, f("K", "k", false, mapOf(tyInt8, sliceOf(tyRecD)))}
	recTys = []*Ty{tyRecA, tyRecB, tyRecC, tyRecD}
	singleThreaded["race"] = true
	profiles["race"] = raceCase
}

// raceCase: several goroutines use types for the first time at the same moment
func raceCase(c *ctx) {
	r := c.r
	freshConfigs()
	dc := decCfg{un: true} // not the default one, so that it is fresh
	ec := encCfg{esc: false}
	if r.Intn(4) == 0 {
		dc.cs = true
		ec.only = r.Intn(2) == 0
	}
	var tys []*Ty
	for k := 1 + r.Intn(2); k > 0; k-- {
		if r.Intn(3) == 0 {
			tys = append(tys, randRtTy(r, 3))
		} else {
			tys = append(tys, recTys[r.Intn(4)])
		}
	}
	if r.Intn(5) == 0 { // many fields: takes longer to build
		tys = append(tys, randStructOf(r, 14, func() *Ty { return randRtTy(r, 2) }))
	}
	t0 := tys[0]
	switch r.Intn(5) {
	case 0:
		tys = append(tys, ptrTo(t0), sliceOf(t0))
	case 1:
		tys = append(tys, mapOf(tyString, t0), sliceOf(ptrTo(t0)))
	case 2:
		tys = append(tys, arrayOf(1, ptrTo(t0)))
	}
	g := &docGen{r: r, bad: 60}
	x := make([][]byte, len(tys))
	val := make([]reflect.Value, len(tys))
	for i, ty := range tys {
		x[i] = g.doc(ty, 2)
		val[i] = reflect.New(ty.rt)
		fill(val[i].Elem(), ty, r, 3, dynTys)
	}
	gate := make(chan struct{})
	G := 4 + r.Intn(6)
	var ready, wg sync.WaitGroup
	subs := make([]*ctx, G)
	bufs := make([]*bytes.Buffer, G)
	same := r.Intn(2) == 0
	for k := 0; k < G; k++ {
		bufs[k] = &bytes.Buffer{}
		s := &ctx{prof: c.prof, i: c.i, seed: c.seed, tier: c.tier, r: rand.New(rand.NewSource(r.Int63())), extra: c.extra,
			w: &worker{out: bufio.NewWriter(bufs[k]), stats: map[string]int{}}, share: true}
		subs[k] = s
		spin := time.Duration(0)
		if r.Intn(3) == 0 {
			spin = time.Duration(r.Intn(80)) * time.Microsecond
		}
		first := true
		ready.Add(1)
		s.gate = func() {
			if first {
				first = false
				ready.Done()
				<-gate
				for t := time.Now(); time.Since(t) < spin; {
				}
			}
		}
		wg.Add(1)
		n := 1 + r.Intn(3)
		start, dec := r.Intn(len(tys)), r.Intn(2) == 0
		if same {
			start = 0
		}
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					s.bad("panic: %v", e)
				}
				s.gate()
			}()
			for j := 0; j < n; j++ {
				i := (start + j) % len(tys)
				if dec == (j%2 == 0) {
					doDecode(s, tys[i], x[i], dc, false, decModes[s.r.Intn(len(decModes))], anyPtrTys)
				} else {
					mode := encModes[s.r.Intn(len(encModes)-1)]
					doEncode(s, tys[i], val[i], ec, mode, dynTys)
				}
				if s.r.Intn(4) == 0 { // plain use of pooled objects
					it := dc.cfg().NewIterator()
					it.ResetBytes(x[i])
					it.Skip()
					it.Release()
					st := encCfgs[ec].NewStreamer()
					st.Reset(io.Discard)
					st.ArrayStart().Int(1).String("x").ArrayEnd().Flush()
					st.Release()
					jzon.Valid(x[i])
				}
			}
		}()
	}
	ready.Wait()
	close(gate)
	wg.Wait()
	for k, s := range subs {
		s.w.out.Flush()
		c.w.out.Write(bufs[k].Bytes())
		c.w.nrec += s.w.nrec
		c.w.bads = append(c.w.bads, s.w.bads...)
		for a, b := range s.w.stats {
			c.w.stats[a] += b
		}
	}
	c.countN("goroutines", G)
}

// mixed: the other profiles next to each other (the workers share the pools
// and the configurations); run under the race detector
var mixedProfs = []string{"typed", "encode", "iter", "session", "writerrnd", "encoderrnd", "dispenc", "chunks", "strings", "keys", "encstr",
	"floats", "untyped", "roundtrip", "encnum", "ints", "writerfault", "dispdec", "structdec", "structenc", "texttrip", "extents", "faults", "badtyped",
	"textedit", "alias", "iterwalk"}

func init() {
	profiles["mixed"] = func(c *ctx) {
		c.prof = mixedProfs[c.i%len(mixedProfs)]
		profiles[c.prof](c)
		c.prof = "mixed"
	}
}

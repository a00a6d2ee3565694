package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"reflect"
	"runtime"
	"strings"
	"sync"

	"github.com/zerosnake0/jzon"
)

// freshConfigs replaces the shared configurations (single-threaded profiles
// only)
func freshConfigs() {
	for c := range decCfgs {
		decCfgs[c] = jzon.NewDecoderConfig(&jzon.DecoderOption{
			CaseSensitive: c.cs, DisallowUnknownFields: c.duf, UseNumber: c.un, OnlyTaggedField: c.only})
	}
	for c := range encCfgs {
		encCfgs[c] = jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: c.esc, OnlyTaggedField: c.only})
	}
}

type PanicT struct{}

func (PanicT) MarshalText() ([]byte, error) { panic("user code panics") }

type panicWriter struct{}

func (panicWriter) Write([]byte) (int, error) { panic("the writer panics") }

type panicReader struct{ x []byte }

func (p *panicReader) Read(b []byte) (int, error) {
	if len(p.x) == 0 {
		panic("the reader panics")
	}
	n := copy(b, p.x[:1+len(p.x)/3])
	p.x = p.x[n:]
	return n, nil
}

// PanicU panics, or fails, in user code
type PanicU struct{ X int }

func (*PanicU) UnmarshalJSON(b []byte) error { panic("user code panics") }

type PanicM struct{ X int }

func (PanicM) MarshalJSON() ([]byte, error) { panic("user code panics") }

// JUR uses the library again while it is being decoded; it records what it
// received, before and after
type JUR []string

func (j *JUR) UnmarshalJSON(b []byte) error {
	before := string(b)
	var o interface{}
	_ = jzon.Unmarshal(b, &o)
	_, _ = jzon.Marshal(o)
	_ = jzon.Valid(b)
	var raw json.RawMessage
	_ = jzon.UnmarshalFromReader(&chunkReader{r: rand.New(rand.NewSource(1)), x: append([]byte{}, b...), style: 2}, &raw)
	if string(b) != before || string(raw) != before {
		*j = append(*j, "changed: "+string(b))
		return nil
	}
	*j = append(*j, before)
	return nil
}

var tyJUR = &Ty{T: "jum", rt: rtOf(JUR{})}

// fresh checks that a borrowed object shows nothing of its past
func freshIt(c *ctx, it *jzon.Iterator) {
	if it.Context != nil {
		c.bad("a new iterator has the context of an earlier one: %v", it.Context)
	}
}

func freshSt(c *ctx, s *jzon.Streamer) {
	if s.Context != nil || s.Error != nil {
		c.bad("a new streamer has the context or error of an earlier one: %v %v", s.Context, s.Error)
	}
}

type errReader struct{ x []byte }

func (e *errReader) Read(p []byte) (int, error) {
	if len(e.x) == 0 {
		return 0, errors.New("errReader")
	}
	n := copy(p, e.x[:1])
	e.x = e.x[n:]
	return n, nil
}

func histOp(c *ctx, o string) {
	c.near = true
	r := c.r
	g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)]}
	switch o {
	case "ok":
		ty := randTy(r, 2, true)
		doDecode(c, ty, g.doc(ty, 2), randCfg(r), r.Intn(2) == 0, decModes[r.Intn(len(decModes))], anyPtrTys)
	case "err":
		ty := randTy(r, 2, true)
		x := mutate(r, g.doc(ty, 3))
		if r.Intn(2) == 0 && len(x) > 0 {
			x = x[:r.Intn(len(x))]
		}
		doDecode(c, ty, x, randCfg(r), false, decModes[r.Intn(len(decModes))], anyPtrTys)
	case "reader":
		ty := randTy(r, 2, true)
		x := stretch(r, g.doc(ty, 2))
		if len(x) > 1500 {
			x = g.doc(ty, 1)
		}
		doDecode(c, ty, x, randCfg(r), false, []string{"reader", "decoder", "iterval"}[r.Intn(3)], anyPtrTys)
	case "raw":
		profiles["extents"](c)
	case "settings":
		profiles["session"](c)
	case "abandon":
		x := g.any(nil, 4)
		it := randCfg(r).cfg().NewIterator()
		freshIt(c, it)
		if r.Intn(2) == 0 {
			it.ResetBytes(x)
		} else if r.Intn(2) == 0 {
			it.Reset(&errReader{x: x})
		} else {
			it.Reset(newChunkReader(r, x))
		}
		guard(func() error {
			for k := r.Intn(5); k >= 0; k-- {
				if _, err := doStep(it, stepOps[r.Intn(len(stepOps))], nil, new(interface{})); err != nil {
					return err
				}
			}
			return nil
		})
		it.Release()
	case "panic":
		x := []byte(`{"a":[1,{"b":` + string(g.any(nil, 2)) + `}],"c":"` + strings.Repeat("z", r.Intn(900)) + `"}`)
		guard(func() error {
			var dst interface{} = &map[string]PanicU{}
			switch r.Intn(3) {
			case 0:
				dst = &struct {
					A []interface{} `json:"a"`
					C PanicU        `json:"c"`
				}{}
			case 1:
				dst = &[]*PanicU{}
				x = append(append([]byte{'['}, x...), ']')
			}
			switch r.Intn(5) {
			case 0:
				return jzon.Unmarshal(x, dst)
			case 1:
				return jzon.UnmarshalFromReader(newChunkReader(r, x), dst)
			case 2: // the iterator is released on the way out
				it := randCfg(r).cfg().NewIterator()
				defer it.Release()
				if r.Intn(2) == 0 {
					it.ResetBytes(x)
				} else {
					it.Reset(newChunkReader(r, x))
				}
				return it.ReadVal(dst)
			case 3: // a reader which panics, in the middle of any step
				it := randCfg(r).cfg().NewIterator()
				defer it.Release()
				it.Reset(&panicReader{x: x[:r.Intn(len(x))]})
				switch r.Intn(5) {
				case 0:
					_, err := it.SkipRaw()
					return err
				case 1:
					return it.Skip()
				case 2:
					_, err := it.Read()
					return err
				case 3:
					return it.ReadObjectCB(func(it *jzon.Iterator, _ string) error { return it.Skip() })
				}
				return it.ReadVal(dst)
			}
			d := randCfg(r).cfg().NewDecoder(newChunkReader(r, x))
			defer d.Release()
			d.UseNumber()
			d.DisallowUnknownFields()
			return d.Decode(dst)
		})
	case "eface":
		var o1, o2, o3 interface{}
		o1, o2, o3 = &o2, &o3, &o1
		var dst interface{} = &o1
		if r.Intn(3) == 0 {
			o3 = &o3
		}
		out, err := guard(func() error { return jzon.Unmarshal(g.any(nil, 2), dst) })
		if out == "panic" {
			c.bad("looping interfaces: %s", firstLine(err.Error()))
		}
		doDecode(c, tyAny, g.any(nil, 2), decCfg{}, true, decModes[r.Intn(len(decModes))], anyPtrTys)
	case "ctx":
		it := randCfg(r).cfg().NewIterator()
		freshIt(c, it)
		it.Context = c
		it.ResetBytes([]byte("[1]"))
		it.Context = c
		it.Read()
		it.Release()
	case "reuse":
		histReuse(c, g)
	case "deep":
		n := 1 + r.Intn(80)
		var x []byte
		var close []byte
		for i := 0; i < n; i++ {
			if r.Intn(8) != 0 {
				x = append(x, '[')
				close = append(close, ']')
			} else {
				x = append(x, `{"a":`...)
				close = append(close, '}')
			}
		}
		x = append(x, '1')
		if r.Intn(3) != 0 {
			for i := len(close) - 1; i >= 0; i-- {
				x = append(x, close[i])
			}
		} else if r.Intn(2) == 0 {
			x = append(x, close[len(close)/2:]...)
		}
		doDecode(c, tyAny, x, decCfg{un: r.Intn(2) == 0}, false, decModes[r.Intn(len(decModes))], nil)
		v := jzon.Valid(x)
		if v != accepts(x) {
			c.bad("Valid(%q) = %v", clip(x), v)
		}
	case "valid":
		x := g.any(nil, 3)
		if r.Intn(2) == 0 {
			x = mutate(r, x)
		}
		if v := jzon.Valid(x); v != accepts(x) {
			c.bad("Valid(%q) = %v", clip(x), v)
		}
		c.count("texts")
	case "reent":
		ty := []*Ty{tyJUR, sliceOf(tyJUR), mapOf(tyString, tyJUR), structOf([]Fld{
			{GN: "A", Exp: true, Tagged: true, TN: "a", Ty: tyAny}, {GN: "B", Exp: true, Tagged: true, TN: "b", Ty: tyJUR}, {GN: "C", Exp: true, Tagged: true, TN: "c", Ty: tyString}})}[r.Intn(4)]
		doDecode(c, ty, g.doc(ty, 2), decCfg{}, false, decModes[r.Intn(len(decModes))], nil)
	case "eok":
		profiles["encode"](c)
	case "eerr":
		ty := sliceOf(structOf([]Fld{{GN: "A", Exp: true, Ty: tyString}, {GN: "B", Exp: true, Ty: tyWild64}, {GN: "C", Exp: true, Ty: tyMJ}}))
		p := reflect.New(ty.rt)
		fill(p.Elem(), ty, r, 3, nil)
		p.Elem().Set(reflect.Append(p.Elem(), reflect.New(ty.E.rt).Elem()))
		p.Elem().Index(p.Elem().Len() - 1).Field(2).Set(reflect.ValueOf(MJ{Fail: true}))
		doEncode(c, ty, p, randEncCfg(r), encModes[r.Intn(len(encModes))], dynTys)
	case "eabandon":
		s := encCfgs[randEncCfg(r)].NewStreamer()
		freshSt(c, s)
		if r.Intn(2) == 0 {
			s.Reset(io.Discard)
		}
		for _, call := range randCalls(r, newDefTab(), 1+r.Intn(6), false) {
			if call.do != nil {
				call.do(s)
			} else if r.Intn(2) == 0 {
				s.Flush()
			}
		}
		s.Release()
	case "eesc":
		e := encCfgs[randEncCfg(r)].NewEncoder(io.Discard)
		e.SetEscapeHTML(r.Intn(2) == 0)
		e.Encode("<>&")
		if r.Intn(2) == 0 {
			e.Encode(func() {})
		}
		e.Release()
		profiles["encoderrnd"](c)
	case "epanic":
		v := []interface{}{1, "x", map[string]interface{}{"a": PanicM{}}}
		switch r.Intn(3) {
		case 0:
			v[2] = map[PanicT]int{{}: 1}
		case 1:
			v[2] = &struct {
				A int         `json:",string"`
				B interface{} `json:"b"`
			}{1, []interface{}{PanicT{}}}
		}
		out, _ := guard(func() error {
			cfg := encCfgs[randEncCfg(r)]
			switch r.Intn(3) {
			case 0:
				s := cfg.NewStreamer()
				defer s.Release()
				s.Reset(io.Discard)
				s.Context = c
				s.ObjectStart().Field("a").Value(v)
				return s.Flush()
			case 1:
				e := cfg.NewEncoder(panicWriter{})
				defer e.Release()
				e.SetEscapeHTML(r.Intn(2) == 0)
				return e.Encode(strings.Repeat("w", r.Intn(900)))
			}
			_, err := cfg.Marshal(v)
			return err
		})
		if out != "panic" {
			c.bad("a panic of a marshaler became %s", out)
		}
	case "ewerr":
		if r.Intn(2) == 0 {
			profiles["writerfault"](c)
		} else {
			profiles["encoderrnd"](c)
		}
	case "ectx":
		s := encCfgs[randEncCfg(r)].NewStreamer()
		freshSt(c, s)
		s.Context = c
		s.Null()
		s.Release()
	default:
		panic(harnessError(o))
	}
}

// histReuse uses one iterator for several texts, for the same variables
func histReuse(c *ctx, g *docGen) {
	r := c.r
	cfg := randCfg(r)
	it := cfg.cfg().NewIterator()
	freshIt(c, it)
	tys := []*Ty{tyAny, randTy(r, 2, true), []*Ty{ptrTo(tyAny), sliceOf(tyAny), mapOf(tyString, tyAny), tyRaw, ptrTo(ptrTo(tyInt))}[r.Intn(5)]}
	dsts := make([]reflect.Value, len(tys))
	ix := typeIndex{}
	for _, t := range anyPtrTys {
		t.index(ix)
	}
	for i, ty := range tys {
		ty.index(ix)
		dsts[i] = reflect.New(ty.rt)
		if r.Intn(2) == 0 {
			fill(dsts[i].Elem(), ty, r, 3, anyPtrTys)
		}
	}
	for k := 2 + r.Intn(4); k > 0; k-- {
		i := r.Intn(len(tys))
		if r.Intn(2) == 0 {
			i = 0
		}
		ty, dst := tys[i], dsts[i]
		x := g.doc(ty, 2)
		switch r.Intn(6) {
		case 0:
			x = mutate(r, x)
		case 1:
			x = x[:r.Intn(len(x))]
		}
		d := newDefTab()
		tyE := ty.emit(d)
		prior := project(dst.Elem(), ty, ix, d)
		xc := append([]byte{}, x...)
		mode := []string{"bytes", "reader", "reset", "resetreader"}[r.Intn(4)]
		out, err := guard(func() error {
			switch mode {
			case "bytes":
				return it.Unmarshal(xc, dst.Interface())
			case "reader":
				return it.UnmarshalFromReader(newChunkReader(r, xc), dst.Interface())
			case "reset":
				it.ResetBytes(xc)
			default:
				it.Reset(newChunkReader(r, xc))
			}
			if err := it.ReadVal(dst.Interface()); err != nil {
				return err
			}
			if _, err := it.NextValueType(); err != io.EOF {
				return errors.New("data remained")
			}
			return nil
		})
		rec := M{"kind": "dec", "x": B(x), "ty": tyE, "prior": prior, "out": out, "mode": "reuse " + mode,
			"cs": cfg.cs, "duf": cfg.duf, "un": cfg.un, "only": cfg.only, "fl": floatTable(x), "msg": "", "own": ownErr(err), "val": M{"k": "opq"}}
		if err != nil {
			rec["msg"] = firstLine(err.Error())
		}
		if out == "ok" {
			rec["val"] = project(dst.Elem(), ty, ix, d)
		}
		rec["defs"] = d.emit()
		c.count("out_" + out)
		c.emit(rec)
		if out == "panic" {
			return
		}
		// something else in between, left unfinished
		if r.Intn(4) == 0 {
			it.Reset(newChunkReader(r, g.any(nil, 3)))
			guard(func() error {
				for k := r.Intn(3); k >= 0; k-- {
					if _, err := doStep(it, stepOps[r.Intn(len(stepOps))], nil, new(interface{})); err != nil {
						return err
					}
				}
				return nil
			})
		}
	}
	it.Release()
}

var histOps = []string{"ok", "err", "reader", "raw", "settings", "abandon", "panic", "eface", "ctx", "deep", "valid", "reent", "reuse",
	"eok", "eerr", "eabandon", "eesc", "epanic", "ewerr", "ectx"}

var oneProc sync.Once

func init() {
	singleThreaded["histgen"] = true
	singleThreaded["histrnd"] = true
	singleThreaded["order"] = true
	profiles["histgen"] = func(c *ctx) {
		oneProc.Do(func() { runtime.GOMAXPROCS(1) })
		var ops []string
		if err := json.Unmarshal(genLine(c), &ops); err != nil {
			panic(harnessError(err.Error()))
		}
		for _, o := range ops {
			histOp(c, o)
		}
	}
	profiles["histrnd"] = func(c *ctx) {
		oneProc.Do(func() { runtime.GOMAXPROCS(1) })
		freshConfigs()
		for k := 0; k < 20; k++ {
			histOp(c, histOps[c.r.Intn(len(histOps))])
		}
	}
	// the order in which types are used for the first time does not matter
	profiles["order"] = func(c *ctx) {
		oneProc.Do(func() { runtime.GOMAXPROCS(1) })
		freshConfigs()
		r := c.r
		var base *Ty
		if r.Intn(2) == 0 {
			base = randEncTy(r, 1)
		} else {
			base = []*Ty{tyUint8, scalarTys[22], tyMJ, tyMT, tyMJS, tyMTM, tyInt, tyRaw, tyNumber, tyAny, ptrTo(tyInt), mapOf(tyString, tyInt), ptrTo(tyMJ), ptrTo(tyMTM),
				structOf([]Fld{{GN: "P", Exp: true, Ty: ptrTo(tyInt)}}), structOf(nil)}[r.Intn(16)]
		}
		fam := []*Ty{base, ptrTo(base), ptrTo(ptrTo(base)), sliceOf(base), sliceOf(ptrTo(base)), arrayOf(1, base), arrayOf(2, ptrTo(base)), arrayOf(0, base),
			mapOf(tyString, base), mapOf(tyString, ptrTo(base)), structOf([]Fld{{GN: "A", Exp: true, Ty: base}}),
			structOf([]Fld{{GN: "A", Exp: true, Ty: ptrTo(base)}, {GN: "B", Exp: true, Tagged: true, TN: "b", Om: true, Ty: base}}),
			structOf([]Fld{{GN: "A", Exp: true, Ty: sliceOf(base)}}), sliceOf(sliceOf(base)), structOf([]Fld{{GN: "A", Exp: true, Ty: arrayOf(1, base)}})}
		ec := randEncCfg(r)
		decable := true
		for _, t := range []string{"jm", "tm", "bad"} {
			decable = decable && !mentions(base, t)
		}
		dc := decCfg{un: r.Intn(2) == 0}
		for k := 2 + r.Intn(5); k > 0; k-- {
			ty := fam[r.Intn(len(fam))]
			if decable && r.Intn(2) == 0 {
				g := &docGen{r: r, bad: 20}
				doDecode(c, ty, g.doc(ty, 3), dc, false, "bytes", anyPtrTys)
				continue
			}
			p := reflect.New(ty.rt)
			fill(p.Elem(), ty, r, 4, dynTys)
			doEncode(c, ty, p, ec, encModes[r.Intn(len(encModes)-1)], append(append([]*Ty{}, dynTys...), fam...))
		}
	}
}

func mentions(ty *Ty, t string) bool { return mentions1(ty, t, map[*Def]bool{}) }

func mentions1(ty *Ty, t string, seen map[*Def]bool) bool {
	if ty.T == t {
		return true
	}
	if ty.E != nil && mentions1(ty.E, t, seen) {
		return true
	}
	if ty.Def != nil && !seen[ty.Def] {
		seen[ty.Def] = true
		for _, f := range ty.Def.Fields {
			if mentions1(f.Ty, t, seen) {
				return true
			}
		}
	}
	return false
}

var _ = bytes.NewReader

package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime/debug"
	"strings"

	"github.com/zerosnake0/jzon"
)

// decCfg is a decoder configuration
type decCfg struct {
	cs, duf, un, only bool
	tag               string
}

var decCfgs = map[decCfg]*jzon.DecoderConfig{}

func init() {
	for i := 0; i < 16; i++ {
		c := decCfg{cs: i&1 != 0, duf: i&2 != 0, un: i&4 != 0, only: i&8 != 0}
		decCfgs[c] = jzon.NewDecoderConfig(&jzon.DecoderOption{
			CaseSensitive: c.cs, DisallowUnknownFields: c.duf, UseNumber: c.un, OnlyTaggedField: c.only})
	}
}

func (c decCfg) cfg() *jzon.DecoderConfig {
	if c == (decCfg{}) {
		return jzon.DefaultDecoderConfig
	}
	return decCfgs[c]
}

func randCfg(r *rand.Rand) decCfg {
	if r.Intn(3) != 0 {
		return decCfg{}
	}
	return decCfg{cs: r.Intn(3) == 0, duf: r.Intn(3) == 0, un: r.Intn(3) == 0}
}

// guard runs f and turns a panic into an outcome
func guard(f func() error) (out string, err error) {
	defer func() {
		if e := recover(); e != nil {
			out, err = "panic", fmt.Errorf("%v\n%s", e, debug.Stack())
		}
	}()
	err = f()
	if err != nil {
		return "err", err
	}
	return "ok", nil
}

type decCase struct {
	x     []byte
	ty    *Ty
	cfg   decCfg
	prior reflect.Value // pointer to the destination
	mode  string
}

// runDec decodes x into dst in the given mode
func runDec(cfg *jzon.DecoderConfig, mode string, x []byte, dst interface{}, r *rand.Rand) (string, error) {
	return guard(func() error {
		switch mode {
		case "bytes":
			return cfg.Unmarshal(x, dst)
		case "string":
			return cfg.UnmarshalFromString(string(x), dst)
		case "reader":
			return cfg.UnmarshalFromReader(newChunkReader(r, x), dst)
		case "buffer":
			return cfg.UnmarshalFromReader(bytes.NewBuffer(x), dst)
		case "iter":
			it := cfg.NewIterator()
			defer it.Release()
			return it.Unmarshal(x, dst)
		case "iterval": // Reset + ReadVal + nothing left
			it := cfg.NewIterator()
			defer it.Release()
			it.Reset(newChunkReader(r, x))
			if err := it.ReadVal(dst); err != nil {
				return err
			}
			if _, err := it.NextValueType(); err != io.EOF {
				return fmt.Errorf("data remained: %v", err)
			}
			return nil
		case "decoder":
			d := cfg.NewDecoder(newChunkReader(r, x))
			defer d.Release()
			if err := d.Decode(dst); err != nil {
				return err
			}
			if d.More() {
				return fmt.Errorf("more data")
			}
			return nil
		}
		panic(harnessError(mode))
	})
}

var decModes = []string{"bytes", "bytes", "string", "reader", "reader", "buffer", "iter", "iterval", "decoder"}

// chunkReader delivers the text in pieces
type chunkReader struct {
	r     *rand.Rand
	x     []byte
	style int
	zero  bool
	eofW  bool // deliver EOF together with the last piece
}

func newChunkReader(r *rand.Rand, x []byte) *chunkReader {
	return &chunkReader{r: r, x: append([]byte{}, x...), style: r.Intn(6), zero: r.Intn(3) == 0, eofW: r.Intn(2) == 0}
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if gcMode && c.r.Intn(3) == 0 {
		gcNow()
	}
	if len(c.x) == 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	if c.zero && c.r.Intn(4) == 0 {
		return 0, nil
	}
	n := len(c.x)
	switch c.style {
	case 0:
		n = 1
	case 1:
		n = 1 + c.r.Intn(3)
	case 2:
		n = 1 + c.r.Intn(20)
	case 3:
		n = 64
	case 4:
		n = 1 + c.r.Intn(600)
	}
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.x) {
		n = len(c.x)
	}
	copy(p, c.x[:n])
	c.x = c.x[n:]
	if c.eofW && len(c.x) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// heldSlice is a slice somebody took from the destination before the decode
type heldSlice struct {
	v      reflect.Value
	ty     *Ty
	before interface{}
}

// holdSlices takes the slices which the destination holds (not the raw
// messages: those reuse their bytes)
func holdSlices(v reflect.Value, ty *Ty, ix typeIndex, d *defTab, l []heldSlice) []heldSlice {
	if len(l) >= 4 {
		return l
	}
	switch ty.T {
	case "ptr":
		if !v.IsNil() {
			l = holdSlices(v.Elem(), ty.E, ix, d, l)
		}
	case "slice":
		if v.Len() > 0 && v.Len() < 50 {
			n := reflect.New(v.Type()).Elem()
			n.Set(settable(v))
			l = append(l, heldSlice{n, ty, project(n, ty, ix, d)})
			if ty.E.T == "slice" || ty.E.T == "struct" {
				l = holdSlices(v.Index(0), ty.E, ix, d, l)
			}
		}
	case "array":
		for i := 0; i < v.Len(); i++ {
			l = holdSlices(v.Index(i), ty.E, ix, d, l)
		}
	case "struct":
		for i := range ty.Def.Fields {
			l = holdSlices(settable(v.Field(i)), ty.Def.Fields[i].Ty, ix, d, l)
		}
	}
	return l
}

// doDecode runs one decode case and emits its record
// excerpt returns the part of the text which an error message shows
func excerpt(err error) ([]byte, bool) {
	const open = " (near "
	s := err.Error()
	if strings.Count(s, open) != 1 || !strings.HasSuffix(s, ")") {
		return nil, false
	}
	return []byte(s[strings.Index(s, open)+len(open) : len(s)-1]), true
}

func doDecode(c *ctx, ty *Ty, x []byte, cfg decCfg, fillPrior bool, mode string, anyTys []*Ty) {
	dst := reflect.New(ty.rt)
	if fillPrior {
		fill(dst.Elem(), ty, c.r, 3, anyTys)
	}
	ix := typeIndex{}
	ty.index(ix)
	for _, t := range anyTys {
		t.index(ix)
	}
	d := newDefTab()
	tyE := ty.emit(d)
	prior := project(dst.Elem(), ty, ix, d)
	var held []heldSlice
	if fillPrior {
		held = holdSlices(dst.Elem(), ty, ix, d, nil)
	}
	xc := x
	if !c.share {
		xc = append([]byte{}, x...)
	}
	if c.gate != nil {
		c.gate()
	}
	dc := c.dec
	if dc == nil {
		dc = cfg.cfg()
	}
	out, err := runDec(dc, mode, xc, dst.Interface(), c.r)
	rec := M{"kind": "dec", "x": B(x), "ty": tyE, "prior": prior, "out": out, "mode": mode,
		"cs": cfg.cs, "duf": cfg.duf, "un": cfg.un, "only": cfg.only, "fl": floatTable(x), "msg": "", "own": ownErr(err), "val": M{"k": "opq"}}
	if err != nil {
		rec["msg"] = firstLine(err.Error())
		if near, ok := excerpt(err); ok && c.near && out == "err" {
			rec["near"] = B(near)
			c.count("excerpts")
		}
	}
	if out == "ok" {
		rec["val"] = project(dst.Elem(), ty, ix, d)
	}
	if held != nil {
		l := []interface{}{}
		for _, h := range held {
			l = append(l, M{"b": h.before, "a": project(h.v, h.ty, ix, d)})
		}
		rec["held"] = l
	}
	rec["defs"] = d.emit()
	c.count("out_" + out)
	c.emit(rec)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	b := []byte{}
	for i := 0; i < len(s) && i < 120; i++ {
		if s[i] >= 32 && s[i] < 127 && s[i] != '"' && s[i] != '\\' {
			b = append(b, s[i])
		}
	}
	return string(b)
}

// withUnsupported: a type which cannot be decoded, or has such a part
func withUnsupported(r *rand.Rand, ty *Ty) *Ty {
	bad := []*Ty{tyChan, tyFunc, tyCplx, tyBadMap}[r.Intn(4)]
	switch r.Intn(8) {
	case 0:
		return bad
	case 1:
		return sliceOf(bad)
	case 2:
		return mapOf(tyString, bad)
	case 3:
		return arrayOf(r.Intn(3), bad)
	case 4:
		return ptrTo(bad)
	}
	return structOf([]Fld{{GN: "A", Exp: true, Ty: ty}, {GN: "B", Exp: true, Tagged: true, TN: "b", Ty: bad}, {GN: "C", Exp: true, Ty: tyInt}})
}

// noDest: decoding into something which is not a pointer, or a nil pointer,
// is an error
func noDest(c *ctx, x []byte) {
	var e interface{}
	dsts := []interface{}{nil, 5, "x", struct{}{}, map[string]int{}, []int{1, 2}, (*int)(nil), (*interface{})(nil), (**int)(nil), (*[]int)(nil),
		(*struct{ A int })(nil), (*map[string]int)(nil), [1]interface{}{&e}, (*JU)(nil), struct{ P *int }{new(int)}, func() {}, make(chan int)}
	i := c.r.Intn(len(dsts))
	cfg := randCfg(c.r)
	mode := decModes[c.r.Intn(len(decModes))]
	out, err := runDec(cfg.cfg(), mode, append([]byte{}, x...), dsts[i], c.r)
	rec := M{"kind": "dec", "x": B(x), "ty": M{"t": "nodest"}, "prior": M{"k": "opq"}, "out": out, "mode": mode, "dest": i,
		"cs": cfg.cs, "duf": cfg.duf, "un": cfg.un, "only": cfg.only, "fl": []M{}, "msg": "", "own": ownErr(err), "val": M{"k": "opq"}, "defs": []M{}}
	c.count("nodest")
	c.emit(rec)
}

var anyPtrTys = []*Ty{tyInt, tyString, ptrTo(tyInt), sliceOf(tyInt), mapOf(tyString, tyInt), tyAny,
	structOf([]Fld{{GN: "A", Exp: true, Tagged: true, TN: "a", Ty: tyInt}, {GN: "B", Exp: true, Tagged: true, TN: "b", Ty: tyString}})}

func init() {
	// C08: composition of types, prior contents, null
	profiles["typed"] = func(c *ctx) {
		r := c.r
		ty := randTy(r, 3, true)
		if r.Intn(12) == 0 {
			ty = withUnsupported(r, ty)
		}
		g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)], bad: []int{0, 12, 40}[r.Intn(3)]}
		x := g.doc(ty, 3)
		if r.Intn(60) == 0 {
			noDest(c, x)
			return
		}
		if r.Intn(10) == 0 {
			x = mutate(r, x)
		}
		doDecode(c, ty, x, randCfg(r), r.Intn(2) == 0, decModes[r.Intn(len(decModes))], anyPtrTys)
	}
	// C05: untyped decoding
	profiles["untyped"] = func(c *ctx) {
		r := c.r
		g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)]}
		g.dup = r.Intn(8) == 0
		x := g.sp(g.any(g.sp(nil), 4))
		if r.Intn(12) == 0 {
			x = mutate(r, x)
		}
		doDecode(c, tyAny, x, decCfg{un: r.Intn(2) == 0}, r.Intn(3) == 0, decModes[r.Intn(len(decModes))], anyPtrTys)
	}
}

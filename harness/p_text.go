package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"strconv"
	"sync"

	"github.com/zerosnake0/jzon"
)

// ---------------------------------------------------------------- C01, C02

var (
	cfgListMu sync.Mutex
	cfgLists  = map[int][]*config{}
)

func configsFor(depth int) []*config {
	cfgListMu.Lock()
	defer cfgListMu.Unlock()
	l := cfgLists[depth]
	if l == nil {
		l = configs(depth)
		cfgLists[depth] = l
	}
	return l
}

func inFloatRange(x []byte) bool {
	for _, t := range numRe.FindAll(x, -1) {
		if _, err := strconv.ParseFloat(string(t), 64); err != nil {
			return false
		}
	}
	return true
}

// textModes decide whether a text is JSON
var textModes = []struct {
	name string
	f    func(r *rand.Rand, x []byte) bool
}{
	{"valid", func(r *rand.Rand, x []byte) bool { return jzon.Valid(x) }},
	{"any", func(r *rand.Rand, x []byte) bool {
		var o interface{}
		if !inFloatRange(x) {
			return decCfgs[decCfg{un: true}].Unmarshal(x, &o) == nil
		}
		return jzon.Unmarshal(x, &o) == nil
	}},
	{"raw", func(r *rand.Rand, x []byte) bool {
		var o json.RawMessage
		return jzon.Unmarshal(x, &o) == nil
	}},
	{"number", func(r *rand.Rand, x []byte) bool {
		var o interface{}
		return decCfgs[decCfg{un: true}].Unmarshal(x, &o) == nil
	}},
	{"rawreader", func(r *rand.Rand, x []byte) bool {
		var o json.RawMessage
		return jzon.UnmarshalFromReader(newChunkReader(r, x), &o) == nil
	}},
	{"anyreader", func(r *rand.Rand, x []byte) bool {
		var o interface{}
		return decCfgs[decCfg{un: true}].UnmarshalFromReader(newChunkReader(r, x), &o) == nil
	}},
	{"skip", func(r *rand.Rand, x []byte) bool {
		it := jzon.NewIterator()
		defer it.Release()
		it.ResetBytes(x)
		if it.Skip() != nil {
			return false
		}
		_, err := it.NextValueType()
		return err == io.EOF
	}},
	{"skipreader", func(r *rand.Rand, x []byte) bool {
		it := jzon.NewIterator()
		defer it.Release()
		it.Reset(newChunkReader(r, x))
		if it.Skip() != nil {
			return false
		}
		_, err := it.NextValueType()
		return err == io.EOF
	}},
	{"read", func(r *rand.Rand, x []byte) bool {
		it := decCfgs[decCfg{un: true}].NewIterator()
		defer it.Release()
		it.ResetBytes(x)
		if _, err := it.Read(); err != nil {
			return false
		}
		_, err := it.NextValueType()
		return err == io.EOF
	}},
	{"unmarshaler", func(r *rand.Rand, x []byte) bool {
		var o JU
		return jzon.UnmarshalFromString(string(x), &o) == nil
	}},
	// surrounded: as an element, as a member to skip, as a member to keep
	{"inarray", func(r *rand.Rand, x []byte) bool {
		var o []json.RawMessage
		y := append(append([]byte("[null,"), x...), ",1]"...)
		return jzon.Unmarshal(y, &o) == nil && len(o) == 3
	}},
	{"inmember", func(r *rand.Rand, x []byte) bool {
		var o struct {
			A interface{} `json:"a"`
			B int         `json:"b"`
		}
		y := append(append([]byte(`{"zz":`), x...), `,"b":7}`...)
		return jzon.Unmarshal(y, &o) == nil && o.B == 7
	}},
	{"inany", func(r *rand.Rand, x []byte) bool {
		var o interface{}
		y := append(append([]byte(`{"zz":[`), x...), `],"b":7}`...)
		if decCfgs[decCfg{un: true}].Unmarshal(y, &o) != nil {
			return false
		}
		m, ok := o.(map[string]interface{})
		return ok && m["b"] == json.Number("7")
	}},
}

// in surrounding text the verdict is about the whole
func surround(mode string, x []byte) []byte {
	switch mode {
	case "inarray":
		return append(append([]byte("[null,"), x...), ",1]"...)
	case "inmember":
		return append(append([]byte(`{"zz":`), x...), `,"b":7}`...)
	case "inany":
		return append(append([]byte(`{"zz":[`), x...), `],"b":7}`...)
	}
	return x
}

func checkText(c *ctx, x []byte, m int, want bool) {
	md := textModes[m]
	if y := surround(md.name, x); len(y) != len(x) {
		want = accepts(y)
		if want && !accepts(x) { // e.g. `1,2` inside an array
			return
		}
	}
	xc := append([]byte{}, x...)
	got := md.f(c.r, xc)
	c.count("texts")
	if want {
		c.count("texts_json")
	}
	if got != want {
		c.bad("text %q mode %s: accepted=%v, JSON=%v", x, md.name, got, want)
	}
}

var wordSuffixes = []string{"", "1", "0", "\"", "]", "}", ",", ":", " ", "e1", ".5", "5", "null", "ue", "\\u0041", "a\"", "\":1}", "]]"}

// depth of the machine configurations (quick, thorough)
func cfgDepth(c *ctx) int {
	if c.tier == "thorough" {
		return 4
	}
	return 3
}

func init() {
	// every reachable configuration of the machine (up to a nesting depth)
	// x every byte x a set of suffixes
	profiles["textmachine"] = func(c *ctx) {
		l := configsFor(cfgDepth(c))
		if c.i >= len(l) {
			return
		}
		cf := l[c.i]
		c.count("configurations")
		for b := 0; b < 256; b++ {
			p := pda{c: cf.c, stk: append([]byte{}, cf.stk...)}
			p.step(byte(b))
			base := append(append([]byte{}, cf.access...), byte(b))
			var suf [][]byte
			if p.c != pdaErr {
				suf = append(suf, completion(p.c, string(p.stk)))
			}
			// as if the byte had not been there, and as if it had been fine
			suf = append(suf, cf.compl)
			for k := 0; k < 3; k++ {
				suf = append(suf, []byte(wordSuffixes[c.r.Intn(len(wordSuffixes))]))
			}
			suf = append(suf, append([]byte(wordSuffixes[c.r.Intn(len(wordSuffixes))]), cf.compl...))
			c.count("transitions")
			for si, s := range suf {
				x := append(append([]byte{}, base...), s...)
				want := accepts(x)
				if si < 2 {
					for m := range textModes {
						checkText(c, x, m, want)
					}
				} else {
					checkText(c, x, c.r.Intn(len(textModes)), want)
				}
			}
		}
	}
	// every configuration x what other notations allow
	profiles["textwords"] = func(c *ctx) {
		l := configsFor(cfgDepth(c))
		if c.i >= len(l) {
			return
		}
		cf := l[c.i]
		c.count("configurations")
		for _, w := range intruders {
			p := pda{c: cf.c, stk: append([]byte{}, cf.stk...)}
			for _, b := range []byte(w) {
				if p.c != pdaErr {
					p.step(b)
				}
			}
			base := append(append([]byte{}, cf.access...), w...)
			suf := [][]byte{cf.compl}
			if p.c != pdaErr {
				suf = append(suf, completion(p.c, string(p.stk)))
			}
			for _, s := range suf {
				x := append(append([]byte{}, base...), s...)
				want := accepts(x)
				for m := range textModes {
					checkText(c, x, m, want)
				}
			}
		}
	}
	// documents and every small edit of them
	profiles["textedit"] = func(c *ctx) {
		r := c.r
		g := &docGen{r: r, ws: []int{0, 3}[r.Intn(2)]}
		x := g.sp(g.any(g.sp(nil), 1+r.Intn(4)))
		if len(x) > 220 {
			x = x[:220]
		}
		want := accepts(x)
		for m := range textModes {
			checkText(c, x, m, want)
		}
		sweepEdits(r, x, 60, func(y []byte) {
			checkText(c, y, r.Intn(len(textModes)), accepts(y))
		})
	}
	// C02: whatever the destination, a text which is not JSON is an error
	profiles["badtyped"] = func(c *ctx) {
		r := c.r
		ty := randTy(r, 3, true)
		if t := placed(c.i, 4); t != nil {
			ty = t
		}
		g := &docGen{r: r, ws: []int{0, 3}[r.Intn(2)], bad: []int{0, 0, 20}[r.Intn(3)]}
		x := g.doc(ty, 3)
		if len(x) > 200 {
			ty = randTy(r, 1, true)
			x = g.doc(ty, 1)
		}
		if len(x) > 300 {
			return
		}
		cfg := randCfg(r)
		n := 0
		sweepEdits(r, x, 60, func(y []byte) {
			n++
			if accepts(y) && n%8 != 0 {
				c.count("still_json")
				return
			}
			dst := reflect.New(ty.rt)
			if r.Intn(4) == 0 {
				fill(dst.Elem(), ty, r, 2, nil)
			}
			mode := decModes[r.Intn(len(decModes))]
			want := accepts(y)
			if mode == "decoder" || mode == "iterval" {
				// a stream: the first value, and nothing after it
				b, e, st := firstValue(y)
				want = st == "ok" && len(trimWS(y[e:])) == 0
				_ = b
			}
			out, err := runDec(cfg.cfg(), mode, append([]byte{}, y...), dst.Interface(), r)
			c.count("decodes")
			if out == "panic" {
				c.bad("text %q into %v mode %s: panic %v", y, ty.rt, mode, err)
			}
			if !want {
				c.count("not_json")
				if out == "ok" {
					c.bad("text %q into %v mode %s cfg %v: accepted, but it is not JSON", y, ty.rt, mode, cfg)
				}
			}
		})
	}
	// C02: machine texts into a fixed set of destinations
	profiles["badmachine"] = func(c *ctx) {
		l := configsFor(3)
		if c.i >= len(l) {
			return
		}
		cf := l[c.i]
		for b := 0; b < 256+len(intruders); b++ {
			w := []byte{byte(b)}
			if b >= 256 {
				w = []byte(intruders[b-256])
			}
			for _, s := range [][]byte{cf.compl, []byte(wordSuffixes[c.r.Intn(len(wordSuffixes))])} {
				x := append(append(append([]byte{}, cf.access...), w...), s...)
				if accepts(x) {
					continue
				}
				for k := 0; k < 6; k++ {
					ty := fixedTys[c.r.Intn(len(fixedTys))]
					dst := reflect.New(ty.rt)
					mode := []string{"bytes", "reader", "string", "iter"}[c.r.Intn(4)]
					out, err := runDec(jzon.DefaultDecoderConfig, mode, x, dst.Interface(), c.r)
					c.count("decodes")
					if out == "panic" {
						c.bad("text %q into %v mode %s: panic %v", x, ty.rt, mode, err)
					} else if out == "ok" {
						c.bad("text %q into %v mode %s: accepted, but it is not JSON", x, ty.rt, mode)
					}
				}
			}
		}
	}
}

func trimWS(x []byte) []byte {
	for len(x) > 0 && (x[0] == ' ' || x[0] == '\t' || x[0] == '\n' || x[0] == '\r') {
		x = x[1:]
	}
	return x
}

// sweepEdits visits truncations, deletions, and (a sample of) replacements
// and insertions at every position
func sweepEdits(r *rand.Rand, x []byte, perPos int, f func([]byte)) {
	rep, mem := classes()
	pick := func(j int) byte {
		if r.Intn(3) == 0 {
			return mem[j][r.Intn(len(mem[j]))]
		}
		return rep[j]
	}
	y := make([]byte, 0, len(x)+1)
	for i := 0; i <= len(x); i++ {
		y = append(y[:0], x[:i]...)
		f(y)
		if i < len(x) {
			y = append(append(y[:0], x[:i]...), x[i+1:]...)
			f(y)
		}
		for j := range rep {
			b := pick(j)
			if i < len(x) {
				y = append(append(append(y[:0], x[:i]...), b), x[i+1:]...)
				f(y)
			}
			y = append(append(append(y[:0], x[:i]...), b), x[i:]...)
			f(y)
		}
	}
}

var fixedTys = []*Ty{
	tyBool, tyInt, tyInt8, tyUint8, tyFloat32, tyFloat64, tyString, tyNumber, tyRaw, tyJU, tyJUM, tyTU, tyAny,
	ptrTo(tyInt), ptrTo(ptrTo(tyString)), sliceOf(tyInt), sliceOf(tyAny), sliceOf(tyUint8), sliceOf(sliceOf(tyAny)),
	sliceOf(sliceOf(sliceOf(tyRaw))), arrayOf(0, tyAny), arrayOf(2, tyAny), arrayOf(1, tyInt), arrayOf(1, arrayOf(1, tyAny)),
	mapOf(tyString, tyAny), mapOf(tyString, tyInt), mapOf(tyInt, tyAny), mapOf(tyTK, tyRaw),
	mapOf(tyString, mapOf(tyString, tyAny)), mapOf(tyString, sliceOf(tyAny)), mapOf(tyString, arrayOf(0, tyAny)),
	structOf(nil),
	structOf([]Fld{{GN: "A", Exp: true, Tagged: true, TN: "a", Ty: tyInt}}),
	structOf([]Fld{{GN: "A", Exp: true, Tagged: true, TN: "a", Ty: tyAny}, {GN: "B", Exp: true, Tagged: true, TN: "b", Ty: tyString}}),
	structOf([]Fld{{GN: "A", Exp: true, Tagged: true, TN: "", Str: true, Ty: tyInt}, {GN: "B", Exp: true, Tagged: true, TN: "b", Str: true, Ty: tyString}}),
	bigStruct,
}

var bigStruct = func() *Ty {
	var fs []Fld
	for i := 0; i < 12; i++ {
		fs = append(fs, Fld{GN: fmt.Sprintf("F%d", i), Exp: true, Tagged: true, TN: string(rune('a' + i)), Ty: []*Ty{tyAny, tyInt, tyString, sliceOf(tyAny)}[i%4]})
	}
	return structOf(fs)
}()

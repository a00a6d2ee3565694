package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"math"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/zerosnake0/jzon"
)

// ---------------------------------------------------------------- writers

type outcome struct {
	kind string // ok, e0 (nothing, error), e1 (a part, error), eA (all, error), s (a part, no error)
}

var werrs = []error{errors.New("write error 0"), errors.New("write error 1"), errors.New("write error 2")}

// faultWriter follows a schedule of outcomes, then accepts everything
type faultWriter struct {
	sched []string
	k     int
	r     *rand.Rand
	acc   []byte // accepted since the last look
	werr  string
	short bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	o := "ok"
	if w.k < len(w.sched) {
		o = w.sched[w.k]
	}
	w.k++
	n := len(p)
	var err error
	if o != "ok" && o != "s" && o != "S" {
		k := w.r.Intn(len(werrs))
		err = werrs[k]
		w.werr = "w" + strconv.Itoa(k)
	}
	switch o {
	case "e0", "f0":
		n = 0
	case "f1":
		if n > 1 {
			n = 1
		}
	case "fx":
		if n > 0 {
			n--
		}
	case "e1":
		if n > 0 {
			n = w.r.Intn(n)
		}
	case "S":
		if n > 0 {
			n = w.r.Intn(n)
			w.short = true
		}
	case "s":
		if n > 0 {
			n = w.r.Intn(n + 1)
			w.short = n < len(p)
		}
	}
	w.acc = append(w.acc, p[:n]...)
	// what was not accepted belongs to the caller, the rest must not matter
	return n, err
}

func (w *faultWriter) look() (acc []byte, werr string, short bool) {
	acc, werr, short = w.acc, w.werr, w.short
	w.acc, w.werr, w.short = nil, "", false
	return
}

func errName(err, encErr error) string {
	if err == nil {
		return "ok"
	}
	if encErr != nil && err == encErr {
		return "enc"
	}
	for i, e := range werrs {
		if errors.Is(err, e) {
			return "w" + strconv.Itoa(i)
		}
	}
	return "other"
}

// ---------------------------------------------------------------- calls

type wcall struct {
	c  string
	do func(s *jzon.Streamer)
	m  M
}

func simpleCall(c string) wcall {
	w := wcall{c: c, m: M{"c": c}}
	switch c {
	case "as":
		w.do = func(s *jzon.Streamer) { s.ArrayStart() }
	case "ae":
		w.do = func(s *jzon.Streamer) { s.ArrayEnd() }
	case "os":
		w.do = func(s *jzon.Streamer) { s.ObjectStart() }
	case "oe":
		w.do = func(s *jzon.Streamer) { s.ObjectEnd() }
	default:
		panic(harnessError(c))
	}
	return w
}

func fieldCall(r *rand.Rand) wcall {
	name := randGoString(r)
	if r.Intn(2) == 0 {
		name = pickKey(r)
	}
	if r.Intn(4) == 0 {
		lit, _ := json.Marshal(name)
		return wcall{c: "f", m: M{"c": "rf", "s": B(lit)}, do: func(s *jzon.Streamer) { s.RawField(lit) }}
	}
	return wcall{c: "f", m: M{"c": "f", "s": B(name)}, do: func(s *jzon.Streamer) { s.Field(name) }}
}

func escCall(on bool) wcall {
	return wcall{c: "esc", m: M{"c": "esc", "on": on}, do: func(s *jzon.Streamer) { s.EscapeHTML(on) }}
}

func vcall(ty *Ty, v interface{}, d *defTab, do func(*jzon.Streamer)) wcall {
	ix := typeIndex{encMode: tyAny}
	ty.index(ix)
	for _, t := range dynTys {
		t.index(ix)
	}
	p := reflect.New(ty.rt)
	if v != nil {
		p.Elem().Set(reflect.ValueOf(v).Convert(ty.rt))
	}
	return wcall{c: "v", m: M{"c": "v", "ty": ty.emit(d), "val": project(p.Elem(), ty, ix, d)}, do: do}
}

// noMaps: maps with several entries have no fixed order
func noMaps(ty *Ty) bool {
	return !mentions(ty, "map") && !mentions(ty, "any") && !mentions(ty, "bad")
}

// willFail: encoding must not fail
func willFail(v reflect.Value) bool {
	out, _ := guard(func() error { _, err := json.Marshal(v.Interface()); return err })
	return out != "ok"
}

func randOrderedTy(r *rand.Rand) *Ty {
	for {
		ty := randEncTy(r, 2)
		if noMaps(ty) {
			return ty
		}
	}
}

func valCall(r *rand.Rand, d *defTab) wcall {
	switch r.Intn(22) {
	case 0:
		return vcall(tyAny, nil, d, func(s *jzon.Streamer) { s.Null() })
	case 1:
		return vcall(tyBool, true, d, func(s *jzon.Streamer) { s.True() })
	case 2:
		return vcall(tyBool, false, d, func(s *jzon.Streamer) { s.False() })
	case 3:
		b := r.Intn(2) == 0
		return vcall(tyBool, b, d, func(s *jzon.Streamer) { s.Bool(b) })
	case 4:
		v := int8(randInt(r, 8))
		return vcall(tyInt8, v, d, func(s *jzon.Streamer) { s.Int8(v) })
	case 5:
		v := int16(randInt(r, 16))
		return vcall(scalarTys[3], v, d, func(s *jzon.Streamer) { s.Int16(v) })
	case 6:
		v := int32(randInt(r, 32))
		return vcall(scalarTys[4], v, d, func(s *jzon.Streamer) { s.Int32(v) })
	case 7:
		v := randInt(r, 64)
		return vcall(scalarTys[5], v, d, func(s *jzon.Streamer) { s.Int64(v) })
	case 8:
		v := int(randInt(r, 64))
		return vcall(tyInt, v, d, func(s *jzon.Streamer) { s.Int(v) })
	case 9:
		v := uint(randUint(r, 64))
		return vcall(scalarTys[6], v, d, func(s *jzon.Streamer) { s.Uint(v) })
	case 10:
		v := uint8(randUint(r, 8))
		return vcall(tyUint8, v, d, func(s *jzon.Streamer) { s.Uint8(v) })
	case 11:
		v := uint16(randUint(r, 16))
		return vcall(scalarTys[8], v, d, func(s *jzon.Streamer) { s.Uint16(v) })
	case 12:
		v := uint32(randUint(r, 32))
		return vcall(scalarTys[9], v, d, func(s *jzon.Streamer) { s.Uint32(v) })
	case 13:
		v := randUint(r, 64)
		return vcall(scalarTys[10], v, d, func(s *jzon.Streamer) { s.Uint64(v) })
	case 14:
		v := float32(randFloat(r, 32))
		return vcall(tyFloat32, v, d, func(s *jzon.Streamer) { s.Float32(v) })
	case 15:
		v := randFloat(r, 64)
		return vcall(tyFloat64, v, d, func(s *jzon.Streamer) { s.Float64(v) })
	case 16, 17:
		v := randGoString(r)
		return vcall(tyString, v, d, func(s *jzon.Streamer) { s.String(v) })
	case 18:
		raw := []string{"1", `"<x>"`, `{"a":[1,2]}`, "null", `[ ]`, "true"}[r.Intn(6)]
		if r.Intn(2) == 0 {
			return vcall(tyRaw, json.RawMessage(raw), d, func(s *jzon.Streamer) { s.RawString(raw) })
		}
		return vcall(tyRaw, json.RawMessage(raw), d, func(s *jzon.Streamer) { s.Raw([]byte(raw)) })
	default:
		for {
			ty := randOrderedTy(r)
			p := reflect.New(ty.rt)
			fill(p.Elem(), ty, r, 3, nil)
			v := p.Elem().Interface()
			if willFail(p.Elem()) {
				continue
			}
			if r.Intn(3) == 0 {
				return vcall(ptrTo(ty), p.Interface(), d, func(s *jzon.Streamer) { s.Value(p.Interface()) })
			}
			return vcall(ty, v, d, func(s *jzon.Streamer) { s.Value(v) })
		}
	}
}

func badCall(r *rand.Rand) wcall {
	w := wcall{c: "bad"}
	switch r.Intn(6) {
	case 0:
		w.do = func(s *jzon.Streamer) { s.Float64(math.NaN()) }
	case 1:
		w.do = func(s *jzon.Streamer) { s.Float32(float32(math.Inf(-1))) }
	case 2:
		w.do = func(s *jzon.Streamer) { s.Value(make(chan int)) }
	case 3:
		w.do = func(s *jzon.Streamer) { s.Value([]interface{}{1, MJ{Fail: true}, "x"}) }
	case 4:
		w.do = func(s *jzon.Streamer) { s.Value(&MT{Fail: true}) }
	default:
		w.do = func(s *jzon.Streamer) { s.Value(struct{ A, B interface{} }{1, func() {}}) }
	}
	return w
}

// the stack of open containers after a call (Writer.tla: StkAfter)
func stkAfter(stk string, c string) string {
	after := func(s string) string {
		if len(s) > 0 && s[len(s)-1] == 'k' {
			return s[:len(s)-1] + "o"
		}
		return s
	}
	switch c {
	case "v":
		return after(stk)
	case "as":
		return stk + "a"
	case "os":
		return stk + "o"
	case "f":
		return stk[:len(stk)-1] + "k"
	case "ae", "oe":
		return after(stk[:len(stk)-1])
	}
	return stk
}

// closers completes a call sequence
func closers(stk string) (l []wcall) {
	d := newDefTab()
	for len(stk) > 0 {
		var w wcall
		switch stk[len(stk)-1] {
		case 'a':
			w = simpleCall("ae")
		case 'o':
			w = simpleCall("oe")
		default:
			w = vcall(tyAny, nil, d, func(s *jzon.Streamer) { s.Null() })
		}
		l = append(l, w)
		stk = stkAfter(stk, w.c)
	}
	return
}

// runRef writes the calls with one flush at the end
func runRef(cfg *jzon.EncoderConfig, esc bool, calls []wcall) []byte {
	var b bytes.Buffer
	s := cfg.NewStreamer()
	defer s.Release()
	s.Reset(&b)
	s.EscapeHTML(esc)
	for _, c := range calls {
		if c.do != nil {
			c.do(s)
		}
	}
	if err := s.Flush(); err != nil {
		return []byte("error " + err.Error())
	}
	return b.Bytes()
}

// playWriter runs segments of calls; "fl", "f0", "f1", "fx", "s", "e1", "eA"
// are flushes with that outcome of the writer
func playWriter(c *ctx, d *defTab, segs [][]wcall) {
	r := c.r
	ec := encCfg{esc: r.Intn(2) == 0}
	cfg := encCfgs[ec]
	esc := ec.esc
	s := cfg.NewStreamer()
	defer s.Release()
	if r.Intn(2) == 0 {
		esc = !esc
		s.EscapeHTML(esc)
	}
	esc0 := esc
	out := []interface{}{}
	var all []byte
	for _, seg := range segs {
		w := &faultWriter{r: r}
		nowriter := r.Intn(12) == 0
		if nowriter {
			s.Reset(nil)
		} else {
			s.Reset(w)
		}
		escBeg := esc
		evs := []interface{}{}
		var good []wcall
		stk := ""
		bad := false
		for _, call := range seg {
			switch call.c {
			case "fl", "f0", "f1", "fx", "e1", "eA", "s":
				o := call.c
				if o == "fl" {
					o = "ok"
				}
				w.sched = []string{o}
				w.k = 0
				encErr := s.Error
				err := s.Flush()
				if nowriter && encErr == nil {
					evs = append(evs, M{"e": "nowriter", "ret": errName(err, encErr)})
					continue
				}
				acc, werr, short := w.look()
				pre := runRef(cfg, escBeg, good)
				evs = append(evs, M{"e": "fl", "acc": B(acc), "av": len(pre), "werr": werr, "short": short, "ret": errName(err, encErr)})
				all = append(all, 'x')
			case "bad":
				call.do(s)
				if !bad {
					bad = true
					evs = append(evs, M{"e": "bad"})
				}
			default:
				call.do(s)
				if call.c == "esc" {
					esc = call.m["on"].(bool)
				}
				if !bad {
					good = append(good, call)
					stk = stkAfter(stk, call.c)
				}
			}
			if r.Intn(4) == 0 {
				evs = append(evs, M{"e": "now", "err": s.Error != nil})
			}
		}
		good = append(good, closers(stk)...)
		ref := []interface{}{}
		for _, g := range good {
			ref = append(ref, g.m)
		}
		y := runRef(cfg, escBeg, good)
		out = append(out, M{"ref": ref, "y": B(y), "evs": evs, "escEnd": esc})
		all = append(all, y...)
		all = append(all, ' ')
	}
	c.emit(M{"kind": "wr", "segs": out, "esc": esc0, "only": false, "fl": floatTable(all), "y": B{}, "defs": d.emit()})
}

var genOnce sync.Once
var genLines [][]byte

func genLine(c *ctx) []byte {
	genOnce.Do(func() {
		b, err := os.ReadFile(c.extra)
		if err != nil {
			panic(harnessError(err.Error()))
		}
		genLines = bytes.Split(bytes.TrimSpace(b), []byte("\n"))
	})
	return genLines[c.i%len(genLines)]
}

func realise(r *rand.Rand, d *defTab, names []string) (l []wcall) {
	for _, n := range names {
		switch n {
		case "v":
			l = append(l, valCall(r, d))
		case "f":
			l = append(l, fieldCall(r))
		case "as", "ae", "os", "oe":
			l = append(l, simpleCall(n))
		default:
			l = append(l, wcall{c: n})
		}
	}
	return
}

func randCalls(r *rand.Rand, d *defTab, n int, faults bool) (l []wcall) {
	stk := ""
	for i := 0; i < n; i++ {
		top := byte('t')
		if len(stk) > 0 {
			top = stk[len(stk)-1]
		}
		var w wcall
		switch {
		case r.Intn(6) == 0:
			w = wcall{c: "fl"}
			if faults {
				w.c = []string{"fl", "f0", "f1", "fx", "e1", "eA", "s", "fl", "f0", "e1"}[r.Intn(10)]
			}
		case r.Intn(14) == 0:
			w = escCall(r.Intn(2) == 0)
		case r.Intn(40) == 0:
			w = badCall(r)
		case top == 'o':
			if r.Intn(3) == 0 {
				w = simpleCall("oe")
			} else {
				w = fieldCall(r)
			}
		case top == 'a' && r.Intn(4) == 0:
			w = simpleCall("ae")
		case len(stk) < 8 && r.Intn(4) == 0:
			w = simpleCall([]string{"as", "os"}[r.Intn(2)])
		default:
			w = valCall(r, d)
		}
		l = append(l, w)
		stk = stkAfter(stk, w.c)
	}
	if r.Intn(4) != 0 {
		l = append(l, closers(stk)...)
	}
	l = append(l, wcall{c: "fl"})
	return
}

// hugeCalls spells more than any buffer holds, then further values
func hugeCalls(r *rand.Rand, d *defTab, flushes []string) []wcall {
	l := []wcall{simpleCall("as"), valCall(r, d)}
	n := []int{1, 1, 10, 40}[r.Intn(4)]
	v := strings.Repeat("h", []int{1000, 2100, 4200, 8300, 9000}[r.Intn(5)]/(n/2+1))
	for ; n > 0; n-- {
		l = append(l, vcall(tyString, v, d, func(s *jzon.Streamer) { s.String(v) }))
	}
	for k := 1 + r.Intn(4); k > 0; k-- {
		if r.Intn(2) == 0 {
			l = append(l, wcall{c: flushes[r.Intn(len(flushes))]})
		}
		l = append(l, valCall(r, d))
	}
	return append(l, simpleCall("ae"), wcall{c: "fl"}, valCall(r, d), wcall{c: "fl"})
}

func init() {
	profiles["writergen"] = func(c *ctx) {
		var names []string
		if err := json.Unmarshal(genLine(c), &names); err != nil {
			panic(harnessError(err.Error()))
		}
		d := newDefTab()
		l := append(realise(c.r, d, names), wcall{c: "fl"})
		playWriter(c, d, [][]wcall{l})
	}
	profiles["writerrnd"] = func(c *ctx) {
		r := c.r
		d := newDefTab()
		var segs [][]wcall
		for k := 1 + r.Intn(3); k > 0; k-- {
			n := r.Intn(12)
			if r.Intn(10) == 0 {
				n = 60
			} else if r.Intn(60) == 0 {
				n = 400
			}
			segs = append(segs, randCalls(r, d, n, false))
		}
		if r.Intn(150) == 0 { // more than any buffer holds, then further values
			segs = append(segs, hugeCalls(r, d, []string{"fl"}))
			if r.Intn(2) == 0 {
				segs = append(segs, randCalls(r, d, r.Intn(12), false))
			}
		}
		playWriter(c, d, segs)
	}
	profiles["writerfault"] = func(c *ctx) {
		r := c.r
		d := newDefTab()
		var segs [][]wcall
		for k := 1 + r.Intn(2); k > 0; k-- {
			segs = append(segs, randCalls(r, d, 3+r.Intn(12), true))
		}
		if r.Intn(150) == 0 {
			segs = append(segs, hugeCalls(r, d, []string{"fl", "f0", "f1", "fx", "e1", "eA", "s"}))
		}
		playWriter(c, d, segs)
	}
	// stream encoder: values, faults
	encSess := func(c *ctx, ops [][]string) {
		r := c.r
		d := newDefTab()
		ec := encCfg{esc: r.Intn(2) == 0}
		cfg := encCfgs[ec]
		w := &faultWriter{r: r}
		for _, o := range ops {
			if o[0] == "good" {
				w.sched = append(w.sched, o[1])
				if o[1] == "ok" {
					w.sched = append(w.sched, o[2])
				}
			}
		}
		e := cfg.NewEncoder(w)
		defer e.Release()
		esc := ec.esc
		evs := []interface{}{}
		var all []byte
		var first error
		firstName := ""
		for _, o := range ops {
			if r.Intn(5) == 0 {
				esc = !esc
				e.SetEscapeHTML(esc)
			}
			var ty *Ty
			var p reflect.Value
			for {
				ty = randOrderedTy(r)
				p = reflect.New(ty.rt)
				if o[0] == "bad" {
					ty = []*Ty{tyChan, tyMJ, sliceOf(tyMT)}[r.Intn(3)]
					p = reflect.New(ty.rt)
					switch ty.T {
					case "jm":
						p.Elem().Set(reflect.ValueOf(MJ{Fail: true}))
					case "slice":
						p.Elem().Set(reflect.ValueOf([]MT{{S: "a"}, {Fail: true}}))
					}
					break
				}
				fill(p.Elem(), ty, r, 3, nil)
				if !willFail(p.Elem()) {
					break
				}
			}
			ix := typeIndex{encMode: tyAny}
			ty.index(ix)
			for _, t := range dynTys {
				t.index(ix)
			}
			// without faults
			var b bytes.Buffer
			e2 := cfg.NewEncoder(&b)
			e2.SetEscapeHTML(esc)
			e2.Encode(p.Elem().Interface())
			e2.Release()
			err := e.Encode(p.Elem().Interface())
			acc, werr, short := w.look()
			ret := "ok"
			if err != nil {
				if first == nil {
					first = err
					if short {
						firstName = "short"
					} else if werr != "" {
						firstName = errName(err, nil)
					} else {
						firstName = "enc"
					}
					ret = firstName
				} else if err == first {
					ret = firstName
				} else {
					ret = "other"
				}
			}
			all = append(all, b.Bytes()...)
			evs = append(evs, M{"e": "enc", "ty": ty.emit(d), "val": project(p.Elem(), ty, ix, d), "esc": esc,
				"ref": B(b.Bytes()), "acc": B(acc), "werr": werr, "short": short, "ret": ret})
		}
		c.emit(M{"kind": "encd", "evs": evs, "esc": ec.esc, "only": false, "fl": floatTable(all), "y": B{}, "defs": d.emit()})
	}
	profiles["encodergen"] = func(c *ctx) {
		var ops [][]string
		if err := json.Unmarshal(genLine(c), &ops); err != nil {
			panic(harnessError(err.Error()))
		}
		encSess(c, ops)
	}
	profiles["encoderrnd"] = func(c *ctx) {
		r := c.r
		var ops [][]string
		for k := 1 + r.Intn(7); k > 0; k-- {
			o := []string{"good", "ok", "ok"}
			if r.Intn(10) == 0 {
				o[0] = "bad"
			}
			for j := 1; j < 3; j++ {
				if r.Intn(10) == 0 {
					o[j] = []string{"e0", "e1", "eA", "S"}[r.Intn(4)]
				}
			}
			ops = append(ops, o)
		}
		encSess(c, ops)
	}
}

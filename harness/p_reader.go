package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"syscall"

	"github.com/zerosnake0/jzon"
)

// ---------------------------------------------------------------- readers

// pieceReader delivers given pieces (an empty piece is an empty read), then
// EOF or an error
type pieceReader struct {
	pieces    [][]byte
	end       error
	endWith   bool // deliver the end together with the last piece
	once      bool // the end is reported once, from then on it is io.EOF
	delivered int
}

func (p *pieceReader) Read(b []byte) (int, error) {
	if len(p.pieces) == 0 {
		end := p.end
		if p.once {
			p.end = io.EOF
		}
		return 0, end
	}
	n := copy(b, p.pieces[0])
	p.delivered += n
	if n < len(p.pieces[0]) {
		p.pieces[0] = p.pieces[0][n:]
		return n, nil
	}
	p.pieces = p.pieces[1:]
	if len(p.pieces) == 0 && p.endWith {
		end := p.end
		if p.once {
			p.end = io.EOF
		}
		return n, end
	}
	return n, nil
}

// source is a reader of some kind, the number of bytes which it has handed out,
// and a way to append to the stream (nil if there is none)
type source struct {
	io.Reader
	name      string
	delivered func() int
	grow      func(pieces [][]byte)
}

// sources are the readers of the standard library: nothing but their Read
// method may matter
func newSource(r *rand.Rand, x []byte) source {
	x = append([]byte{}, x...)
	pr := &pieceReader{pieces: randPieces(r, x), end: io.EOF, endWith: r.Intn(2) == 0}
	grow := func(pieces [][]byte) { pr.pieces = append(pr.pieces, pieces...) }
	switch r.Intn(8) {
	case 0, 1, 2:
		// what was read from the buffer before is gone, there may be room at its end
		b := bytes.NewBuffer(make([]byte, 0, len(x)+r.Intn(64)))
		w := 0
		if r.Intn(2) == 0 {
			w = 1 + r.Intn(40)
			b.Write(bytes.Repeat([]byte{'1'}, w))
			b.Write(x)
			b.Next(w)
		} else {
			b.Write(x)
		}
		total := len(x)
		return source{b, "bytes.Buffer", func() int { return total - b.Len() }, func(pieces [][]byte) {
			for _, p := range pieces {
				b.Write(p)
				total += len(p)
			}
		}}
	case 3:
		rd := bytes.NewReader(append([]byte("[7,"), x...))
		rd.Seek(3, io.SeekStart)
		return source{rd, "bytes.Reader", func() int { return len(x) - rd.Len() }, nil}
	case 4:
		rd := strings.NewReader(string(x))
		return source{rd, "strings.Reader", func() int { return len(x) - rd.Len() }, nil}
	case 5:
		br := bufio.NewReaderSize(pr, 16+r.Intn(40))
		return source{br, "bufio.Reader", func() int { return pr.delivered - br.Buffered() }, grow}
	case 6:
		lr := &io.LimitedReader{R: pr, N: int64(len(x))}
		return source{lr, "io.LimitedReader", func() int { return pr.delivered }, func(pieces [][]byte) {
			for _, p := range pieces {
				lr.N += int64(len(p))
			}
			grow(pieces)
		}}
	default:
		sr := io.NewSectionReader(strings.NewReader("[1,"+string(x)+"]"), 3, int64(len(x)))
		return source{sr, "io.SectionReader", func() int {
			k, _ := sr.Seek(0, io.SeekCurrent)
			return int(k)
		}, nil}
	}
}

func cut(x []byte, at ...int) [][]byte {
	var out [][]byte
	prev := 0
	for _, a := range at {
		out = append(out, append([]byte{}, x[prev:a]...))
		prev = a
	}
	return append(out, append([]byte{}, x[prev:]...))
}

// randPieces cuts x at random
func randPieces(r *rand.Rand, x []byte) [][]byte {
	var out [][]byte
	style := r.Intn(5)
	for len(x) > 0 {
		n := len(x)
		switch style {
		case 0:
			n = 1
		case 1:
			n = 1 + r.Intn(4)
		case 2:
			n = 1 + r.Intn(40)
		case 3:
			n = 1 + r.Intn(700)
		}
		if r.Intn(5) == 0 {
			out = append(out, nil)
		}
		if n > len(x) {
			n = len(x)
		}
		out = append(out, append([]byte{}, x[:n]...))
		x = x[n:]
	}
	return out
}

// ---------------------------------------------------------------- C03

func canon(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

// stretch makes some tokens longer than the internal buffers
func stretch(r *rand.Rand, x []byte) []byte {
	switch r.Intn(4) {
	case 0: // white space before
		n := []int{1, 60, 62, 63, 64, 65, 126, 127, 128, 130, 510, 511, 512, 513, 1025}[r.Intn(15)]
		return append(bytes.Repeat([]byte{" \n\t\r"[r.Intn(4)]}, n), x...)
	case 1: // lengthen a string
		for k := 0; k < 8; k++ {
			i := bytes.IndexByte(x[min(r.Intn(len(x)+1), len(x)):], '"')
			if i < 0 {
				continue
			}
			j := bytes.IndexByte(x, '"')
			n := []int{40, 62, 63, 64, 65, 126, 127, 128, 500, 511, 512, 513}[r.Intn(12)]
			ins := bytes.Repeat([]byte("z"), n)
			if r.Intn(2) == 0 {
				copy(ins[r.Intn(n-11):], []byte(`\ud83d\ude00`)[:12])
			}
			return append(x[:j+1:j+1], append(ins, x[j+1:]...)...)
		}
	case 2: // lengthen a number
		for i := range x {
			if x[i] >= '1' && x[i] <= '9' && r.Intn(3) == 0 {
				n := []int{10, 30, 63, 64, 65, 128, 512}[r.Intn(7)]
				return append(x[:i+1:i+1], append([]byte("."+strings.Repeat("0", n)+"7"), x[i+1:]...)...)
			}
		}
	}
	return x
}

func init() {
	profiles["chunks"] = func(c *ctx) {
		r := c.r
		var ty *Ty
		switch r.Intn(4) {
		case 0:
			ty = []*Ty{tyAny, tyRaw, tyJU, mapOf(tyString, tyRaw), sliceOf(tyAny), mapOf(tyString, tyAny)}[r.Intn(6)]
		default:
			ty = randTy(r, 1+r.Intn(3), true)
		}
		if t := placed(c.i, 2); t != nil {
			ty = t
		}
		g := &docGen{r: r, ws: []int{0, 3, 6}[r.Intn(3)], bad: []int{0, 0, 25}[r.Intn(3)]}
		x := g.doc(ty, 3)
		if r.Intn(3) == 0 {
			x = stretch(r, x)
		}
		if r.Intn(5) == 0 {
			x = mutate(r, x)
		}
		cfg := randCfg(r)
		fillPrior := r.Intn(4) == 0
		fillSeed := r.Int63()
		ix := typeIndex{}
		ty.index(ix)
		d := newDefTab()
		tyE := ty.emit(d)
		one := func(f func(dst interface{}) error) (string, interface{}, string, interface{}) {
			dst := reflect.New(ty.rt)
			if fillPrior {
				fill(dst.Elem(), ty, rand.New(rand.NewSource(fillSeed)), 3, nil)
			}
			prior := project(dst.Elem(), ty, ix, d)
			out, err := guard(func() error { return f(dst.Interface()) })
			msg := ""
			if err != nil {
				msg = firstLine(err.Error())
			}
			var v interface{} = M{"k": "opq"}
			if out == "ok" {
				v = project(dst.Elem(), ty, ix, d)
			}
			return out, v, msg, prior
		}
		rec := func(out string, v interface{}, mode, msg string, prior interface{}) M {
			return M{"kind": "dec", "x": B(x), "ty": tyE, "prior": prior, "out": out, "mode": mode,
				"cs": cfg.cs, "duf": cfg.duf, "un": cfg.un, "only": cfg.only, "fl": floatTable(x), "msg": msg, "val": v}
		}
		bo, bv, bm, prior := one(func(dst interface{}) error { return cfg.cfg().Unmarshal(append([]byte{}, x...), dst) })
		base := rec(bo, bv, "bytes", bm, prior)
		base["defs"] = d.emit()
		if len(x) < 900 {
			c.emit(base)
		}
		bc := canon(bv)
		from := func(pr io.Reader, how string) {
			c.count("checks")
			o, v, m, _ := one(func(dst interface{}) error {
				if r.Intn(6) == 0 { // on one iterator
					it := cfg.cfg().NewIterator()
					defer it.Release()
					return it.UnmarshalFromReader(pr, dst)
				}
				return cfg.cfg().UnmarshalFromReader(pr, dst)
			})
			if o != bo || canon(v) != bc {
				c.bad("text %q into %v cut %s: from the reader %s %s (%s), from bytes %s %s (%s)", clip(x), ty.rt, how, o, clip([]byte(canon(v))), m, bo, clip([]byte(bc)), bm)
				rr := rec(o, v, "reader "+how, m, prior)
				rr["defs"] = d.emit()
				if len(x) < 900 {
					c.emit(rr)
				}
			}
		}
		check := func(pieces [][]byte, endWith bool, how string) {
			from(&pieceReader{pieces: pieces, end: io.EOF, endWith: endWith}, how)
		}
		for n := 0; n < 4; n++ {
			src := newSource(r, x)
			from(src.Reader, "by a "+src.name)
		}
		step := 1
		if len(x) > 250 {
			step = 1 + len(x)/250
		}
		for k := 1; k < len(x); k += step {
			check(cut(x, k), r.Intn(2) == 0, fmt.Sprint(k))
		}
		for n := 0; n < 12; n++ {
			check(randPieces(r, x), r.Intn(2) == 0, "randomly")
		}
		one1 := make([][]byte, 0, len(x))
		for i := range x {
			one1 = append(one1, []byte{x[i]})
		}
		check(one1, false, "into bytes")
		if len(x) >= 3 {
			for n := 0; n < 20; n++ {
				a, b := 1+r.Intn(len(x)-1), 1+r.Intn(len(x)-1)
				if a > b {
					a, b = b, a
				}
				check([][]byte{append([]byte{}, x[:a]...), nil, append([]byte{}, x[a:b]...), append([]byte{}, x[b:]...)}, r.Intn(2) == 0, fmt.Sprint(a, b))
			}
		}
	}
	// skipping and capturing from a reader: the same extents
	profiles["chunkraw"] = func(c *ctx) {
		r := c.r
		g := &docGen{r: r, ws: []int{0, 3}[r.Intn(2)]}
		x := g.sp(g.any(g.sp(nil), 3))
		if r.Intn(2) == 0 {
			x = stretch(r, x)
		}
		y := append(append([]byte{}, x...), []string{"", " ", " 1", "[]", " \"q\""}[r.Intn(5)]...)
		if r.Intn(6) == 0 {
			y = mutate(r, y)
		}
		b, e, st := firstValue(y)
		for k := 0; k < len(y); k += 1 + len(y)/150 {
			for _, op := range []string{"raw", "skip", "readraw", "read"} {
				c.count("checks")
				pr := &pieceReader{pieces: cut(y, k), end: io.EOF, endWith: r.Intn(2) == 0}
				if r.Intn(3) == 0 {
					pr.pieces = randPieces(r, y)
				}
				src := source{pr, "piece reader", func() int { return pr.delivered }, nil}
				if r.Intn(6) == 0 {
					src = newSource(r, y)
				}
				it := decCfgs[decCfg{un: true}].NewIterator()
				it.Reset(src.Reader)
				var got []byte
				out, err := guard(func() (err error) {
					switch op {
					case "raw":
						got, err = it.SkipRaw()
						got = append([]byte{}, got...)
					case "readraw":
						got, err = it.ReadRaw()
					case "skip":
						err = it.Skip()
					case "read":
						_, err = it.Read()
					}
					return err
				})
				if (out == "ok") != (st == "ok") {
					c.bad("%s of %q cut at %d: %s (%v), the first value is %s", op, clip(y), k, out, err, st)
				} else if out == "ok" {
					pos := src.delivered() - len(it.Buffer())
					if b, ok := src.Reader.(*bytes.Buffer); ok && b.Len() == len(y) { // an iterator need not consume it
						pos = len(y) - len(it.Buffer())
					}
					if pos != e {
						c.bad("%s of %q cut at %d (%s): ends at %d, the value ends at %d", op, clip(y), k, src.name, pos, e)
					}
					if got != nil && !bytes.Equal(got, y[b:e]) {
						c.bad("%s of %q cut at %d: captured %q, the value is %q", op, clip(y), k, clip(got), clip(y[b:e]))
					}
				}
				it.Release()
			}
		}
	}
}

func clip(x []byte) []byte {
	if len(x) > 260 {
		return append(append(append([]byte{}, x[:120]...), "....."...), x[len(x)-120:]...)
	}
	return x
}

// ---------------------------------------------------------------- C04

var errFault = errors.New("FAULT: the reader failed")

// failures of a reader: whatever it is, it is not the end of the stream
var faultErrs = []error{errFault, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe, io.ErrShortBuffer, context.DeadlineExceeded, context.Canceled,
	os.ErrDeadlineExceeded, os.ErrClosed, &os.PathError{Op: "read", Path: "f", Err: syscall.EIO}, valueErr{3},
	fmt.Errorf("FAULT: connection reset after %w", io.EOF), errors.New("EOF")}

// valueErr is an error which is not a pointer
type valueErr struct{ n int }

func (valueErr) Error() string { return "FAULT: a value" }

func isFault(err, want error) bool {
	return err != nil && err != io.EOF && (err == want || strings.HasPrefix(err.Error(), want.Error()))
}

func init() {
	profiles["faults"] = func(c *ctx) {
		r := c.r
		ty := randTy(r, 2, true)
		g := &docGen{r: r, ws: []int{0, 4}[r.Intn(2)]}
		var x []byte
		typed := r.Intn(2) == 0
		if t := placed(c.i, 4); t != nil {
			ty, typed = t, true
		}
		if typed {
			x = g.doc(ty, 2)
			dst := reflect.New(ty.rt)
			if jzon.Unmarshal(x, dst.Interface()) != nil || !accepts(x) {
				typed = false
			}
		} else {
			x = g.sp(g.any(g.sp(nil), 3))
		}
		if r.Intn(4) == 0 {
			x = stretch(r, x)
			typed = false
		}
		if !typed && r.Intn(5) == 0 {
			x = mutate(r, x)
		}
		if !typed && r.Intn(4) == 0 {
			x = append(x, " 12 "...)
		}
		stepK := 1 + len(x)/300
		for k := 0; k <= len(x); k += stepK {
			p := x[:k]
			for _, op := range []string{"unmarshal", "rawunm", "skip", "raw", "read", "decode", "iterunm", "typed", "readval"} {
				whole := op == "unmarshal" || op == "rawunm" || op == "iterunm" || op == "typed"
				if (op == "typed" || op == "readval") && !typed {
					continue
				}
				t := 0
				var pieces [][]byte
				if r.Intn(3) == 0 && k > 0 {
					pieces = randPieces(r, p)
				} else if k > 0 {
					pieces = [][]byte{append([]byte{}, p...)}
				}
				endWith := len(pieces) > 0 && r.Intn(3) == 0
				if endWith {
					t = len(pieces[len(pieces)-1])
				}
				want := faultErrs[r.Intn(len(faultErrs))]
				pr := &pieceReader{pieces: pieces, end: want, endWith: endWith, once: r.Intn(2) == 0}
				out, err := guard(func() error {
					cfg := decCfgs[decCfg{un: true}]
					it := cfg.NewIterator()
					defer it.Release()
					var o interface{}
					var raw json.RawMessage
					switch op {
					case "unmarshal":
						return cfg.UnmarshalFromReader(pr, &o)
					case "rawunm":
						return cfg.UnmarshalFromReader(pr, &raw)
					case "iterunm":
						return it.UnmarshalFromReader(pr, &o)
					case "skip":
						it.Reset(pr)
						return it.Skip()
					case "raw":
						it.Reset(pr)
						_, err := it.SkipRaw()
						return err
					case "read":
						it.Reset(pr)
						_, err := it.Read()
						return err
					case "decode":
						d := cfg.NewDecoder(pr)
						defer d.Release()
						if r.Intn(3) == 0 && !pr.once {
							d.More()
						}
						return d.Decode(&o)
					case "typed":
						return jzon.UnmarshalFromReader(pr, reflect.New(ty.rt).Interface())
					case "readval":
						it.Reset(pr)
						return it.ReadVal(reflect.New(ty.rt).Interface())
					}
					return nil
				})
				c.count("checks")
				if out == "err" && isFault(err, want) {
					out = "fault"
				}
				if out == "err" && err == io.EOF {
					out = "eof"
				}
				allowed := faultAllowed(p, whole)
				ok := allowed[out] || (t > 0 && (out == "fault" || faultAllowed(p[:k-t], whole)[out]))
				if !ok {
					c.bad("%s (%v): the reader delivered %q (%d bytes with the failure) and failed with %v: got %s (%v), allowed %v", op, ty.rt, clip(p), t, want, out, err, allowed)
				}
				if r.Intn(40) == 0 && len(p) < 300 && out != "eof" && out != "panic" && op != "typed" && op != "readval" {
					c.emit(M{"kind": "fault", "x": B(p), "t": t, "whole": whole, "out": out, "op": op})
				}
			}
		}
	}
	// typed reads of the iterator under failures
	profiles["faultsteps"] = func(c *ctx) {
		r := c.r
		texts := []string{"true", "false", "null", `"a\u00e9b\n"`, `"` + strings.Repeat("s", 70) + `"`, "12", "-7", "0", "-0", "3.25", "1e5", "-1.5E-3",
			"[ ]", "[1", `{"a" :`, "{ }", "100", "0.5", "2e0", "127", "65535"}
		x := []byte(texts[c.i%len(texts)])
		for k := 0; k <= len(x); k++ {
			for _, op := range stepOps {
				if op == "val" || op == "am" || op == "om" {
					continue
				}
				for _, withData := range []bool{false, true} {
					p := append([]byte{}, x[:k]...)
					pieces := [][]byte{}
					if r.Intn(2) == 0 {
						for _, b := range p {
							pieces = append(pieces, []byte{b})
						}
					} else if k > 0 {
						pieces = append(pieces, p)
					}
					want := faultErrs[r.Intn(len(faultErrs))]
					pr := &pieceReader{pieces: pieces, end: want, endWith: withData && len(pieces) > 0, once: r.Intn(2) == 0}
					it := jzon.NewIterator()
					it.Reset(pr)
					var err error
					out, gerr := guard(func() error { _, err = doStep(it, op, nil, nil); return err })
					it.Release()
					c.count("checks")
					if out == "panic" {
						c.bad("%s on %q: panic %v", op, p, gerr)
						continue
					}
					// the same step on the whole text and on the text cut short
					_, full := stepBytes(op, x)
					_, short := stepBytes(op, p)
					switch {
					case err == nil:
						// only if the value is complete without the rest
						b, e, st := firstValue(p)
						_ = b
						complete := short == nil && st == "ok" && (e < k || !isNumStart(p))
						if op == "ab" || op == "ob" || op == "nvt" {
							complete = short == nil
						}
						if !complete {
							c.bad("%s: the reader delivered %q and failed, but the step succeeded", op, p)
						}
					case isFault(err, want):
					case err == io.EOF:
						c.bad("%s: the reader delivered %q and failed, but the step reports the end of the stream", op, p)
					default: // another error: only if it is there anyway
						if full == nil && op != "nvt" {
							c.bad("%s: the reader delivered %q and failed, but the step reports %v", op, p, err)
						}
					}
				}
			}
		}
	}
}

func isNumStart(p []byte) bool {
	p = trimWS(p)
	return len(p) > 0 && (p[0] == '-' || p[0] >= '0' && p[0] <= '9')
}

func stepBytes(op string, x []byte) (interface{}, error) {
	it := jzon.NewIterator()
	defer it.Release()
	it.ResetBytes(x)
	return doStep(it, op, nil, nil)
}

func faultAllowed(p []byte, whole bool) map[string]bool {
	alive := true
	m := pda{c: pdaVal}
	for _, b := range p {
		m.step(b)
		if m.c == pdaErr {
			alive = false
			break
		}
	}
	if !whole {
		_, e, st := firstValue(p)
		if st == "ok" && (e < len(p) || !isNumStart(p)) {
			return map[string]bool{"ok": true}
		}
	}
	if !alive {
		return map[string]bool{"err": true}
	}
	return map[string]bool{"fault": true}
}

// ---------------------------------------------------------------- C11, C12

var stepOps = []string{"nvt", "bool", "null", "str", "strs", "stra", "num", "i8", "i16", "i32", "i64", "int", "u8", "u16", "u32", "u64", "uint",
	"f32", "f64", "skip", "skipstr", "skipnum", "skiparr", "skipobj", "raw", "readraw", "appraw", "read", "val", "ab", "am", "ob", "om", "acb", "ocb"}

var vtNames = map[jzon.ValueType]string{jzon.StringValue: "string", jzon.NumberValue: "number", jzon.NullValue: "null",
	jzon.BoolValue: "bool", jzon.ArrayValue: "array", jzon.ObjectValue: "object"}

// doStep performs one step and returns its abstract result
func doStep(it *jzon.Iterator, op string, arg []byte, dst interface{}) (interface{}, error) {
	unit := M{"k": "nil"}
	vi := func(s string) interface{} { return vInt(s) }
	switch op {
	case "nvt":
		t, err := it.NextValueType()
		n := vtNames[t]
		if n == "" {
			n = "invalid"
		}
		return M{"k": "vt", "vt": n}, err
	case "bool":
		b, err := it.ReadBool()
		return M{"k": "bool", "b": b}, err
	case "null":
		return unit, it.ReadNull()
	case "str":
		s, err := it.ReadString()
		return M{"k": "str", "s": B(s)}, err
	case "strs":
		s, err := it.ReadStringAsSlice()
		return M{"k": "str", "s": B(append([]byte{}, s...))}, err
	case "stra":
		s, err := it.ReadStringAndAppend(append([]byte{}, arg...))
		return M{"k": "str", "s": B(s)}, err
	case "num":
		n, err := it.ReadNumber()
		return M{"k": "num", "t": B(n)}, err
	case "i8":
		v, err := it.ReadInt8()
		return vi(strconv.FormatInt(int64(v), 10)), err
	case "i16":
		v, err := it.ReadInt16()
		return vi(strconv.FormatInt(int64(v), 10)), err
	case "i32":
		v, err := it.ReadInt32()
		return vi(strconv.FormatInt(int64(v), 10)), err
	case "i64":
		v, err := it.ReadInt64()
		return vi(strconv.FormatInt(v, 10)), err
	case "int":
		v, err := it.ReadInt()
		return vi(strconv.FormatInt(int64(v), 10)), err
	case "u8":
		v, err := it.ReadUint8()
		return vi(strconv.FormatUint(uint64(v), 10)), err
	case "u16":
		v, err := it.ReadUint16()
		return vi(strconv.FormatUint(uint64(v), 10)), err
	case "u32":
		v, err := it.ReadUint32()
		return vi(strconv.FormatUint(uint64(v), 10)), err
	case "u64":
		v, err := it.ReadUint64()
		return vi(strconv.FormatUint(v, 10)), err
	case "uint":
		v, err := it.ReadUint()
		return vi(strconv.FormatUint(uint64(v), 10)), err
	case "f32":
		v, err := it.ReadFloat32()
		return M{"k": "flt", "x": bits(float64(v), 32)}, err
	case "f64":
		v, err := it.ReadFloat64()
		return M{"k": "flt", "x": bits(v, 64)}, err
	case "skip":
		return unit, it.Skip()
	case "skipstr":
		return unit, it.SkipString()
	case "skipnum":
		return unit, it.SkipNumber()
	case "skiparr":
		return unit, it.SkipArray()
	case "skipobj":
		return unit, it.SkipObject()
	case "raw":
		b, err := it.SkipRaw()
		return M{"k": "raw", "r": B(append([]byte{}, b...))}, err
	case "readraw":
		b, err := it.ReadRaw()
		return M{"k": "raw", "r": B(b)}, err
	case "appraw":
		b, err := it.AppendRaw(append([]byte{}, arg...))
		return M{"k": "raw", "r": B(b)}, err
	case "read":
		o, err := it.Read()
		if err != nil {
			return unit, err
		}
		return projectAny(reflect.ValueOf(&o).Elem(), nil, nil), nil
	case "val":
		return nil, it.ReadVal(dst)
	case "ab":
		b, err := it.ReadArrayBegin()
		return M{"k": "bool", "b": b}, err
	case "am":
		b, err := it.ReadArrayMore()
		return M{"k": "bool", "b": b}, err
	case "acb":
		l := []interface{}{}
		err := it.ReadArrayCB(func(it *jzon.Iterator) error {
			b, err := it.ReadRaw()
			l = append(l, B(b))
			return err
		})
		return M{"k": "caps", "l": l}, err
	case "ocb":
		l := []interface{}{}
		err := it.ReadObjectCB(func(it *jzon.Iterator, field string) error {
			b, err := it.SkipRaw()
			l = append(l, M{"n": B(field), "r": B(append([]byte{}, b...))})
			return err
		})
		return M{"k": "capm", "l": l}, err
	case "ob":
		b, s, err := it.ReadObjectBegin()
		return M{"k": "fld", "more": b, "name": B(s)}, err
	case "om":
		b, s, err := it.ReadObjectMore()
		return M{"k": "fld", "more": b, "name": B(s)}, err
	}
	panic(harnessError(op))
}

// stepRun is a running step sequence
type stepRun struct {
	c    *ctx
	it   *jzon.Iterator
	x    []byte
	pr   *pieceReader // nil: from bytes
	evs  []interface{}
	d    *defTab
	dead bool
	// only the steps which look inside
	plain bool
	long  bool // many steps
}

func (s *stepRun) full(n int) bool {
	if s.long {
		n += 200
	}
	return len(s.evs) > n
}

func (s *stepRun) pos() int {
	if s.pr == nil {
		return len(s.x) - len(s.it.Buffer()) + 1
	}
	return s.pr.delivered - len(s.it.Buffer()) + 1
}

func (s *stepRun) do(op string) (interface{}, bool) {
	if s.dead {
		return nil, false
	}
	r := s.c.r
	ev := M{"op": op}
	if op == "strs" {
		ev["op"] = "str"
	}
	var arg []byte
	if op == "stra" || op == "appraw" {
		arg = []byte(randGoString(r))
		ev["arg"] = B(arg)
	}
	var dst reflect.Value
	var ty *Ty
	if op == "val" {
		ty = []*Ty{tyInt, tyString, tyAny, tyFloat64, tyBool, tyRaw, sliceOf(tyAny), mapOf(tyString, tyAny), ptrTo(tyInt), tyJU, fixedTys[len(fixedTys)-3]}[r.Intn(11)]
		dst = reflect.New(ty.rt)
		ev["ty"] = ty.emit(s.d)
		ev["prior"] = project(dst.Elem(), ty, nil, s.d)
	}
	var res interface{}
	out, err := guard(func() (err error) {
		var o interface{}
		if ty != nil {
			o = dst.Interface()
		}
		res, err = doStep(s.it, op, arg, o)
		return err
	})
	if out == "err" && err == io.EOF {
		out = "eof"
	}
	ev["out"] = out
	ev["pos"] = 0
	if out == "ok" {
		if ty != nil {
			res = project(dst.Elem(), ty, nil, s.d)
		}
		ev["pos"] = s.pos()
	} else {
		res = M{"k": "opq"}
		s.dead = true
	}
	ev["res"] = res
	s.evs = append(s.evs, ev)
	return res, out == "ok"
}

// walk one value: choose a matching step, or look inside
func (s *stepRun) walk(depth int) {
	if s.dead || s.full(40) {
		return
	}
	r := s.c.r
	if !s.plain && r.Intn(25) == 0 { // any step
		s.do(stepOps[r.Intn(len(stepOps))])
		return
	}
	v, ok := s.do("nvt")
	if !ok {
		return
	}
	pick := func(l ...string) { s.do(l[r.Intn(len(l))]) }
	gen := []string{"skip", "raw", "readraw", "appraw", "read", "val"}
	if !s.plain && r.Intn(5) == 0 {
		pick(gen...)
		return
	}
	switch v.(M)["vt"] {
	case "string":
		pick("str", "strs", "stra", "skipstr", "str")
	case "number":
		pick("num", "f64", "f32", "i64", "int", "u64", "skipnum", "f64", "num", stepOps[7+r.Intn(10)])
	case "bool":
		pick("bool")
	case "null":
		pick("null")
	case "array":
		if depth <= 0 || r.Intn(4) == 0 && (!s.plain || r.Intn(2) == 0) {
			pick("skiparr", "raw", "read", "skip", "acb", "acb")
			return
		}
		more, ok := s.do("ab")
		for ok && more.(M)["b"].(bool) && !s.dead {
			s.walk(depth - 1)
			more, ok = s.do("am")
			if s.full(60) {
				return
			}
		}
	case "object":
		if depth <= 0 || r.Intn(4) == 0 && (!s.plain || r.Intn(2) == 0) {
			pick("skipobj", "raw", "read", "skip", "ocb", "ocb")
			return
		}
		more, ok := s.do("ob")
		for ok && more.(M)["more"].(bool) && !s.dead {
			s.walk(depth - 1)
			more, ok = s.do("om")
			if s.full(60) {
				return
			}
		}
	default:
		s.do(stepOps[r.Intn(len(stepOps))])
	}
}

var walkTokens = []string{"[", "]", "{", "}", ",", ":", `"a"`, "1", " "}

var walkCache []string
var walkLast []string // viable sequences of the greatest length so far
var walkMu sync.Mutex

// walkText is the i-th text: token sequences with viable prefixes, shorter
// ones first
func walkText(i int) string {
	walkMu.Lock()
	defer walkMu.Unlock()
	if walkCache == nil {
		walkLast = []string{""}
	}
	for len(walkCache) <= i {
		var next []string
		for _, p := range walkLast {
			for _, t := range walkTokens {
				if t == " " && strings.HasSuffix(p, " ") || t == "1" && strings.HasSuffix(p, "1") {
					continue
				}
				y := p + t
				walkCache = append(walkCache, y)
				m := pda{c: pdaVal}
				for _, b := range []byte(y) {
					m.step(b)
				}
				if m.c != pdaErr {
					next = append(next, y)
				}
			}
		}
		walkLast = next
	}
	return walkCache[i]
}

func newStepRun(c *ctx, x []byte, un bool) *stepRun {
	s := &stepRun{c: c, x: x, d: newDefTab()}
	s.it = decCfgs[decCfg{un: un}].NewIterator()
	if c.r.Intn(3) == 0 {
		s.it.ResetBytes(append([]byte{}, x...))
	} else {
		s.pr = &pieceReader{pieces: randPieces(c.r, x), end: io.EOF, endWith: c.r.Intn(2) == 0}
		s.it.Reset(s.pr)
	}
	return s
}

func (s *stepRun) emit(un bool) {
	s.it.Release()
	s.c.emit(M{"kind": "iter", "x": B(s.x), "evs": s.evs, "un": un, "cs": false, "duf": false, "only": false,
		"fl": floatTable(s.x), "defs": s.d.emit()})
	s.c.countN("steps", len(s.evs))
}

func init() {
	profiles["iter"] = func(c *ctx) {
		r := c.r
		g := &docGen{r: r, ws: []int{0, 2, 5}[r.Intn(3)]}
		var x []byte
		long := r.Intn(40) == 0
		for n := 1 + r.Intn(3) + map[bool]int{true: 8 + r.Intn(20)}[long]; n > 0; n-- {
			x = g.any(g.sp(x), 1+r.Intn(3))
			if r.Intn(6) != 0 {
				x = append(x, ' ')
			}
		}
		if len(x) < 400 && r.Intn(4) == 0 {
			x = stretch(r, x)
		}
		if r.Intn(6) == 0 {
			x = mutate(r, x)
		}
		if len(x) > 800 && !long {
			x = x[:800]
		} else if len(x) > 3000 {
			x = x[:3000]
		}
		un := r.Intn(2) == 0
		s := newStepRun(c, x, un)
		s.long = long
		for n := 0; (n < 6 || long && n < 40) && !s.dead; n++ {
			s.walk(4)
		}
		s.emit(un)
	}
	// every viable sequence of tokens, and one token more, walked
	profiles["iterwalk"] = func(c *ctx) {
		x := []byte(walkText(c.i))
		un := c.r.Intn(2) == 0
		s := newStepRun(c, x, un)
		s.plain = true
		for n := 0; n < 3 && !s.dead; n++ {
			s.walk(8)
		}
		s.emit(un)
	}
	// every step at every short text
	profiles["itershort"] = func(c *ctx) {
		r := c.r
		base := []string{"true", "false", "null", `""`, `"a"`, `"\u0041"`, "0", "-0", "12", "-3", "1.5", "1e2", "255", "256", "300", "-128", "-129", "65536", "4294967296",
			"18446744073709551616", "[]", "[ ]", "[1]", "{}", `{"a":1}`, `{ "a" : 1 }`, ",", ":", "]", "}", `,"k":1`, ", 1", "tru", "nul", "fals", "-", "1.", "1e", `"a`, `"\u00`, "\"\n\"", `"\x"`,
			"x", "\x00", "+1", ".5", "1e400", "[", "{", `{"a"`, `{"a":`, `{1:2}`, "[1,", `{"a":1,`, "[,1]", "nullx", "truefalse", "1 2", "12a", "-a", "--1", "00", "01", "1e+", "1e+5x", `"a"b`, "\xef\xbb\xbf1", `"\ud800"`, `"\ud83d\ude00"`}
		x := []byte(base[c.i%len(base)])
		x = append([]byte([]string{"", " ", "\n\t"}[c.i/len(base)%3]), x...)
		x = append(x, []string{"", " ", ",", "]", "x"}[c.i/len(base)/3%5]...)
		for _, op := range stepOps {
			s := newStepRun(c, x, r.Intn(2) == 0)
			un := r.Intn(2) == 0
			s.it.Release()
			s = newStepRun(c, x, un)
			if _, ok := s.do(op); ok {
				s.do("nvt")
			}
			s.emit(un)
		}
	}
	profiles["extents"] = func(c *ctx) {
		r := c.r
		g := &docGen{r: r, ws: []int{0, 2, 5}[r.Intn(3)]}
		var x []byte
		for n := 1 + r.Intn(5); n > 0; n-- {
			x = g.any(g.sp(x), 1+r.Intn(3))
			if r.Intn(3) != 0 || x[len(x)-1] >= '0' && x[len(x)-1] <= '9' {
				x = append(x, ' ')
			}
		}
		if r.Intn(4) == 0 {
			x = stretch(r, x)
		}
		if r.Intn(8) == 0 {
			x = mutate(r, x)
		}
		if len(x) > 900 {
			x = x[:900]
		}
		s := newStepRun(c, x, false)
		for !s.dead && len(s.evs) < 12 {
			s.do([]string{"raw", "skip", "readraw", "appraw", "raw"}[r.Intn(5)])
		}
		s.emit(false)
	}
}

// ---------------------------------------------------------------- C13

func init() {
	profiles["session"] = func(c *ctx) {
		r := c.r
		g := &docGen{r: r, ws: []int{0, 2, 5}[r.Intn(3)]}
		tys := make([]*Ty, 1+r.Intn(4))
		for i := range tys {
			tys[i] = randTy(r, 2, true)
			if r.Intn(3) == 0 {
				tys[i] = tyAny
			}
		}
		var x []byte
		plan := []*Ty{}
		long := r.Intn(80) == 0 // many values, longer than the buffers
		for n := r.Intn(6) + map[bool]int{true: 60 + r.Intn(100)}[long]; n > 0; n-- {
			t := tys[r.Intn(len(tys))]
			if long && r.Intn(20) != 0 {
				t = tyAny
			}
			plan = append(plan, t)
			x = g.val(g.sp(x), t, 2, false)
			if r.Intn(8) != 0 {
				x = append(x, " \n\t\r"[r.Intn(4)])
			}
		}
		x = g.sp(x)
		if len(x) > 0 && r.Intn(5) == 0 {
			x = stretch(r, x)
		}
		if r.Intn(7) == 0 && !long {
			x = mutate(r, x)
		}
		if len(x) > 1000 && !long {
			x = x[:1000]
		} else if len(x) > 6000 {
			x = x[:6000]
		}
		cfg := randCfg(r)
		cfg.cs = false
		// a growing stream: the end of the stream is not the end of the text yet
		stages := [][]byte{x}
		if r.Intn(4) == 0 && len(x) > 1 && len(x) < 2000 {
			a := r.Intn(len(x))
			stages = cut(x, a)
			if r.Intn(2) == 0 {
				stages = cut(x, a, a+r.Intn(len(x)-a))
			}
		}
		full, seen, stage := x, append([]byte{}, stages[0]...), 1
		pr := &pieceReader{pieces: randPieces(r, stages[0]), end: io.EOF, endWith: r.Intn(2) == 0}
		src := source{pr, "piece reader", func() int { return pr.delivered }, func(pieces [][]byte) { pr.pieces = append(pr.pieces, pieces...) }}
		if r.Intn(4) == 0 {
			for src = newSource(r, stages[0]); len(stages) > 1 && src.grow == nil; {
				src = newSource(r, stages[0])
			}
		}
		c.count("source " + src.name)
		dec := cfg.cfg().NewDecoder(src.Reader)
		d := newDefTab()
		ix := typeIndex{}
		evs := []interface{}{}
		var firstErr error
		observe := func(ev M) {
			b, _ := io.ReadAll(dec.Buffered())
			ev["off"] = dec.InputOffset()
			ev["buf"] = B(b)
			ev["del"] = src.delivered()
		}
		k := 0
		panicked := ""
		for n := len(plan)*2 + 3; n > 0; n-- {
			ev := M{"res": M{"k": "opq"}, "out": "ok", "same": true, "ty": M{"t": "bool"}, "prior": M{"k": "opq"}}
			switch r.Intn(6) {
			case 0:
				if r.Intn(4) == 0 {
					ev["op"] = "usenum"
					dec.UseNumber()
				} else if r.Intn(4) == 0 {
					ev["op"] = "duf"
					dec.DisallowUnknownFields()
				} else {
					ev["op"] = "look"
				}
			case 1:
				ev["op"] = "more"
				more := dec.More()
				ev["res"] = M{"k": "bool", "b": more}
				if !more && stage < len(stages) {
					observe(ev)
					evs = append(evs, ev)
					seen = append(seen, stages[stage]...)
					src.grow(randPieces(r, stages[stage]))
					stage++
					n += 2
					ev = M{"res": M{"k": "opq"}, "out": "ok", "same": true, "ty": M{"t": "bool"}, "prior": M{"k": "opq"}, "op": "grow", "x": B(append([]byte{}, seen...))}
				}
			default:
				if stage < len(stages) && r.Intn(2) == 0 { // rather ask
					n++
					continue
				}
				ev["op"] = "decode"
				ty := tyAny
				if k < len(plan) {
					ty = plan[k]
				}
				if r.Intn(20) == 0 {
					ty = tyRaw
				}
				k++
				dst := reflect.New(ty.rt)
				if r.Intn(4) == 0 {
					fill(dst.Elem(), ty, r, 2, nil)
				}
				ty.index(ix)
				ev["ty"] = ty.emit(d)
				ev["prior"] = project(dst.Elem(), ty, ix, d)
				out, err := guard(func() error { return dec.Decode(dst.Interface()) })
				if out == "panic" {
					panicked = err.Error()
				}
				if out == "ok" {
					ev["res"] = project(dst.Elem(), ty, ix, d)
				}
				if out == "err" && err == io.EOF {
					out = "eof"
				}
				if firstErr == nil {
					firstErr = err
				} else if err != nil {
					ev["same"] = err == firstErr || err.Error() == firstErr.Error()
				}
				ev["out"] = out
			}
			observe(ev)
			evs = append(evs, ev)
			if panicked != "" {
				c.bad("session on %q: panic %s", clip(x), panicked)
				return
			}
		}
		dec.Release()
		c.countN("events", len(evs))
		fl := append([]byte{}, full...)
		for i := range stages {
			for j := i + 1; j <= len(stages); j++ {
				fl = append(append(fl, ' '), bytes.Join(stages[i:j], nil)...)
			}
		}
		if len(stages) == 1 {
			fl = full
		}
		c.emit(M{"kind": "sess", "x": B(append([]byte{}, stages[0]...)), "evs": evs, "cs": cfg.cs, "duf": cfg.duf, "un": cfg.un, "only": false,
			"fl": floatTable(fl), "defs": d.emit()})
	}
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"reflect"
	"runtime/debug"
	"sync"

	"github.com/zerosnake0/jzon"
)

// C25: interfaces which point to each other, and deeply nested texts.

// NamedAny is an interface{} under another name
type NamedAny interface{}

var rtNamedAny = reflect.TypeOf((*NamedAny)(nil)).Elem()

// chain: n interfaces in a row; the last one points back to interface b
// (1-based), or, with b = 0, holds a leaf.
type chain struct {
	nodes []reflect.Value // interface{} variables
	holds []*Ty           // what node i points to, when it points to the next node
	back  int
	leaf  *Ty // the pointed type of the last node; nil: leafVal
	lv    interface{}
}

// level: the type of a pointer chain ending in an interface
func levelTy(n int) *Ty {
	t := tyAny
	for ; n > 0; n-- {
		t = ptrTo(t)
	}
	return t
}

func buildChain(r *rand.Rand, n, b int, first reflect.Value) *chain {
	c := &chain{back: b}
	for i := 0; i < n; i++ {
		if i == 0 {
			c.nodes = append(c.nodes, first)
		} else if r.Intn(6) == 0 {
			c.nodes = append(c.nodes, reflect.New(rtNamedAny).Elem())
		} else {
			c.nodes = append(c.nodes, reflect.New(rtAny).Elem())
		}
	}
	link := func(i, j int) { // node i points to node j, through a few pointers
		lv := 0
		if r.Intn(5) == 0 {
			lv = 1 + r.Intn(2)
		}
		p := c.nodes[j].Addr()
		for k := 0; k < lv; k++ {
			q := reflect.New(p.Type())
			q.Elem().Set(p)
			p = q
		}
		c.nodes[i].Set(p)
		c.holds = append(c.holds, levelTy(lv))
	}
	for i := 0; i+1 < n; i++ {
		link(i, i+1)
	}
	if b > 0 {
		link(n-1, b-1)
		return c
	}
	switch r.Intn(6) {
	case 0:
	case 1:
		c.lv = 1.5
		c.nodes[n-1].Set(reflect.ValueOf(1.5))
	case 2:
		c.lv = "x"
		c.nodes[n-1].Set(reflect.ValueOf("x"))
	default:
		ts := []*Ty{tyInt, tyString, sliceOf(tyInt), mapOf(tyString, tyAny), tyRaw, structOf([]Fld{{GN: "A", Exp: true, Tagged: true, TN: "a", Ty: tyInt}})}
		c.leaf = ts[r.Intn(len(ts))]
		p := reflect.New(c.leaf.rt)
		if r.Intn(2) == 0 {
			fill(p.Elem(), c.leaf, r, 2, nil)
		}
		c.nodes[n-1].Set(p)
	}
	return c
}

// abs: the abstract value of node i
func (c *chain) abs(i int, ix typeIndex, d *defTab) M {
	if i == len(c.nodes)-1 && c.back == 0 {
		if c.leaf == nil {
			return projectAny(c.nodes[i], ix, d).(M)
		}
		return M{"k": "aptr", "at": c.leaf.emit(d), "ap": project(c.nodes[i].Elem().Elem(), c.leaf, ix, d)}
	}
	if c.back > 0 && i+1 >= c.back {
		return M{"k": "loop", "at": c.holds[i].emit(d)}
	}
	var ap interface{} = c.abs(i+1, ix, d)
	for t := c.holds[i]; t.T == "ptr"; t = t.E {
		ap = M{"k": "ptr", "p": ap}
	}
	return M{"k": "aptr", "at": c.holds[i].emit(d), "ap": ap}
}

// after: what node i holds after decoding.  The decoder only goes on below
// node i if that still points where it did.
func (c *chain) after(i int, before reflect.Value, ix typeIndex, d *defTab) interface{} {
	v := c.nodes[i]
	if i == len(c.nodes)-1 && c.back == 0 {
		if c.leaf != nil && !v.IsNil() && v.Elem().Kind() == reflect.Ptr && v.Elem().Type().Elem() == c.leaf.rt {
			return M{"k": "aptr", "at": c.leaf.emit(d), "ap": project(v.Elem().Elem(), c.leaf, ix, d)}
		}
		return projectAny(v, ix, d)
	}
	if v.IsNil() || v.Elem().Kind() != reflect.Ptr {
		return projectAny(v, ix, d)
	}
	var wrap func(p reflect.Value, t *Ty) interface{}
	wrap = func(p reflect.Value, t *Ty) interface{} { // p: pointer to a t
		if t.T == "any" {
			if i+1 < len(c.nodes) && p.Pointer() == c.nodes[i+1].Addr().Pointer() {
				return c.after(i+1, before, ix, d)
			}
			return M{"k": "opq"}
		}
		if p.Elem().IsNil() {
			return M{"k": "nil"}
		}
		return M{"k": "ptr", "p": wrap(p.Elem(), t.E)}
	}
	return M{"k": "aptr", "at": c.holds[i].emit(d), "ap": wrap(v.Elem(), c.holds[i])}
}

func init() {
	profiles["eloop"] = func(c *ctx) {
		var shape []int
		if err := json.Unmarshal(genLine(c), &shape); err != nil {
			panic(harnessError(err.Error()))
		}
		k := 6
		if c.tier != "quick" {
			k = 40
		}
		for ; k > 0; k-- {
			loopCase(c, shape[0], shape[1])
		}
	}
	profiles["epos"] = posCase
	profiles["deep"] = deepCase
}

func loopCase(c *ctx, n, b int) {
	r := c.r
	// where the first interface is
	var ty *Ty
	slots := 1
	switch r.Intn(4) {
	case 0, 1:
		ty = tyAny
	case 2:
		slots = 1 + r.Intn(3)
		ty = arrayOf(slots, tyAny)
	case 3:
		slots = 1 + r.Intn(3)
		var fs []Fld
		for i := 0; i < slots; i++ {
			fs = append(fs, Fld{GN: "F" + string(rune('0'+i)), Exp: true, Tagged: true, TN: string(rune('a' + i)), Ty: tyAny})
		}
		ty = structOf(fs)
	}
	dst := reflect.New(ty.rt)
	ix := typeIndex{}
	ty.index(ix)
	d := newDefTab()
	tyE := ty.emit(d)
	var cs []*chain
	for i := 0; i < slots; i++ {
		first := dst.Elem()
		switch ty.T {
		case "array":
			first = first.Index(i)
		case "struct":
			first = first.Field(i)
		}
		sn, sb := n, b
		if i > 0 && r.Intn(3) != 0 {
			sn, sb = 1+r.Intn(5), 0
		}
		ch := buildChain(r, sn, sb, first)
		if ch.leaf != nil {
			ch.leaf.index(ix)
		}
		cs = append(cs, ch)
	}
	all := func(f func(ch *chain) interface{}) interface{} {
		l := []interface{}{}
		for _, ch := range cs {
			l = append(l, f(ch))
		}
		switch ty.T {
		case "array":
			return M{"k": "list", "l": l}
		case "struct":
			return M{"k": "st", "f": l}
		}
		return l[0]
	}
	prior := all(func(ch *chain) interface{} { return ch.abs(0, ix, d) })
	g := &docGen{r: r, ws: []int{0, 2, 6}[r.Intn(3)]}
	x := g.sp(nil)
	one := func(ch *chain) {
		if r.Intn(12) == 0 {
			x = append(x, "null"...)
		} else if ch.leaf != nil && r.Intn(4) != 0 {
			x = g.val(x, ch.leaf, 1, false)
		} else {
			x = g.any(x, 2)
		}
	}
	switch ty.T {
	case "any":
		one(cs[0])
	case "array":
		x = append(x, '[')
		for i, ch := range cs {
			if i > 0 {
				x = append(g.sp(x), ',')
			}
			x = g.sp(x)
			one(ch)
		}
		x = append(g.sp(x), ']')
	case "struct":
		x = append(x, '{')
		for i, ch := range cs {
			if i > 0 {
				x = append(g.sp(x), ',')
			}
			x = append(g.sp(x), '"', byte('a'+i), '"')
			x = append(g.sp(x), ':')
			x = g.sp(x)
			one(ch)
		}
		x = append(g.sp(x), '}')
	}
	x = g.sp(x)
	mode := decModes[r.Intn(len(decModes))]
	out, err := runDec(jzon.DefaultDecoderConfig, mode, append([]byte{}, x...), dst.Interface(), r)
	rec := M{"kind": "dec", "x": B(x), "ty": tyE, "prior": prior, "out": out, "mode": mode, "own": false,
		"cs": false, "duf": false, "un": false, "only": false, "fl": floatTable(x), "msg": "", "val": M{"k": "opq"}}
	if err != nil {
		rec["msg"] = firstLine(err.Error())
	}
	if out == "ok" {
		rec["val"] = all(func(ch *chain) interface{} { return ch.after(0, reflect.Value{}, ix, d) })
	}
	rec["defs"] = d.emit()
	c.count("out_" + out)
	c.emit(rec)
}

// ---------------------------------------------------------------- depth

// deepText: a random spine of arrays and objects, closed again, possibly
// damaged at one place
func deepText(r *rand.Rand, depth int) []byte {
	var x []byte
	var close []byte
	style := r.Intn(3)
	for i := 0; i < depth; i++ {
		arr := style == 0 || style == 2 && r.Intn(2) == 0
		if arr {
			if r.Intn(50) == 0 {
				x = append(x, "[1,"...)
			} else {
				x = append(x, '[')
			}
			close = append(close, ']')
		} else {
			if r.Intn(50) == 0 {
				x = append(x, `{"b":2,"a":`...)
			} else {
				x = append(x, `{"a":`...)
			}
			close = append(close, '}')
		}
	}
	x = append(x, []string{"1", `"x"`, "null", "[]", "{}"}[r.Intn(5)]...)
	for i := len(close) - 1; i >= 0; i-- {
		x = append(x, close[i])
		if i > 0 && r.Intn(60) == 0 {
			if close[i-1] == ']' {
				x = append(x, ",true"...)
			} else {
				x = append(x, `,"c":null`...)
			}
		}
	}
	switch r.Intn(4) {
	case 0: // truncated
		x = x[:len(x)-1-r.Intn(len(x)/2+1)]
	case 1: // another byte somewhere
		i := len(x) - 1 - r.Intn(len(x)/2)
		x[i] = "]}[{,:1"[r.Intn(7)]
	}
	return x
}

var deepOnce sync.Once

// longChain: many interfaces in a row, with and without a cycle
func longChain(c *ctx) {
	r := c.r
	n := []int{30, 60, 100, 127, 128, 129, 250, 257, 500, 1000, 1025, 3000, 5000}[r.Intn(13)] + r.Intn(3)
	leaf := -1
	nodes := make([]interface{}, n)
	for i := 0; i+1 < n; i++ {
		nodes[i] = &nodes[i+1]
	}
	loop := r.Intn(2) == 0
	if loop {
		nodes[n-1] = &nodes[[]int{0, n - 1, r.Intn(n), n - 1 - r.Intn(min(n, 4))}[r.Intn(4)]]
	} else {
		nodes[n-1] = &leaf
	}
	text := []byte("[77]")
	dst := interface{}(&[]interface{}{})
	if r.Intn(2) == 0 {
		text, dst = []byte(" 77"), &nodes[0]
	} else {
		dst = &[1]interface{}{&nodes[0]}
	}
	mode := decModes[r.Intn(len(decModes))]
	out, err := runDec(jzon.DefaultDecoderConfig, mode, text, dst, r)
	c.count("checks")
	switch {
	case loop && out != "err":
		c.bad("a cycle in a chain of %d interfaces (%s): %s", n, mode, out)
	case !loop && (out != "ok" || leaf != 77):
		c.bad("a chain of %d interfaces without a cycle (%s): %s %v, its end is %d", n, mode, out, err, leaf)
	}
}

func deepCase(c *ctx) {
	deepOnce.Do(func() { debug.SetMaxStack(16 << 20) })
	r := c.r
	depth := []int{1, 63, 64, 65, 1000, 50000, 300000}[r.Intn(7)]
	if c.tier != "quick" && r.Intn(4) == 0 {
		depth = 1500000
	}
	x := deepText(r, depth)
	want := accepts(x)
	chk := func(name string, f func() error) {
		out, err := guard(f)
		c.count("checks")
		if out == "panic" || (err == nil) != want {
			c.bad("%s: depth %d, %d bytes ...%.60q: want ok=%v, got %s %v", name, depth, len(x), x[max(0, len(x)-60):], want, out, err)
		}
	}
	longChain(c)
	chk("valid", func() error {
		if !jzon.Valid(x) {
			return fmt.Errorf("not valid")
		}
		return nil
	})
	chk("raw", func() error { var o json.RawMessage; return jzon.Unmarshal(x, &o) })
	chk("any", func() error {
		var o interface{}
		if err := jzon.Unmarshal(x, &o); err != nil {
			return err
		}
		return sameSpine(x, o)
	})
	chk("reader", func() error {
		var o interface{}
		return jzon.UnmarshalFromReader(bytes.NewReader(x), &o)
	})
	chk("skip", func() error {
		it := jzon.NewIterator()
		defer it.Release()
		it.Reset(newChunkReader(rand.New(rand.NewSource(int64(c.i))), x))
		if err := it.Skip(); err != nil {
			return err
		}
		if _, err := it.NextValueType(); err != io.EOF {
			return fmt.Errorf("more")
		}
		return nil
	})
	chk("member", func() error {
		var o struct {
			A int `json:"a"`
		}
		y := append(append([]byte(`{"zz":`), x...), `,"a":3}`...)
		if err := jzon.Unmarshal(y, &o); err != nil {
			return err
		}
		if o.A != 3 {
			return fmt.Errorf("a = %d", o.A)
		}
		return nil
	})
	chk("unmarshaler", func() error { var o JU; return jzon.Unmarshal(x, &o) })
	c.countN("depth", depth)
}

// sameSpine: walk down the spine of the text and of the value
func sameSpine(x []byte, o interface{}) error {
	for i := 0; i < len(x); {
		switch x[i] {
		case '[':
			l, ok := o.([]interface{})
			if !ok {
				return fmt.Errorf("%T for an array at %d", o, i)
			}
			if bytes.HasPrefix(x[i:], []byte("[1,")) {
				if len(l) < 2 || l[0] != 1.0 {
					return fmt.Errorf("elements at %d", i)
				}
				o = l[1]
				i += 3
			} else if x[i+1] == ']' {
				if len(l) != 0 {
					return fmt.Errorf("elements at %d", i)
				}
				return nil
			} else {
				if len(l) == 0 {
					return fmt.Errorf("no elements at %d", i)
				}
				o = l[0]
				i++
			}
		case '{':
			m, ok := o.(map[string]interface{})
			if !ok {
				return fmt.Errorf("%T for an object at %d", o, i)
			}
			if x[i+1] == '}' {
				if len(m) != 0 {
					return fmt.Errorf("members at %d", i)
				}
				return nil
			}
			if bytes.HasPrefix(x[i:], []byte(`{"b":2,"a":`)) {
				if m["b"] != 2.0 {
					return fmt.Errorf("member b at %d", i)
				}
				i += len(`{"b":2,"a":`)
			} else if bytes.HasPrefix(x[i:], []byte(`{"a":`)) {
				i += len(`{"a":`)
			} else {
				return nil // damaged, yet valid
			}
			if o, ok = m["a"]; !ok {
				return fmt.Errorf("member a at %d", i)
			}
		default:
			return nil
		}
	}
	return nil
}

// posCase: values decoded one after the other into a few interface variables,
// or captured, while a reader delivers the text as the trace says (EfacePos).
// None of them is a loop.
func posCase(c *ctx) {
	var tr [][]int
	if err := json.Unmarshal(genLine(c), &tr); err != nil {
		panic(harnessError(err.Error()))
	}
	ops, sizes := tr[0], tr[1]
	for form := 0; form < 4; form++ {
		posForm(c, ops, sizes, form)
	}
}

func posForm(c *ctx, ops, sizes []int, form int) {
	r := c.r
	sep := " "
	if form == 1 { // longer than the buffer
		sep = string(bytes.Repeat([]byte(" "), []int{2, 63, 64, 65, 513}[r.Intn(5)]))
	} else if form == 2 {
		sep = ","
	}
	var pieces [][]byte
	k := 0
	for _, n := range sizes {
		var p []byte
		for ; n > 0; n-- {
			if k%2 == 0 {
				p = append(p, byte('1'+k/2))
			} else {
				p = append(p, sep...)
			}
			k++
		}
		pieces = append(pieces, p)
	}
	if form == 2 {
		pieces[0] = append([]byte("["), pieces[0]...)
		pieces = append(pieces, []byte("]"))
	}
	pr := &pieceReader{pieces: pieces, end: io.EOF, endWith: r.Intn(2) == 0}
	vars := make([]interface{}, 3)
	want := make([]interface{}, 3)
	var raw json.RawMessage
	i := 0
	step := func(read func(interface{}) error) error {
		v := ops[i]
		i++
		if v == 0 {
			if err := read(&raw); err != nil {
				return err
			}
			if string(raw) != fmt.Sprint(i) {
				return fmt.Errorf("raw %q", raw)
			}
			return nil
		}
		want[v] = float64(i)
		return read(&vars[v])
	}
	out, err := guard(func() error {
		switch form {
		case 0, 1:
			d := jzon.NewDecoder(pr)
			defer d.Release()
			for i < len(ops) {
				if err := step(d.Decode); err != nil {
					return err
				}
			}
			return nil
		}
		it := jzon.NewIterator()
		defer it.Release()
		it.Reset(pr)
		if form == 2 {
			return it.ReadArrayCB(func(it *jzon.Iterator) error { return step(it.ReadVal) })
		}
		for i < len(ops) {
			if err := step(it.ReadVal); err != nil {
				return err
			}
		}
		return nil
	})
	c.count("checks")
	if out != "ok" || i != len(ops) || !reflect.DeepEqual(vars, want) {
		c.bad("values into variables %v (0: captured), pieces %v, form %d: step %d: %s %v, variables %v", ops, sizes, form, i, out, err, vars)
	}
}

package main

import (
	"encoding/json"
	"math/rand"
	"reflect"
	"strconv"
	"strings"

	"github.com/zerosnake0/jzon"
)

// C09: struct types which embed each other.

type tyMemo map[reflect.Type]*Ty

// tyOfRT describes a Go type; tags are read under the given key
func tyOfRT(rt reflect.Type, key string, memo tyMemo) *Ty {
	if t, ok := memo[rt]; ok {
		return t
	}
	t := &Ty{rt: rt}
	memo[rt] = t
	switch rt.Kind() {
	case reflect.Bool:
		t.T = "bool"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		t.T, t.W, t.Sg = "int", rt.Bits(), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		t.T, t.W = "int", rt.Bits()
	case reflect.Float32, reflect.Float64:
		t.T, t.W = "float", rt.Bits()
	case reflect.String:
		t.T = "string"
	case reflect.Interface:
		t.T = "any"
	case reflect.Ptr:
		t.T, t.E = "ptr", tyOfRT(rt.Elem(), key, memo)
	case reflect.Slice:
		t.T, t.E = "slice", tyOfRT(rt.Elem(), key, memo)
	case reflect.Array:
		t.T, t.N, t.E = "array", rt.Len(), tyOfRT(rt.Elem(), key, memo)
	case reflect.Map:
		t.T, t.Key, t.E = "map", tyOfRT(rt.Key(), key, memo), tyOfRT(rt.Elem(), key, memo)
	case reflect.Struct:
		t.T, t.Def = "struct", &Def{rt: rt}
		for i := 0; i < rt.NumField(); i++ {
			sf := rt.Field(i)
			f := Fld{GN: sf.Name, Exp: sf.PkgPath == "", Anon: sf.Anonymous, Ty: tyOfRT(sf.Type, key, memo)}
			tag, ok := sf.Tag.Lookup(key)
			if ok {
				f.Tagged, f.Tag = true, tag
				f.Skip = tag == "-"
				// to aim the generator; the specification reads the tag itself
				f.TN = strings.Split(tag, ",")[0]
				f.Str = strings.Contains(tag, ",string")
				f.Om = strings.Contains(tag, ",omitempty")
			}
			t.Def.Fields = append(t.Def.Fields, f)
		}
	default:
		panic(harnessError(rt.String()))
	}
	return t
}

var structMemo = map[string]tyMemo{"json": {}, "api": {}}
var structTys = map[string][]*Ty{}

type structCfg struct {
	cs, duf, only bool
	tag           string
}

var structDecs = map[structCfg]*jzon.DecoderConfig{}
var structEncs = map[structCfg]*jzon.EncoderConfig{}

func initStructs() {
	for _, key := range []string{"json", "api"} {
		for _, rt := range structRoots {
			structTys[key] = append(structTys[key], tyOfRT(rt, key, structMemo[key]))
		}
		tag := key
		for i := 0; i < 8; i++ {
			c := structCfg{cs: i&1 != 0, duf: i&2 != 0, only: i&4 != 0, tag: key}
			o := &jzon.DecoderOption{CaseSensitive: c.cs, DisallowUnknownFields: c.duf, OnlyTaggedField: c.only}
			if tag != "json" || c.cs {
				o.Tag = tag
			}
			structDecs[c] = jzon.NewDecoderConfig(o)
			e := &jzon.EncoderOption{EscapeHTML: true, OnlyTaggedField: c.only}
			if tag != "json" || c.cs {
				e.Tag = tag
			}
			structEncs[c] = jzon.NewEncoderConfig(e)
		}
	}
}

// randEmbed: struct types made at run time, each embedding earlier ones
func randEmbed(r *rand.Rand) *Ty {
	var pool []*Ty
	names := []string{"A", "B", "C", "Ab", "AB"}
	tags := []string{"A", "a", "b", "x", "-", "-,", "", ",omitempty", "a,omitempty", "b,string", "ab", "€", "a'"}
	leafs := []*Ty{tyInt, tyString, tyBool, ptrTo(tyInt), sliceOf(tyInt), tyAny}
	n := 2 + r.Intn(5)
	for i := 0; i < n; i++ {
		var fs []Fld
		used := map[string]bool{}
		add := func(f Fld) {
			if used[f.GN] {
				return
			}
			used[f.GN] = true
			f.Exp = true
			if f.Tagged {
				f.Skip = f.Tag == "-"
				f.TN = strings.Split(f.Tag, ",")[0]
				if r.Intn(3) == 0 {
					f.TN = "" // documents name the field by its Go name
				}
				f.Str = strings.Contains(f.Tag, ",string")
			}
			fs = append(fs, f)
		}
		for j := r.Intn(4); j >= 0; j-- {
			f := Fld{GN: names[r.Intn(len(names))], Ty: leafs[r.Intn(len(leafs))]}
			if r.Intn(2) == 0 {
				f.Tagged, f.Tag = true, tags[r.Intn(len(tags))]
				if r.Intn(2) == 0 {
					f.Tag = randTag(r)
				}
			}
			add(f)
		}
		if len(pool) > 0 {
			for j := r.Intn(4); j > 0; j-- {
				t := pool[r.Intn(len(pool))]
				if r.Intn(2) == 0 {
					t = ptrTo(t)
				}
				f := Fld{GN: "E" + strconv.Itoa(r.Intn(4)), Anon: true, Ty: t}
				if r.Intn(8) == 0 {
					f.Tagged, f.Tag = true, tags[r.Intn(len(tags))]
				}
				add(f)
			}
		}
		if r.Intn(10) == 0 {
			add(Fld{GN: "NInt", Anon: true, Ty: scalarTys[16]})
		}
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		if len(fs) == 0 {
			fs = []Fld{{GN: "Z", Exp: true, Ty: tyInt}}
		}
		pool = append(pool, structOf(fs))
	}
	return pool[len(pool)-1]
}

// randTag: names with any punctuation, options spelled in many ways
func randTag(r *rand.Rand) string {
	chars := []rune("!#$%&()*+-./:<=>?@[]^_{|}~ !#$%&()*+-./:<=>?@[]^_{|}~ abABxyz09abABxyz09'\"\\;`\x00\n\x7féßſK€×²\u0663\u2167\u0301世\ufffd")
	name := ""
	for n := []int{0, 1, 1, 2, 3}[r.Intn(5)]; n > 0; n-- {
		name += string(chars[r.Intn(len(chars))])
	}
	if r.Intn(20) == 0 {
		name += "\xff"
	}
	for n := []int{0, 0, 1, 1, 2, 3}[r.Intn(6)]; n > 0; n-- {
		name += "," + tagOpts[r.Intn(len(tagOpts))]
	}
	return name
}

var tagOpts = []string{"string", "omitempty", "string", "omitempty", "", "strings", "String", "STRING", " string", "string ", "str", "omitempty2", "Omitempty", "omitEmpty", " omitempty", "omit",
	"omitzero", "inline", "-", "stringomitempty", "string omitempty", "omitempty;string"}

func structCase(c *ctx) (*Ty, structCfg) {
	r := c.r
	cfg := structCfg{tag: "json", only: r.Intn(5) == 0, cs: r.Intn(4) == 0, duf: r.Intn(4) == 0}
	if r.Intn(3) != 0 {
		if r.Intn(3) == 0 {
			cfg.tag = "api"
		}
		ts := structTys[cfg.tag]
		return ts[c.i%len(ts)], cfg
	}
	return randEmbed(r), cfg
}

func init() {
	initStructs()
	profiles["structdec"] = func(c *ctx) {
		r := c.r
		ty, cfg := structCase(c)
		g := &docGen{r: r, ws: []int{0, 0, 3}[r.Intn(3)], bad: []int{0, 0, 30}[r.Intn(3)]}
		x := g.doc(ty, 3)
		c.dec = structDecs[cfg]
		doDecode(c, ty, x, decCfg{cs: cfg.cs, duf: cfg.duf, only: cfg.only}, r.Intn(2) == 0, decModes[r.Intn(len(decModes))], nil)
	}
	profiles["structenc"] = func(c *ctx) {
		r := c.r
		ty, cfg := structCase(c)
		p := reflect.New(ty.rt)
		fill(p.Elem(), ty, r, 5, nil)
		mode := encModes[r.Intn(5)]
		c.enc = structEncs[cfg]
		doEncode(c, ty, p, encCfg{esc: true, only: cfg.only}, mode, dynTys)
	}
	profiles["structrt"] = func(c *ctx) {
		r := c.r
		ty, cfg := structCase(c)
		cfg.duf = r.Intn(2) == 0
		roundTrip(c, ty, encCfg{esc: true, only: cfg.only}, r.Intn(5), structEncs[cfg], structDecs[cfg])
	}
}

func init() {
	// programs enumerated by MC_StructFields
	profiles["structgen"] = func(c *ctx) {
		var g [][]int
		if err := json.Unmarshal(genLine(c), &g); err != nil {
			panic(harnessError(err.Error()))
		}
		r := c.r
		tys := make([]*Ty, len(g))
		for i := len(g) - 1; i >= 0; i-- {
			var fs []Fld
			for k, o := range g[i] {
				switch o {
				case 1:
					fs = append(fs, Fld{GN: "A", Exp: true, Ty: tyInt})
				case 2:
					fs = append(fs, Fld{GN: "T" + strconv.Itoa(k), Exp: true, Tagged: true, TN: "A", Ty: tyInt})
				case 3:
					fs = append(fs, Fld{GN: "B", Exp: true, Ty: tyInt})
				default:
					t := tys[o-4]
					if r.Intn(2) == 0 {
						t = ptrTo(t)
					}
					fs = append(fs, Fld{GN: "E" + strconv.Itoa(k), Exp: true, Anon: true, Ty: t})
				}
			}
			r.Shuffle(len(fs), func(a, b int) { fs[a], fs[b] = fs[b], fs[a] })
			tys[i] = structOf(fs)
		}
		ty := tys[0]
		x := []byte(`{"A":` + strconv.Itoa(1000+r.Intn(1000)) + `,"B":` + strconv.Itoa(2000+r.Intn(1000)) + `}`)
		if r.Intn(4) == 0 {
			x = []byte(`{"b":7,"a":8,"A":9}`)
		}
		doDecode(c, ty, x, decCfg{}, r.Intn(2) == 0, decModes[r.Intn(len(decModes))], nil)
		p := reflect.New(ty.rt)
		fill(p.Elem(), ty, r, 6, nil)
		n := 0
		number(p.Elem(), &n)
		doEncode(c, ty, p, encCfg{esc: true}, encModes[r.Intn(5)], dynTys)
	}
}

// number gives every integer below v its own value
func number(v reflect.Value, n *int) {
	switch v.Kind() {
	case reflect.Int:
		*n++
		v.SetInt(int64(*n))
	case reflect.Ptr:
		if !v.IsNil() {
			number(v.Elem(), n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			number(v.Field(i), n)
		}
	}
}

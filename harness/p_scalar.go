package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/zerosnake0/jzon"
)

// ---------------------------------------------------------------- C06

var strDests = []*Ty{tyString, tyAny, scalarTys[19], tyTU, tyRaw, ptrTo(tyString), tyNumber}

// strDoc decodes one literal in some way
func strDoc(c *ctx, lit []byte, k int) {
	switch k % 10 {
	case 0, 1, 2, 3, 4, 5:
		doDecode(c, strDests[k%10], lit, decCfg{}, false, decModes[c.r.Intn(len(decModes))], nil)
	case 6: // a map key
		x := append(append([]byte(`{`), lit...), []byte(`:1}`)...)
		doDecode(c, []*Ty{mapOf(tyString, tyInt), mapOf(tyTK, tyInt), tyAny}[c.r.Intn(3)], x, decCfg{}, false, decModes[c.r.Intn(len(decModes))], nil)
	case 7, 8: // steps
		s := newStepRun(c, lit, false)
		op := []string{"str", "strs", "stra", "skipstr", "skip", "raw", "read"}[c.r.Intn(7)]
		if _, ok := s.do(op); ok {
			s.do("nvt")
		}
		s.emit(false)
	case 9: // an object key, read step by step
		x := append(append([]byte(`{`), lit...), []byte(`: 1}`)...)
		s := newStepRun(c, x, false)
		if _, ok := s.do("ob"); ok {
			s.do("int")
			s.do("om")
		}
		s.emit(false)
	}
}

func u4lit(r *rand.Rand, c int) string { return string(appendU4(r, nil, rune(c))) }

var surBoundary = []int{0, 0x41, 0xd7ff, 0xd800, 0xd801, 0xdbfe, 0xdbff, 0xdc00, 0xdc01, 0xdffe, 0xdfff, 0xe000, 0xfffd, 0xffff}

const (
	strBlockU   = 1024 // all code units
	strBlockSur = 32   // all high and all low surrogates, paired
	strBlockEsc = 256  // every byte after a backslash, in the text, as a hex digit
	strBlockBnd = 14   // pairs of boundary units
	strFixed    = strBlockU + strBlockSur + strBlockEsc + strBlockBnd
)

func init() {
	profiles["strings"] = func(c *ctx) {
		r := c.r
		i := c.i
		if i < strBlockU+strBlockSur {
			var lits []string
			for k := 0; k < 64; k++ {
				if i < strBlockU {
					lits = append(lits, `"`+u4lit(r, i*64+k)+`"`)
				} else {
					j := (i - strBlockU) * 64 // 0..2047
					hi, lo := 0xd800+r.Intn(1024), 0xdc00+r.Intn(1024)
					if j < 1024 {
						hi = 0xd800 + j + k
					} else {
						lo = 0xdc00 + j - 1024 + k
					}
					lits = append(lits, `"`+u4lit(r, hi)+u4lit(r, lo)+`"`)
				}
			}
			switch (i + int(c.seed)) % 4 {
			case 0:
				doDecode(c, sliceOf(tyString), []byte("["+strings.Join(lits, ",")+"]"), decCfg{}, false, decModes[r.Intn(len(decModes))], nil)
			case 1:
				doDecode(c, tyAny, []byte("["+strings.Join(lits, ", ")+"]"), decCfg{}, false, decModes[r.Intn(len(decModes))], nil)
			case 2:
				doDecode(c, mapOf(tyString, tyInt), []byte("{"+strings.Join(lits, ":1,")+":2}"), decCfg{}, false, decModes[r.Intn(len(decModes))], nil)
			case 3:
				s := newStepRun(c, []byte(strings.Join(lits, " ")), false)
				for range lits {
					s.do([]string{"str", "strs", "stra"}[r.Intn(3)])
				}
				s.emit(false)
			}
			return
		}
		i -= strBlockU + strBlockSur
		if i < strBlockEsc {
			b := string([]byte{byte(i)})
			pre := strings.Repeat("p", []int{5, 60, 61, 62, 63, 124}[r.Intn(6)])
			hex := []byte(fmt.Sprintf("%04x", r.Intn(0x10000)))
			for k, x := range []string{`"\` + b + `"`, `"ab\` + b + `cd"`, `"` + pre + `\` + b + `"`, `"\u0041\` + b + `\n"`, `"\` + b,
				`"` + b + `"`, `"a` + b + `b"`, `"` + pre + b + `"`, `"\n` + b + `x"`, `"é` + b + `"`, `"` + b + pre + b + `"`} {
				strDoc(c, []byte(x), k+r.Intn(10))
				strDoc(c, []byte(x), r.Intn(10))
			}
			for p := 0; p < 4; p++ {
				h := append([]byte{}, hex...)
				h[p] = byte(i)
				strDoc(c, []byte(`"`+pre+`\u`+string(h)+`"`), r.Intn(10))
				strDoc(c, []byte(`"\u`+string(h)+pre+`"`), r.Intn(10))
				strDoc(c, []byte(`"\ud83d\u`+string(h)+`x"`), r.Intn(10))
			}
			return
		}
		i -= strBlockEsc
		if i < strBlockBnd {
			a := u4lit(r, surBoundary[i])
			for _, b := range surBoundary {
				l := u4lit(r, b)
				for k, x := range []string{a + l, "x" + a + l + "y", a + "z" + l, a + `\n` + l, a + l + l, a + a + l, a + `\\` + l[1:]} {
					strDoc(c, []byte(`"`+x+`"`), k+r.Intn(10))
				}
			}
			for cut := 0; cut < 6; cut++ {
				strDoc(c, []byte(`"`+a+a[:cut]+`"`), r.Intn(10))
				strDoc(c, []byte(`"`+a[:cut]), r.Intn(10))
			}
			for _, x := range []string{"", "x", `\n`, `\"`, `\\`, `\/`, "é", "\x80", "\xed\xa0\x80", "\xed\xb0\x80"} {
				strDoc(c, []byte(`"`+a+x+`"`), r.Intn(10))
			}
			return
		}
		// random literals, also long ones
		var lit []byte
		switch r.Intn(4) {
		case 0:
			lit = randWildStrLit(r, r.Intn(30))
		case 1:
			n := []int{30, 62, 63, 64, 65, 66, 126, 127, 128, 129, 250, 509, 510, 511, 512, 513}[r.Intn(16)]
			w := randWildStrLit(r, 1+r.Intn(4))
			lit = append([]byte{'"'}, bytes.Repeat([]byte{"xé"[0]}, n)...)
			lit = append(lit, w[1:]...)
		case 2:
			lit = randStrLit(r, randGoString(r)+randGoString(r))
		case 3:
			lit = mutate(r, randWildStrLit(r, r.Intn(10)))
		}
		strDoc(c, lit, r.Intn(10))
	}
}

// ---------------------------------------------------------------- C07

var intTys = []*Ty{tInt(8, true, rtOf(int8(0))), tInt(16, true, rtOf(int16(0))), tInt(32, true, rtOf(int32(0))), tInt(64, true, rtOf(int64(0))),
	tInt(64, true, rtOf(int(0))), tInt(8, false, rtOf(uint8(0))), tInt(16, false, rtOf(uint16(0))), tInt(32, false, rtOf(uint32(0))),
	tInt(64, false, rtOf(uint64(0))), tInt(64, false, rtOf(uint(0))), tInt(64, false, rtOf(uintptr(0)))}

var intOps = map[string]string{"int8": "i8", "int16": "i16", "int32": "i32", "int64": "i64", "int": "int",
	"uint8": "u8", "uint16": "u16", "uint32": "u32", "uint64": "u64", "uint": "uint", "uintptr": "u64"}

var intTexts []string

func init() {
	seen := map[string]bool{}
	add := func(s string) {
		if s == "" || seen[s] {
			return
		}
		seen[s] = true
		intTexts = append(intTexts, s)
	}
	for i := 0; i < 1000; i++ {
		for w := 1; w <= 3; w++ {
			s := fmt.Sprintf("%0*d", w, i)
			if len(s) == w {
				add(s)
				add("-" + s)
			}
		}
	}
	const alpha = "019-+.eE5"
	var rec func(p string)
	rec = func(p string) {
		add(p)
		if len(p) < 4 {
			for i := range alpha {
				rec(p + alpha[i:i+1])
			}
		}
	}
	rec("")
	lims := []string{"127", "128", "255", "256", "32767", "32768", "65535", "65536",
		"2147483647", "2147483648", "4294967295", "4294967296",
		"9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616"}
	for _, l := range lims {
		v := []string{l}
		for p := range l {
			for d := byte('0'); d <= '9'; d++ {
				b := []byte(l)
				b[p] = d
				v = append(v, string(b))
			}
		}
		for d := byte('0'); d <= '9'; d++ {
			v = append(v, l+string(d), string(d)+l, l[:len(l)-1]+string(d)+"0")
		}
		for n := 1; n < len(l); n++ {
			v = append(v, l[:n], l[n:])
		}
		v = append(v, l+".0", l+"e0", l+"0000000000", l+".", l+"-")
		for _, s := range v {
			add(s)
			add("-" + s)
		}
	}
	for k := 0; k < 25; k++ {
		add("1" + strings.Repeat("0", k))
		add(strings.Repeat("9", k+1))
		add("-1" + strings.Repeat("0", k))
		add("-" + strings.Repeat("9", k+1))
		add(strings.Repeat("0", k+1) + "1")
	}
	for k := uint(0); k < 64; k++ {
		for d := int64(-2); d <= 2; d++ {
			add(strconv.FormatUint(uint64(1)<<k+uint64(d), 10))
			add("-" + strconv.FormatUint(uint64(1)<<k+uint64(d), 10))
		}
	}
	for k := int64(-300); k <= 300; k++ {
		for _, b := range []int64{32767, 65535, 2147483647, 4294967295} {
			add(strconv.FormatInt(b+k, 10))
			add(strconv.FormatInt(-b+k, 10))
		}
		add(strconv.FormatUint(uint64(9223372036854775807)+uint64(k), 10))
		add("-" + strconv.FormatUint(uint64(9223372036854775808)+uint64(k), 10))
		if k >= 0 {
			add(strconv.FormatUint(18446744073709551615-uint64(k), 10))
			add("18446744073709551" + strconv.FormatInt(616+k%300, 10))
		}
	}
}

const intBatch = 100

// readInt reads the text t as an integer of type ty in some way
func readInt(r *rand.Rand, ty *Ty, via string, t string) (string, string) {
	dst := reflect.New(ty.rt)
	var res string
	show := func(v reflect.Value) string {
		if ty.Sg {
			return strconv.FormatInt(v.Int(), 10)
		}
		return strconv.FormatUint(v.Uint(), 10)
	}
	out, _ := guard(func() error {
		switch via {
		case "val":
			if err := jzon.Unmarshal([]byte(t), dst.Interface()); err != nil {
				return err
			}
			res = show(dst.Elem())
		case "reader":
			if err := jzon.UnmarshalFromReader(&pieceReader{pieces: randPieces(r, []byte(" "+t)), end: ioEOF, endWith: r.Intn(2) == 0}, dst.Interface()); err != nil {
				return err
			}
			res = show(dst.Elem())
		case "elem":
			s := reflect.New(reflect.SliceOf(ty.rt))
			x := []byte("[" + t + ", " + t + "]")
			if err := jzon.Unmarshal(x, s.Interface()); err != nil {
				return err
			}
			res = show(s.Elem().Index(0))
			if show(s.Elem().Index(1)) != res {
				res = "differ"
			}
		case "step":
			it := jzon.NewIterator()
			defer it.Release()
			x := []byte("[" + t + "]")
			if r.Intn(2) == 0 {
				it.ResetBytes(x)
			} else {
				it.Reset(&pieceReader{pieces: randPieces(r, x), end: ioEOF})
			}
			it.ReadArrayBegin()
			v, err := doStep(it, intOps[ty.rt.Kind().String()], nil, nil)
			if err != nil {
				return err
			}
			res = string(v.(M)["d"].(B))
			more, err := it.ReadArrayMore()
			if err != nil {
				return err
			}
			if more {
				return fmt.Errorf("more")
			}
		case "key":
			m := reflect.New(reflect.MapOf(ty.rt, rtOf(0)))
			if err := jzon.Unmarshal([]byte(`{"`+t+`":1}`), m.Interface()); err != nil {
				return err
			}
			res = show(m.Elem().MapKeys()[0])
		case "quoted":
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: ty.rt, Tag: `json:"a,string"`}}))
			if err := jzon.Unmarshal([]byte(`{"a":"`+t+`"}`), st.Interface()); err != nil {
				return err
			}
			res = show(st.Elem().Field(0))
		}
		return nil
	})
	if out != "ok" {
		res = ""
	}
	return out, res
}

var intVias = []string{"val", "reader", "elem", "step", "key", "quoted"}

func init() {
	profiles["ints"] = func(c *ctx) {
		r := c.r
		nb := (len(intTexts) + intBatch - 1) / intBatch
		ty := intTys[c.i%len(intTys)]
		b := c.i / len(intTys)
		var texts []string
		if b < nb {
			e := (b + 1) * intBatch
			if e > len(intTexts) {
				e = len(intTexts)
			}
			texts = intTexts[b*intBatch : e]
		} else if b < nb+700 && ty.W == 16 { // all values up to 69999
			for k := 0; k < 100; k++ {
				s := strconv.Itoa((b-nb)*100 + k)
				texts = append(texts, s, "-"+s)
			}
		} else {
			for k := 0; k < 100; k++ {
				texts = append(texts, string(randIntText(r, ty.W, ty.Sg)))
			}
		}
		vias := intVias
		if c.tier != "thorough" {
			k := r.Intn(3)
			vias = []string{intVias[k], intVias[3+r.Intn(3)]}
		}
		for _, via := range vias {
			items := []interface{}{}
			for _, t := range texts {
				if strings.ContainsAny(t, "\"\\") {
					continue
				}
				out, d := readInt(r, ty, via, t)
				items = append(items, M{"t": B(t), "out": out, "d": B(d)})
			}
			c.countN("texts", len(items))
			c.emit(M{"kind": "ints", "w": ty.W, "sg": ty.Sg, "via": via, "items": items})
		}
	}
}

// ---------------------------------------------------------------- C10

var foldGroups = [][]rune{{'k', 'K', 0x212a}, {'s', 'S', 0x17f}, {'a', 'A'}, {'z', 'Z'}, {'e', 'E'}, {0xe9, 0xc9}, {0xe5, 0xc5, 0x212b},
	{0x3c3, 0x3c2, 0x3a3}, {0x3c9, 0x3a9, 0x2126}, {0xb5, 0x3bc, 0x39c}, {0xdf, 0x1e9e}, {0x434, 0x414}, {'@'}, {'['}, {'{'}, {'0'}, {'_'}, {'1'}, {'-'}}

func randFoldName(r *rand.Rand, n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = r.Intn(len(foldGroups))
		if r.Intn(2) == 0 {
			out[i] = r.Intn(4)
		}
	}
	return out
}

func spell(r *rand.Rand, g []int) string {
	var sb strings.Builder
	for _, k := range g {
		sb.WriteRune(foldGroups[k][r.Intn(len(foldGroups[k]))])
	}
	return sb.String()
}

func init() {
	profiles["keys"] = func(c *ctx) {
		r := c.r
		n := 1 + r.Intn(14)
		if r.Intn(3) == 0 {
			n = 1 + r.Intn(3)
		} else if r.Intn(12) == 0 {
			n = 15 + r.Intn(60)
		}
		var fs []Fld
		var groups [][]int
		used := map[string]bool{}
		for i := 0; i < n; i++ {
			f := Fld{GN: "F" + strconv.Itoa(i), Exp: true, Tagged: true, Ty: tyInt}
			var g []int
			switch {
			case len(groups) > 0 && r.Intn(3) == 0: // same letters in another case
				g = groups[r.Intn(len(groups))]
			case r.Intn(12) == 0:
				g = nil // the Go name
			default:
				g = randFoldName(r, 1+r.Intn(4))
				if r.Intn(12) == 0 { // long, and differing late
					g = append(randFoldName(rand.New(rand.NewSource(int64(c.i))), []int{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65}[r.Intn(12)]), g...)
				}
			}
			f.TN = spell(r, g)
			if used[f.TN] {
				f.TN = ""
			}
			if f.TN == "" && r.Intn(2) == 0 {
				f.GN = []string{"Ks", "KS", "AA", "Z", "K", "SS", "S", "E"}[i%8]
			}
			for used[f.GN] {
				f.GN += "x"
			}
			if f.TN == "" {
				f.Tagged = r.Intn(2) == 0
				used[f.GN] = true
			} else {
				used[f.TN] = true
			}
			used["go:"+f.GN] = true
			groups = append(groups, g)
			fs = append(fs, f)
		}
		// Go names have to be unique
		gn := map[string]bool{}
		for i := range fs {
			for gn[fs[i].GN] {
				fs[i].GN += "y"
			}
			gn[fs[i].GN] = true
		}
		ty := structOf(fs)
		dest := ty
		var x []byte
		g := &docGen{r: r, ws: []int{0, 4}[r.Intn(2)]}
		x = append(x, '{')
		m := 1 + r.Intn(6)
		for k := 0; k < m; k++ {
			if k > 0 {
				x = append(x, ',')
			}
			var key string
			i := r.Intn(n)
			switch r.Intn(8) {
			case 0:
				key = fs[i].TN
				if key == "" {
					key = fs[i].GN
				}
			case 1:
				key = g.foldCase(fs[i].GN)
			case 2:
				key = spell(r, randFoldName(r, 1+r.Intn(3)))
			case 3: // near misses
				key = spell(r, groups[i])
				if len(key) > 0 {
					b := []byte(key)
					p := r.Intn(len(b))
					switch r.Intn(4) {
					case 0:
						b[p] ^= 0x20
					case 1:
						b = append(b, "k"...)
					case 2:
						b = b[:p]
					case 3:
						b[p] = byte(r.Intn(256))
					}
					key = string(b)
					if !okFold(key) {
						key = "`"
					}
				}
			default:
				key = spell(r, groups[i])
				if groups[i] == nil {
					key = g.foldCase(fs[i].GN)
				}
			}
			x = append(g.sp(x), randStrLit(r, key)...)
			x = append(g.sp(x), ':')
			switch r.Intn(10) {
			case 0:
				x = g.any(g.sp(x), 2)
			default:
				x = append(g.sp(x), strconv.Itoa(k+1)...)
			}
		}
		x = append(x, '}')
		if r.Intn(4) == 0 {
			dest = sliceOf(ty)
			x = append(append([]byte{'['}, x...), ']')
		}
		cfg := decCfg{cs: r.Intn(3) == 0, duf: r.Intn(3) == 0}
		doDecode(c, dest, x, cfg, r.Intn(3) == 0, decModes[r.Intn(len(decModes))], nil)
	}
}

// only code points whose folding the specification tabulates
func okFold(s string) bool {
	for _, c := range s {
		if c == utf8.RuneError {
			continue
		}
		ok := c < 0x80
		for _, g := range foldGroups {
			for _, x := range g {
				ok = ok || x == c
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------- C19

// exact is the exact decimal expansion of m x 2^k: digits and power of ten
func exact(m *big.Int, k int) ([]byte, int) {
	m = new(big.Int).Set(m)
	for k < 0 && m.Bit(0) == 0 && m.Sign() != 0 {
		m.Rsh(m, 1)
		k++
	}
	if k >= 0 {
		return []byte(m.Lsh(m, uint(k)).String()), 0
	}
	f := new(big.Int).Exp(big.NewInt(5), big.NewInt(int64(-k)), nil)
	return []byte(m.Mul(m, f).String()), k
}

// interval describes the rounding interval of |f| for floats of w bits: the
// midpoints to its neighbours
func interval(f float64, w int) M {
	var bits uint64
	mant, bias := uint(52), 1075
	if w == 32 {
		bits = uint64(math.Float32bits(float32(math.Abs(f))))
		mant, bias = 23, 150
	} else {
		bits = math.Float64bits(math.Abs(f))
	}
	split := func(b uint64) (*big.Int, int) { // value = m x 2^k
		e := int(b >> mant)
		m := b & (1<<mant - 1)
		if e == 0 {
			e = 1
		} else {
			m |= 1 << mant
		}
		return new(big.Int).SetUint64(m), e - bias
	}
	mid := func(a, b uint64) ([]byte, int) { // of consecutive floats a < b
		ma, ka := split(a)
		mb, kb := split(b)
		mb.Lsh(mb, uint(kb-ka))
		return exact(ma.Add(ma, mb), ka-1)
	}
	it := M{"neg": math.Signbit(f), "zero": bits == 0, "even": bits&1 == 0, "lo": B{}, "loe": 0}
	if bits != 0 {
		d, e := mid(bits-1, bits)
		it["lo"], it["loe"] = B(d), e
	}
	d, e := mid(bits, bits+1)
	it["hi"], it["hie"] = B(d), e
	return it
}

// floatText is a number text near something interesting of floats of w bits
func floatText(r *rand.Rand, w int) []byte {
	var bits uint64
	mant := uint(52)
	if w == 32 {
		mant = 23
		bits = uint64(r.Uint32()) & 0x7fffffff
	} else {
		bits = r.Uint64() >> 1
	}
	maxE := uint64(1)<<(uint(w)-1-mant) - 1
	k := r.Intn(6)
	if w == 64 && k != 1 && r.Intn(3) != 0 { // (their expansions are long)
		k = 1
	}
	switch k {
	case 0: // subnormal
		bits &= 1<<mant - 1
		bits >>= uint(r.Intn(int(mant)))
	case 1: // moderate
		e := maxE/2 + uint64(r.Intn(100)) - 50
		bits = bits&(1<<mant-1) | e<<mant
	case 2: // few bits
		bits = bits >> mant << mant
		bits |= 1 << uint(r.Intn(int(mant)))
	case 3: // powers of two
		bits = bits >> mant << mant
	}
	if bits>>mant >= maxE {
		bits = maxE<<mant - 1 - uint64(r.Intn(3)) // the greatest ones
	}
	val := func(b uint64) float64 {
		if w == 32 {
			return float64(math.Float32frombits(uint32(b)))
		}
		return math.Float64frombits(b)
	}
	iv := interval(val(bits), w)
	mk := func(d B, e int) []byte { // spell digits x 10^e
		out := append([]byte{}, d...)
		if r.Intn(2) == 0 || e > 0 || -e > 400 || len(d)+e > 400 {
			if len(out) > 1 && r.Intn(2) == 0 {
				n := 1 + r.Intn(len(out)-1)
				e += len(out) - n
				out = append(out[:n:n], append([]byte{'.'}, out[n:]...)...)
			}
			if e != 0 || r.Intn(4) == 0 {
				out = append(out, "eE"[r.Intn(2)])
				if e >= 0 && r.Intn(2) == 0 {
					out = append(out, '+')
				}
				out = strconv.AppendInt(out, int64(e), 10)
			}
			return out
		}
		for len(out) <= -e {
			out = append([]byte{'0'}, out...)
		}
		if e < 0 {
			out = append(out[:len(out)+e:len(out)+e], append([]byte{'.'}, out[len(out)+e:]...)...)
		}
		return out
	}
	// near a midpoint: exactly, a little more, a little less
	near := func(d B, e int) []byte {
		d = append(B{}, d...)
		switch r.Intn(4) {
		case 0:
		case 1:
			n := r.Intn(30)
			if r.Intn(8) == 0 {
				n = r.Intn(300)
			}
			// strconv misplaces the point of more than 800 digits without one
			if len(d)+n > 780 {
				n = 0
			}
			d = append(append(d, bytes.Repeat([]byte{'0'}, n)...), '1')
			e -= n + 1
		case 2: // less: ...x -> ...(x-1)999
			m, _ := new(big.Int).SetString(string(d), 10)
			m.Sub(m, big.NewInt(1))
			n := r.Intn(20)
			if len(d)+n > 780 {
				n = 0
			}
			d = append(B(m.String()), bytes.Repeat([]byte{'9'}, n)...)
			e -= n
		case 3: // cut
			n := 1 + r.Intn(len(d))
			if n > 25 {
				n = 1 + r.Intn(25)
			}
			e += len(d) - n
			d = d[:n]
		}
		for len(d) > 1 && d[0] == '0' {
			d = d[1:]
		}
		return mk(d, e)
	}
	var t []byte
	switch r.Intn(5) {
	case 0:
		t = strconv.AppendFloat(nil, val(bits), "efg"[r.Intn(3)], -1, w)
	case 1:
		t = strconv.AppendFloat(nil, val(bits), "ef"[r.Intn(2)], r.Intn(20), 64)
	case 2:
		if len(iv["lo"].(B)) > 0 {
			t = near(iv["lo"].(B), iv["loe"].(int))
		} else {
			t = near(iv["hi"].(B), iv["hie"].(int))
		}
	case 3:
		t = near(iv["hi"].(B), iv["hie"].(int))
	case 4:
		t = randNumText(r)
	}
	if len(t) > 0 && t[0] != '-' && r.Intn(3) == 0 {
		t = append([]byte{'-'}, t...)
	}
	return t
}

var badFloats = []string{"1.", ".5", "+1", "1e", "1e+", "1e-", "0x1p3", "0x10", "Inf", "-Inf", "NaN", "nan", "infinity", "1_000", "00", "01", "-01", "-", "--1", "1e5.5", "1.5.5", "1e5e5", "1 2",
	"1f", "1.5f", "-.5", "- 1", "1,5", "1.e5", "0e", "1e400", "-1e400", "1e309", "1e39", "1e-400", "1e99999999999999999999", "1e-99999999999999999999", "0e99999999999999999999", "-0", "0.0", "-0.0e5", "0e-5",
	"1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "3.4028235e38", "3.4028236e38", "3.40282356e38", "3.40282357e38", "16777217", "16777216.5", "9007199254740993", "5e-324", "2e-324", "3e-324", "2.4703282292062327e-324", "2.4703282292062328e-324", "1e-45", "7e-46", "8e-46"}

var floatVias = []string{"val", "reader", "elem", "step", "quoted", "ptr", "any", "mapval", "read"}
var keptVias = []string{"num", "numval", "numany", "numread", "numquoted"}

func readFloat(r *rand.Rand, w int, via string, t string) (out string, f float64, kept string) {
	dst := reflect.New([]reflect.Type{rtOf(float64(0)), rtOf(NFloat(0))}[r.Intn(2)])
	if w == 32 {
		dst = reflect.New([]reflect.Type{rtOf(float32(0)), rtOf(NFloat32(0))}[r.Intn(2)])
	}
	rt := dst.Type().Elem()
	var o interface{}
	step := func(x string) *jzon.Iterator {
		it := decCfgs[decCfg{un: w == 0}].NewIterator()
		if r.Intn(2) == 0 {
			it.ResetBytes([]byte(x))
		} else {
			it.Reset(&pieceReader{pieces: randPieces(r, []byte(x)), end: ioEOF, endWith: r.Intn(2) == 0})
		}
		return it
	}
	closed := func(it *jzon.Iterator) error {
		more, err := it.ReadArrayMore()
		if err == nil && more {
			return fmt.Errorf("more")
		}
		return err
	}
	out, _ = guard(func() (err error) {
		switch via {
		case "val":
			err = jzon.Unmarshal([]byte(t), dst.Interface())
			f = dst.Elem().Float()
		case "reader":
			err = jzon.UnmarshalFromReader(&pieceReader{pieces: randPieces(r, []byte(" "+t)), end: ioEOF, endWith: r.Intn(2) == 0}, dst.Interface())
			f = dst.Elem().Float()
		case "elem":
			s := reflect.New(reflect.ArrayOf(2, rt))
			if err = jzon.Unmarshal([]byte("["+t+" , "+t+"]"), s.Interface()); err != nil {
				return err
			}
			f = s.Elem().Index(r.Intn(2)).Float()
		case "ptr":
			p := reflect.New(dst.Type())
			if err = jzon.Unmarshal([]byte(t+"\n"), p.Interface()); err != nil {
				return err
			}
			f = p.Elem().Elem().Float()
		case "mapval":
			m := reflect.New(reflect.MapOf(rtOf(""), rt))
			if err = jzon.Unmarshal([]byte(`{"k":`+t+`}`), m.Interface()); err != nil {
				return err
			}
			f = m.Elem().MapIndex(reflect.ValueOf("k")).Float()
		case "quoted":
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: rt, Tag: `json:"a,string"`}}))
			if err = jzon.Unmarshal([]byte(`{"a":"`+t+`"}`), st.Interface()); err != nil {
				return err
			}
			f = st.Elem().Field(0).Float()
		case "any":
			if err = jzon.Unmarshal([]byte(t), &o); err != nil {
				return err
			}
			f = o.(float64)
		case "step", "read":
			it := step("[" + t + "]")
			defer it.Release()
			it.ReadArrayBegin()
			switch {
			case via == "read":
				if o, err = it.Read(); err == nil {
					f = o.(float64)
				}
			case w == 32:
				var f32 float32
				f32, err = it.ReadFloat32()
				f = float64(f32)
			default:
				f, err = it.ReadFloat64()
			}
			if err != nil {
				return err
			}
			return closed(it)
		case "num", "numread":
			it := step("[ " + t + "]")
			defer it.Release()
			it.ReadArrayBegin()
			if via == "num" {
				var n jzon.Number
				n, err = it.ReadNumber()
				kept = string(n)
			} else if o, err = it.Read(); err == nil {
				kept = reflect.ValueOf(o).String()
			}
			if err != nil {
				return err
			}
			return closed(it)
		case "numval":
			var n json.Number
			err = jzon.Unmarshal([]byte(t), &n)
			kept = string(n)
		case "numany":
			if err = decCfgs[decCfg{un: true}].UnmarshalFromReader(&pieceReader{pieces: randPieces(r, []byte(t)), end: ioEOF}, &o); err == nil {
				kept = reflect.ValueOf(o).String()
			}
		case "numquoted":
			var s struct {
				A json.Number `json:"a,string"`
			}
			err = jzon.Unmarshal([]byte(`{"a":"`+t+`"}`), &s)
			kept = string(s.A)
		}
		return err
	})
	return
}

func init() {
	profiles["floats"] = func(c *ctx) {
		r := c.r
		w := []int{32, 64, 64, 0}[c.i%4]
		var via string
		switch w {
		case 0:
			via = keptVias[c.i/4%len(keptVias)]
		default:
			for via = ""; via == "" || w == 32 && (via == "any" || via == "read"); {
				via = floatVias[r.Intn(len(floatVias))]
			}
		}
		var texts []string
		texts = append(texts, badFloats[c.i%len(badFloats)], badFloats[r.Intn(len(badFloats))])
		for k := 0; k < 28; k++ {
			t := floatText(r, []int{32, 64}[r.Intn(2)])
			if w != 0 && r.Intn(8) != 0 {
				t = floatText(r, w)
			}
			if r.Intn(30) == 0 {
				t = mutate(r, t)
			}
			texts = append(texts, string(t))
		}
		items := []interface{}{}
		for _, t := range texts {
			if strings.ContainsAny(t, "\"\\") || strings.TrimSpace(t) != t || t == "" || strings.ContainsAny(t, "[]{}:,nt") {
				continue
			}
			out, f, kept := readFloat(r, w, via, t)
			it := M{"t": B(t), "out": out}
			if out == "ok" && w == 0 {
				it["y"] = B(kept)
			} else if out == "ok" {
				if math.IsNaN(f) || math.IsInf(f, 0) {
					c.bad("%q read as float%d (%s): %v", t, w, via, f)
					continue
				}
				for k, v := range interval(f, w) {
					it[k] = v
				}
			}
			items = append(items, it)
		}
		c.countN("texts", len(items))
		c.emit(M{"kind": "flts", "w": w, "via": via, "items": items})
	}
}

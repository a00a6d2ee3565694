package main

import (
	"encoding/json"
	"os"
	"strings"
	"sync"
)

// The JSON text machine, as exported from JsonText.tla by TLC.
type trans struct {
	next uint8
	op   byte
}

var (
	pdaTab  [64][4][256]trans // ctl, top, byte
	pdaName []string
	pdaID   = map[string]uint8{}
	pdaDone [64]bool // a complete top-level value may end here
	pdaVal  uint8
	pdaErr  uint8
	tops    = "EAOK"
)

func loadTable(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(harnessError(err.Error()))
	}
	var ts []struct {
		Ctl  []string    `json:"ctl"`
		Done []string    `json:"done"`
		Tab  [][][][]int `json:"tab"` // [ctl][top][byte] = <<ctl index, op>>
	}
	if err := json.Unmarshal(b, &ts); err != nil {
		panic(harnessError(err.Error()))
	}
	t := ts[0]
	pdaName = t.Ctl
	for i, n := range t.Ctl {
		pdaID[n] = uint8(i)
	}
	for _, n := range t.Done {
		pdaDone[pdaID[n]] = true
	}
	pdaVal, pdaErr = pdaID["val"], pdaID["err"]
	for c := range t.Tab {
		for tp := range t.Tab[c] {
			for by := range t.Tab[c][tp] {
				e := t.Tab[c][tp][by]
				pdaTab[c][tp][by] = trans{uint8(e[0] - 1), "-PAOK"[e[1]]}
			}
		}
	}
}

type pda struct {
	c   uint8
	stk []byte
}

func newPDA() *pda { return &pda{c: pdaVal} }

func topIx(stk []byte) int {
	if len(stk) == 0 {
		return 0
	}
	switch stk[len(stk)-1] {
	case 'A':
		return 1
	case 'O':
		return 2
	}
	return 3
}

func (p *pda) step(b byte) {
	t := pdaTab[p.c][topIx(p.stk)][b]
	p.c = t.next
	switch t.op {
	case '-':
	case 'P':
		p.stk = p.stk[:len(p.stk)-1]
	default:
		p.stk = append(p.stk, t.op)
	}
}

func (p *pda) accepting() bool { return len(p.stk) == 0 && pdaDone[p.c] }

// accepts: is x a JSON text?
func accepts(x []byte) bool {
	p := pda{c: pdaVal}
	for _, b := range x {
		p.step(b)
		if p.c == pdaErr {
			return false
		}
	}
	return p.accepting()
}

// firstValue runs the machine on x until the first value is complete.
// It returns the extent of the value (begin, end) and
//
//	"ok"    the value is complete (a number may need to be ended by a byte
//	        which cannot continue it, or by the end of the text)
//	"short" the text ends before the value is complete
//	"bad"   no value can start like this
//
// extent end is exclusive.
func firstValue(x []byte) (begin, end int, st string) {
	p := pda{c: pdaVal}
	begin = -1
	for i, b := range x {
		if begin < 0 && p.c == pdaVal && (b == ' ' || b == '\t' || b == '\n' || b == '\r') {
			continue
		}
		if begin < 0 {
			begin = i
		}
		// a number at top level ends before a byte which cannot continue it
		if len(p.stk) == 0 && pdaDone[p.c] {
			t := pdaTab[p.c][0][b]
			if pdaName[p.c] == "end" || t.next == pdaErr || pdaName[t.next] == "end" {
				return begin, i, "ok"
			}
		}
		p.step(b)
		if p.c == pdaErr {
			return begin, i, "bad"
		}
	}
	if begin < 0 {
		return len(x), len(x), "short"
	}
	if p.accepting() {
		return begin, len(x), "ok"
	}
	return begin, len(x), "short"
}

// classes has one representative of every set of bytes the machine treats
// alike, and the other members of the set
var (
	classRep  []byte
	classMem  [][]byte
	classOnce sync.Once
)

func classes() ([]byte, [][]byte) {
	classOnce.Do(func() {
		ix := map[string]int{}
		for b := 0; b < 256; b++ {
			var sb strings.Builder
			for c := range pdaName {
				for t := 0; t < 4; t++ {
					e := pdaTab[c][t][b]
					sb.WriteByte(e.next)
					sb.WriteByte(e.op)
				}
			}
			k := sb.String()
			j, ok := ix[k]
			if !ok {
				j = len(classRep)
				ix[k] = j
				classRep = append(classRep, byte(b))
				classMem = append(classMem, nil)
			}
			classMem[j] = append(classMem[j], byte(b))
		}
		// prefer readable representatives
		for j, m := range classMem {
			for _, b := range m {
				if b == ' ' || b == 'a' || b == '5' {
					classRep[j] = b
				}
			}
			_ = m
		}
	})
	return classRep, classMem
}

// config is a reachable configuration of the machine with an access text
type config struct {
	c      uint8
	stk    string
	access []byte
	compl  []byte // a text which completes it
}

// configs explores the machine up to the given nesting
func configs(depth int) []*config {
	rep, _ := classes()
	type key struct {
		c   uint8
		stk string
	}
	seen := map[key]*config{}
	start := &config{c: pdaVal}
	seen[key{pdaVal, ""}] = start
	list := []*config{start}
	for n := 0; n < len(list); n++ {
		cf := list[n]
		for _, b := range rep {
			p := pda{c: cf.c, stk: []byte(cf.stk)}
			p.step(b)
			if p.c == pdaErr || len(p.stk) > depth {
				continue
			}
			k := key{p.c, string(p.stk)}
			if seen[k] != nil {
				continue
			}
			nc := &config{c: p.c, stk: string(p.stk), access: append(append([]byte{}, cf.access...), b)}
			seen[k] = nc
			list = append(list, nc)
		}
	}
	for _, cf := range list {
		cf.compl = completion(cf.c, cf.stk)
	}
	return list
}

// completion finds a shortest text which leads to acceptance
func completion(c uint8, stk string) []byte {
	rep, _ := classes()
	type node struct {
		p   pda
		txt []byte
	}
	q := []node{{p: pda{c: c, stk: []byte(stk)}}}
	seen := map[string]bool{}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		if n.p.accepting() {
			return n.txt
		}
		for _, b := range rep {
			p := pda{c: n.p.c, stk: append([]byte{}, n.p.stk...)}
			p.step(b)
			if p.c == pdaErr || len(p.stk) > len(stk)+1 {
				continue
			}
			k := string(append([]byte{p.c}, p.stk...))
			if seen[k] {
				continue
			}
			seen[k] = true
			q = append(q, node{p, append(append([]byte{}, n.txt...), b)})
		}
	}
	panic(harnessError("no completion"))
}

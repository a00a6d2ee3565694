"""Writes harness/types_structs.go: families of struct types which embed each
other (see StructFields.tla).  reflect.StructOf cannot make unexported
embeddings, types which contain themselves, or aliases, so these are static."""
import random, os

rnd = random.Random(20261118)
NFAM = 260
out = ["// Code generated by tools/genstructs.py; DO NOT EDIT.", "", "package main", "",
       'import "reflect"', ""]
roots = []
GO = ["A", "B", "C", "D", "Ab", "a", "b", "é", "É"]
TAGS = ["A", "B", "C", "a", "b", "x", "é", "Ab", "-", "-,", "", ",omitempty", ",string", "a,omitempty", "b,omitempty,string",
        "x, omitempty", "B,string,omitempty", "a'b", 'b;c', "A,OmitEmpty", "a b", "x/y", "€", "K", "k,", ",,omitempty", "C,omitemptystring"]
LEAF = ["int"] * 12 + ["string", "bool", "*int", "[]int", "interface{}", "float64", "map[string]int", "*string", "uint8", "**int", "[2]int", "struct{}", "*struct{ A int }"]
# exported and unexported types without fields to embed
SCAL = ["NInt", "NString", "nint", "nstr", "*NInt", "*nint", "NBytes", "NamedAny"]


def tag():
    t = []
    for key, p in (("json", 0.55), ("api", 0.25)):
        if rnd.random() < p:
            t.append('%s:"%s"' % (key, rnd.choice(TAGS)))
    return " `%s`" % " ".join(t) if t else ""


def exported(n):
    return n[0].isupper()


out += ["type (", "\tnint int", "\tnstr string", ")", ""]
for fam in range(NFAM):
    n = rnd.choice([2, 2, 3, 3, 4, 5, 6])
    names = []
    for i in range(n):
        letter = "ABCDEF"[i]
        names.append(("E" if rnd.random() < 0.65 else "e") + "%d%s" % (fam, letter))
    names[0] = "E%dA" % fam
    aliases = {}
    acyclic = rnd.random() < 0.6   # (aliases in type cycles do not compile with older compilers)
    for i in range(1, n):
        if acyclic and rnd.random() < 0.5:
            al = ("L" if rnd.random() < 0.7 else "l") + "%d%s" % (fam, "ABCDEF"[i])
            aliases[i] = al
            out.append("type %s = %s" % (al, names[i]))
    for i in range(n):
        out.append("type %s struct {" % names[i])
        used = set()
        rows = []
        for _ in range(rnd.choice([1, 2, 2, 3, 4])):
            g = rnd.choice(GO)
            if g in used:
                continue
            used.add(g)
            rows.append("\t%s %s%s" % (g, rnd.choice(LEAF), tag()))
        for _ in range(rnd.choice([0, 1, 1, 2, 2, 3])):
            if rnd.random() < 0.12:
                s = rnd.choice(SCAL)
                g = s.lstrip("*")
                if g in used:
                    continue
                used.add(g)
                rows.append("\t%s%s" % (s, tag() if rnd.random() < .5 else ""))
                continue
            ptr = rnd.random() < 0.45
            j = rnd.randrange(n) if ptr and not acyclic else (rnd.randrange(i + 1, n) if i + 1 < n else None)
            if j is None:
                continue
            t = names[j]
            if j in aliases and rnd.random() < 0.5:
                t = aliases[j]
            if t in used:
                continue
            used.add(t)
            rows.append("\t%s%s%s" % ("*" if ptr else "", t, tag() if rnd.random() < .2 else ""))
        if i == 0 and fam >= 200:   # PAD: structs of more than ten members are searched otherwise
            for k in range(rnd.choice([5, 8, 9, 10, 12, 15])):
                rows.append("\tP%d %s%s" % (k, rnd.choice(LEAF), rnd.choice(["", "", ' `json:"p%d"`' % (k ^ 1), ' `json:"q%d,omitempty"`' % k])))
        rnd.shuffle(rows)
        out += rows
        out += ["}", ""]
    roots += names[:1]
    if n > 3:
        roots.append(names[1])
out.append("var structRoots = []reflect.Type{")
for r in roots:
    out.append("\trtOf(%s{})," % r)
out += ["}", ""]
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "types_structs.go")
open(p, "w").write("\n".join(out))

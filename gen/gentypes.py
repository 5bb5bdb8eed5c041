#!/usr/bin/env python3
"""Generates Go sources for the harness: types (from a seed) and a dictionary of the
literals of the code under test. usage: gentypes.py SEED OUTDIR REPO [NSTRUCT] [NMARSH]"""
import sys, os, re, random, glob

seed, out, repo = int(sys.argv[1]), sys.argv[2], sys.argv[3]
NSTRUCT = int(sys.argv[4]) if len(sys.argv) > 4 else 260
NMARSH = int(sys.argv[5]) if len(sys.argv) > 5 else 170
NDAG, MAXPATHS = 30, 40
R = random.Random("types-%d" % seed)

# ---------------------------------------------------------------- marshaler types
KINDS = [
    ("Int", "int"), ("Str", "string"), ("St", "struct { A int; B string }"), ("StP", "struct { p *int }"),
    ("Map", "map[string]int"), ("Sl", "[]int"), ("ArP", "[1]*int"), ("Ar", "[3]byte"), ("By", "uint8"),
    ("Fn", "func()"), ("Ch", "chan int"), ("Nil", "struct{}"), ("Fl", "float64"), ("Bo", "bool"),
    ("StM", "struct { M map[string]int }"), ("Ar0", "[0]int"), ("Bs", "[]byte"), ("StI", "struct { I interface{}; N int }"),
    ("Big", "struct { A [5]int64; B string; C *string }"), ("I8", "int8"), ("StPP", "struct { q struct { p *string } }"),
    ("Up", "struct { P unsafe.Pointer }"), ("FnS", "struct { f func() }"), ("FnA", "[1]func()"), ("ChS", "struct { c chan int }"),
    ("MapA", "[1]map[string]int"), ("FnSA", "struct { a [1]struct { f func() } }"),
]
IF = [("AppendJSONContext", "C"), ("AppendJSON", "A"), ("MarshalJSON", "J"), ("MarshalText", "T")]
def combos():
    std, other = [], []
    for c in "nvp":
        for a in "nvp":
            for j in "nvp":
                for t in "nvp":
                    s = c + a + j + t
                    if s == "nnnn": continue
                    (std if c == "n" and a == "n" else other).append(s)
    return std, other
STD, OTHER = combos()
pairs = []
for k in range(len(KINDS)):
    for s in STD:
        pairs.append((k, s))
rest = [(k, s) for k in range(len(KINDS)) for s in OTHER]
R.shuffle(rest)
# every kind with each interface alone, by value and by pointer
base = [(k, s) for k in range(len(KINDS)) for s in ("vnnn", "pnnn", "nvnn", "npnn")]
sel = pairs + base + [x for x in rest if x not in base][:NMARSH]
o = ["package main", "", 'import ("context"; "reflect"; "unsafe")', "", "var _ unsafe.Pointer", ""]
names = []
for k, s in sel:
    kn, kt = KINDS[k]
    n = "M%s_%s" % (kn, s)
    names.append(n)
    o.append("type %s %s" % (n, kt))
    for (m, _), r in zip(IF, s):
        if r == "n": continue
        star = "*" if r == "p" else ""
        if m == "AppendJSONContext":
            sig, call = "(ctx context.Context, b []byte) ([]byte, error)", "return mAppendCtx(%s, x, ctx, b)"
        elif m == "AppendJSON":
            sig, call = "(b []byte) ([]byte, error)", "return mAppend(%s, x, b)"
        elif m == "MarshalJSON":
            sig, call = "() ([]byte, error)", "return mJSON(%s, x)"
        else:
            sig, call = "() ([]byte, error)", "return mText(%s, x)"
        o.append("func (x %s%s) %s%s { %s }" % (star, n, m, sig, call % ('"' + n + '"')))
o.append("func init() {")
o.append("\tmarshTypes = append(marshTypes, []reflect.Type{")
for n in names:
    o.append("\t\treflect.TypeOf((*%s)(nil)).Elem()," % n)
o.append("\t}...)\n}")
open(os.path.join(out, "gen_marsh.go"), "w").write("\n".join(o) + "\n")

# ---------------------------------------------------------------- struct types
LEAF = ["int", "string", "bool", "int8", "uint16", "float64", "*int", "*string", "[]int", "map[string]int", "interface{}",
        "[2]int8", "MyInt", "MyString", "MyBool", "*MyInt", "json.Number", "time.Duration", "time.Time", "json.RawMessage", "[]byte",
        "[3]byte", "float32", "uint8", "int64", "struct{}", "[0]int", "**int", "struct{ A, B int }", "*struct{ C string }", "error", "TextStr", "JSONInt", "*JSONInt",
        "JSONPtr", "TextPtr", "*TextPtr"]
NAMES = ["A", "B", "C", "D", "E", "Foo", "Bar", "Baz", "Aa", "X1"]
TAGN = ["A", "B", "C", "a", "b", "foo", "Bar", "x-y", "é", "<&>", "E", "", "", "1", "A.b", "~!", "Foo", "a b", "a;b", "世", "\U00010400x", "\u0663", "e\u0301", "\u2167", "\u00aa", "\ud55c\uae00", "\U0001d7d8"]
OPTS = ["", "", "", "", ",omitempty", ",string", ",omitempty,string", ",string,omitempty", ",foo", ",omitempty "]
NIL = [",omitnil", ",omitnil,omitempty", ",omitempty,omitnil"]
EMBNON = ["MyInt", "MyString", "MyBool", "myHidden", "MyBytes", "MyMap", "fmt.Stringer", "error", "*MyInt", "time.Duration", "json.Number", "MyIface", "MySlice"]
EMBMARSH = ["time.Time", "JSONInt", "*JSONPtr", "TextStr", "*TextPtr", "json.RawMessage", "JSONPtr"]

def tag(nil_ok):
    r = R.random()
    if r < 0.4: return ""
    if r < 0.46: return ' `json:"-"`'
    if r < 0.48: return ' `json:"-,"`'
    n = R.choice(TAGN); op = R.choice(OPTS)
    if nil_ok and R.random() < 0.4: op = R.choice(NIL)
    if n == "" and op == "": return ""
    return ' `json:"%s%s"`' % (n, op)

def base(t):
    t = t.lstrip("*")
    return t.split(".")[-1]

o = ["package main", "", 'import ("encoding/json"; "fmt"; "reflect"; "time")', "",
     "var (_ json.Number; _ fmt.Stringer; _ time.Time)", ""]
types = []
LATE = int(0.88 * NSTRUCT)    # only these may embed marshalers, which are promoted
def tname(i, exported): return ("G%d" if exported else "g%d") % i
exp = [R.random() < 0.65 for _ in range(NSTRUCT)]
# The compiler takes time in proportion to the number of paths through embedded
# fields, which is limited here: MAXDOWN without forward references, and MAXALL
# with them.
MAXDOWN, MAXALL = 400, 3000
edges, down = [set() for _ in range(NSTRUCT)], [1] * NSTRUCT
def npaths(i, on):
    n = 1
    on.add(i)
    for j in edges[i]:
        if j not in on and n <= MAXALL: n += npaths(j, on)
    on.discard(i)
    return n
forward, allfields = [], []
for i in range(NSTRUCT):
    nil_ok = R.random() < 0.2
    pure = R.random() < 0.5          # only structs and scalars: deep embedding graphs
    used, fields = set(), []
    nf = R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8]) if i > 3 else 3
    if R.random() < 0.03: nf = 70
    for f in range(nf):
        r = R.random()
        if r < 0.42 and i > 0:
            lo = max(0, i - R.choice([2, 3, 5, 12, 60]))
            j = R.randrange(lo, i)
            ptr = R.random() < 0.4
            if R.random() < 0.06:    # forward or self reference, through a pointer
                j, ptr = R.randrange(i, max(i + 1, LATE)), True
            n = tname(j, exp[j])
            if n in used: continue
            used.add(n)
            tg = ""
            if R.random() < 0.12: tg = tag(nil_ok)
            if j >= i:
                forward.append((i, j, len(fields)))
            elif down[i] + down[j] > MAXDOWN:
                continue
            else:
                down[i] += down[j]
                edges[i].add(j)
            fields.append("\t%s%s%s" % ("*" if ptr else "", n, tg))
        elif r < 0.47:
            t = R.choice(EMBNON)
            n = base(t)
            if n in used: continue
            used.add(n)
            fields.append("\t%s%s" % (t, tag(nil_ok) if R.random() < 0.3 else ""))
        elif r < 0.60 and i >= LATE and f == 0:
            t = R.choice(EMBMARSH)
            n = base(t)
            if n in used: continue
            used.add(n)
            fields.append("\t%s%s" % (t, tag(nil_ok) if R.random() < 0.5 else ""))
        elif r < 0.54:
            n = R.choice(["a", "b", "hid", "foo", "_"])
            if n in used and n != "_": continue
            used.add(n)
            fields.append("\t%s %s%s" % (n, R.choice(LEAF), tag(nil_ok) if R.random() < 0.3 else ""))
        elif r < 0.60 and i > 2:
            n = R.choice(NAMES)
            if n in used: continue
            used.add(n)
            j = R.randrange(0, NSTRUCT)
            w = R.choice(["*%s", "[]%s", "map[string]%s", "[]*%s"] + (["%s", "[2]%s", "[1]%s"] if j < i else []))
            fields.append("\t%s %s%s" % (n, w % tname(j, exp[j]), tag(nil_ok)))
        else:
            n = R.choice(NAMES) if nf < 20 else "F%d" % f
            if n in used: continue
            used.add(n)
            fields.append("\t%s %s%s" % (n, R.choice(LEAF[:12] if pure else LEAF), tag(nil_ok)))
    allfields.append(fields)
    types.append(tname(i, exp[i]))
for i, j, k in forward:
    edges[i].add(j)
    if any(npaths(x, set()) > MAXALL for x in range(NSTRUCT)):
        edges[i].discard(j)
        allfields[i][k] = None
for n, fields in zip(types, allfields):
    o.append("type %s struct {\n%s\n}" % (n, "\n".join(x for x in fields if x is not None)))
# Families of embedding graphs: a few layers of types that embed types of the
# layers below, directly or through pointers, with fields of few names.
# The number of paths is limited: the compiler takes exponential time.
dags, paths = [], {}
for k in range(NDAG):
    layers, leaf = [], R.sample(["A", "B", "C", "Foo", "Aa"], R.choice([1, 2, 2, 3]))
    for d in range(R.choice([3, 3, 4, 5, 6])):
        layer = []
        for w in range(R.choice([1, 2, 2, 3, 4])):
            n, used, fields = "%s%d_%d_%d" % (R.choice("DDDDd"), k, d, w), set(), []
            low = [t for l in layers[:-1] for t in l]
            emb = (R.sample(layers[-1], min(len(layers[-1]), R.choice([1, 1, 2, 2, 3]))) if d else []) + (R.sample(low, 1) if low and R.random() < 0.2 else [])
            while sum(paths[e] for e in emb) > MAXPATHS: emb.pop()
            paths[n] = 1 + sum(paths[e] for e in emb)
            for e in emb:
                fields.append("\t%s%s" % (R.choice(["", "", "*"]), e))
            if not emb or R.random() < 0.3:
                for f in R.sample(leaf, R.randrange(1, len(leaf) + 1)):
                    fields.append("\t%s %s%s" % (f, R.choice(["int", "string", "*int", "bool"]), R.choice(["", "", "", ' `json:"%s"`' % R.choice(leaf + ["x"])])))
            R.shuffle(fields)
            o.append("type %s struct {\n%s\n}" % (n, "\n".join(fields)))
            layer.append(n)
        layers.append(layer)
    dags += layers[-1] + R.sample(layers[-2], 1)
# Chains of types which refer to the types below more than once, so that there
# are very many paths through them. They do not embed.
R2 = random.Random("chains-%d" % seed)
chains = []
for k in range(12):
    ways = R2.choice([["*"], ["[]"], ["map[string]"], ["*", "[]", "map[string]", "[]*", "map[int]*", "**", "[0]", "[2]*", "[][]", "*[]", "[0]*"]])
    depth = R2.choice([30, 45, 60])
    for d in range(depth):
        if d == 0:
            o.append("type Y%d_0 struct { X int; Y string }" % k)
            continue
        kind = R2.randrange(8) if len(ways) > 1 else 0
        low = ["Y%d_%d" % (k, max(0, d - R2.choice([1, 1, 1, 2, 3]))) for _ in range(3)]
        low[0] = "Y%d_%d" % (k, d - 1)
        if kind == 6 and d > 1:
            o.append("type Y%d_%d []struct { A %s%s; B %s%s }" % (k, d, R2.choice(ways), low[0], R2.choice(ways), low[1]))
        elif kind == 7 and d > 1:
            o.append("type Y%d_%d map[string]struct { A %s%s; B *%s; C *%s }" % (k, d, R2.choice(ways), low[0], low[1], low[0]))
        else:
            o.append("type Y%d_%d struct { A %s%s; B %s%s; C *%s }" % (k, d, R2.choice(ways), low[0], R2.choice(ways), low[0 if len(ways) < 2 else 1], low[2]))
    chains += ["Y%d_%d" % (k, d) for d in (depth - 1, depth - 2, depth // 2)]
# Types of the same name declared in different functions.
for k in range(6):
    flds = R.sample(["A int", "B string", "C *int", "A string", "D []int `json:\"A\"`", "E bool `json:\",omitempty\"`", "F map[string]int"], 2)
    if flds[0].split()[0] == flds[1].split()[0]: flds = flds[:1]
    o.append("func localType%d() reflect.Type {\n\ttype Local struct {\n\t\t%s\n\t}\n\treturn reflect.TypeOf(Local{})\n}" % (k, "\n\t\t".join(flds)))
o.append("func init() {\n\tstructTypes = append(structTypes, []reflect.Type{")
for n in types:
    o.append("\t\treflect.TypeOf((*%s)(nil)).Elem()," % n)
for k in range(6):
    o.append("\t\tlocalType%d()," % k)
o.append("\t}...)\n\tdagTypes = []reflect.Type{")
for n in dags:
    o.append("\t\treflect.TypeOf((*%s)(nil)).Elem()," % n)
o.append("\t}\n\tchainTypes = []reflect.Type{")
for n in chains:
    o.append("\t\treflect.TypeOf((*%s)(nil)).Elem()," % n)
o.append("\t}\n}")
open(os.path.join(out, "gen_structs.go"), "w").write("\n".join(o) + "\n")

# ---------------------------------------------------------------- twins
# Two packages of the same name with types of the same names, so that the
# names of different types agree; many twins differ in one respect only.
NTWIN, NTWINS = 50, 30
def method(n, m, r):
    star = "*" if r == "p" else ""
    if m == "AppendJSONContext":
        return "func (x %s%s) %s(ctx context.Context, b []byte) ([]byte, error) { return Ctx(%s, x, ctx, b) }" % (star, n, m, '"%s"' % n)
    if m == "AppendJSON":
        return "func (x %s%s) %s(b []byte) ([]byte, error) { return App(%s, x, b) }" % (star, n, m, '"%s"' % n)
    return "func (x %s%s) %s() ([]byte, error) { return %s(%s, x) }" % (star, n, m, "JSON" if m == "MarshalJSON" else "Text", '"%s"' % n)
TK = ["int", "string", "bool", "int8", "uint16", "float64", "[]int", "map[string]int", "interface{}", "[2]int8", "struct { A int; B string }", "*int", "[]byte", "[3]byte", "[1]*int", "uint64", "[0]int", "uint8"]
def meths(kind):
    if kind.startswith("*") or kind == "interface{}": return []
    return [(m, R.choice("nnvp" if m != "MarshalText" else "nvvp")) for m, _ in IF] if R.random() < 0.7 else []
kinds = [R.choice(TK) for _ in range(NTWIN)]
ms = [meths(k) for k in kinds]
TL = ["int", "string", "bool", "*int", "[]int", "interface{}", "map[string]int", "float32", "[2]byte"]
TT = ["", "", "`json:\",omitempty\"`", "`json:\"a\"`", "`json:\"b,omitempty\"`", "`json:\",string\"`", "`json:\"-\"`", "`json:\"F2\"`"]
shapes = []
def twin(pkg, first):
    o = ["package twin", "", 'import ("context"; "reflect")', "", "var (", "\tCtx func(string, interface{}, context.Context, []byte) ([]byte, error)",
         "\tApp func(string, interface{}, []byte) ([]byte, error)", "\tJSON, Text func(string, interface{}) ([]byte, error)", "\tTypes []reflect.Type", ")"]
    for i in range(NTWIN):
        k, m = kinds[i], ms[i]
        if not first:
            r = R.random()
            if r < 0.5: m = meths(k)
            elif r < 0.8:
                k = R.choice(TK)
                if k.startswith("*") or k == "interface{}": m = []
            else:
                k = R.choice(TK); m = meths(k)
        o.append("type T%d %s" % (i, k))
        o += [method("T%d" % i, a, r) for a, r in m if r != "n"]
    for i in range(NTWINS):
        if i >= 16:              # of one shape in both packages
            if first:
                shapes.append([R.choice(TL) for _ in range(R.randrange(1, 4))])
            f = ["\t%s %s %s" % (R.choice(["F%d", "F%d", "G%d", "f%d"]) % j, t, R.choice(TT)) for j, t in enumerate(shapes[i - 16])]
            o.append("type S%d struct {\n%s\n}" % (i, "\n".join(f)))
            continue
        f = ["\tF%d %s %s" % (j, R.choice(TL + ["T%d" % R.randrange(NTWIN), "*T%d" % R.randrange(NTWIN)] * 3 + ["S%d" % R.randrange(i) if i else "int"]), R.choice(TT)) for j in range(R.randrange(5))]
        if i and R.random() < 0.4: f.append("\t%sS%d" % (R.choice(["", "*"]), R.randrange(i)))
        o.append("type S%d struct {\n%s\n}" % (i, "\n".join(f)))
    o.append("func init() {\n\tTypes = []reflect.Type{")
    o += ["\t\treflect.TypeOf((*%s%d)(nil)).Elem()," % (a, i) for a, n in (("T", NTWIN), ("S", NTWINS)) for i in range(n)]
    o.append("\t}\n}")
    open(os.path.join(out, "twin%d__types.go" % pkg), "w").write("\n".join(o) + "\n")
twin(1, True)
twin(2, False)
open(os.path.join(out, "gen_twins.go"), "w").write("""package main

import (
	t1 "github.com/wI2L/jettison/zzverif/twin1"
	t2 "github.com/wI2L/jettison/zzverif/twin2"
)

func init() {
	t1.Ctx, t1.App, t1.JSON, t1.Text = mAppendCtx, mAppend, mJSON, mText
	t2.Ctx, t2.App, t2.JSON, t2.Text = mAppendCtx, mAppend, mJSON, mText
	twinTypes = append(twinTypes, t1.Types, t2.Types)
}
""")

# ---------------------------------------------------------------- dictionary
ints, strs = set(), set()
for f in sorted(glob.glob(os.path.join(repo, "*.go"))):
    b = os.path.basename(f)
    if b.endswith("_test.go") or b.startswith("verif_"): continue
    src = open(f, encoding="utf-8", errors="replace").read()
    src = re.sub(r"/\*.*?\*/", " ", src, flags=re.S)
    src = re.sub(r"(?m)^\s*//.*$", " ", src)
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"|`([^`]*)`|\'((?:[^\'\\\n]|\\.)+)\'|(?<![\w.])(0[xX][0-9a-fA-F_]+|\d[\d_]*(?:e\d+)?)(?:\s*<<\s*(\d+))?', src):
        if m.group(1) is not None: strs.add('"' + m.group(1) + '"')
        elif m.group(2) is not None:
            if "\n" not in m.group(2): strs.add("`" + m.group(2) + "`")
        elif m.group(3) is not None: strs.add("string(rune('" + m.group(3) + "'))")
        elif m.group(4):
            try:
                t = m.group(4).replace("_", "")
                v = int(float(t)) if "e" in t and not t.lower().startswith("0x") else int(t, 0) if not re.match(r"^0\d", t) else int(t, 8)
                if m.group(5): v <<= int(m.group(5))
                if abs(v) < 2**62: ints.add(v)
            except ValueError: pass
strs = [s for s in sorted(strs) if len(s) < 80]
o = ["package main", "", "func init() {", "\tdictInts = []int64{%s}" % ", ".join(str(i) for i in sorted(ints)),
     "\tdictStrings = []string{"]
o += ["\t\t%s," % s for s in strs]
o += ["\t}", "}"]
open(os.path.join(out, "gen_dict.go"), "w").write("\n".join(o) + "\n")

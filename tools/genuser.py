#!/usr/bin/env python3
"""Generates /verif/sim/userbox/types.go: a family of user-defined box types
together with declarations (specs) for the reference codec. Seeded, committed."""
import os, random
R = random.Random(20260917)
out = []
N = 140

class Scope:
    """one struct: fields in encoded order"""
    def __init__(s): s.f = []
    def add(s, **k): s.f.append(k); return k

cnt = 0
structs = []   # (go name, list of field dicts, cfo)

def goint(bits, signed):
    for w in (8, 16, 32, 64):
        if bits <= w and (w == 64 or R.random() < (.7 if bits > w//2 else .5)):
            return ("int" if signed else "uint") + (str(w) if w < 64 or R.random() < .8 else "")
    return ("int" if signed else "uint") + "64"

def scalar(name, mod, allow_hook=True):
    """returns (field, bits or None)"""
    k = R.choice(["uint"]*5 + ["int"]*3 + ["bool"]*2 + ["varint"])
    if k == "uint" or k == "int":
        bits = R.choice([8, 16, 32, 64, 24, 48, R.randint(1, 7), R.randint(1, 64), R.randint(9, 40)])
        f = dict(name=name, kind=k, go=goint(bits, k == "int"), bits=bits)
    elif k == "bool":
        bits = R.choice([1, 1, 1, 8, R.randint(1, 8), 16, 32, R.randint(9, 40)])
        f = dict(name=name, kind="bool", go="bool", bits=bits)
    else:
        f = dict(name=name, kind="varint", go="uint32", bits=0)
        bits = 32
    if allow_hook and R.random() < .3:
        h = R.choice(["prefix", "override", "peek", "bytes"])
        if k in ("bool", "varint"): h = R.choice(["prefix", "peek"])
        if h in ("peek", "bytes") and mod != 0: h = "prefix"
        f["hook"] = h
        if h == "prefix":
            f["hbits"] = R.choice([8, 16, R.randint(1, 15)]); bits += f["hbits"]
        elif h == "override":
            f["hbits"] = bits
        elif h == "bytes":
            f["hbits"] = 8 * R.randint(1, 3); bits += f["hbits"]
    return f, bits

def modadd(mod, bits):
    if mod is None or bits is None: return None
    return (mod + bits) % 8

def conds(f, full, dynok):
    """conditions; returns True when the field became optional"""
    r = R.random()
    if full and r < .12: f["opt"] = R.choice([1, 2, 4, 0x100]); return True
    if full and r < .2: f["nopt"] = R.choice([1, 2, 4, 0x100]); return True
    if full and r < .3: f["ver"] = R.randint(0, 2); return True
    if full and r < .38: f["nver"] = R.randint(0, 2); return True
    return False

def fields(full, depth, cfo, mod, n):
    """generates n logical fields; returns (list, mod)"""
    global cnt
    fs = []
    for _ in range(n):
        cnt += 1
        name = "F%d" % cnt
        kind = R.choice(["scalar"]*6 + ["string", "slice", "slice", "array", "struct", "sized", "ptr", "dynsize"])
        if depth >= 3 and kind in ("struct", "sized"): kind = "scalar"
        pre = []
        f = None; bits = None
        if kind == "scalar":
            f, bits = scalar(name, mod, cfo)
        elif kind == "dynsize" and cfo:
            w = R.choice([8, 16, 32, 64])
            sg = R.random() < .4
            pre = [dict(name=name+"Bits", kind="uint", go="uint8", bits=8, maxv=w, minv=1)]
            f = dict(name=name, kind="int" if sg else "uint", go=("int" if sg else "uint")+str(w), bits=0, dynbits=True)
        elif kind == "string":
            f = dict(name=name, kind="string", go="string", bits=0); bits = None if mod is None else 0
            if cfo and mod == 0 and R.random() < .6: f["cp"] = True
        elif kind == "slice" or kind == "array":
            el = R.choice(["byte", "byte", "named", "scalar", "struct", "string" if kind == "slice" else "byte", "ptr", "varint"])
            if depth >= 3 and el in ("struct", "ptr"): el = "byte"
            ebits = None
            if el == "byte": e = dict(name="", kind="uint", go="uint8", bits=8); ebits = 8
            elif el == "named": e = dict(name="", kind="uint", go="Octet", bits=8); ebits = 8
            elif el == "varint": e = dict(name="", kind="varint", go="uint32", bits=0); ebits = 32
            elif el == "string": e = dict(name="", kind="string", go="string", bits=0); ebits = 0
            elif el == "scalar": e, ebits = scalar("", None, False)
            else:
                sn, sf, scfo, smod = newstruct(full, depth+1, None)
                e = dict(name="", kind="struct", go=sn, bits=0, fields=sf, cfo=scfo, sub=sn); ebits = smod
                if el == "ptr": e = dict(name="", kind="ptr", go="*"+sn, bits=0, elem=e)
            f = dict(name=name, kind=kind, elem=e, bits=e["bits"])
            if kind == "array":
                f["len"] = R.randint(1, 5); f["go"] = "[%d]%s" % (f["len"], e["go"])
                bits = None if ebits is None else ebits * f["len"]
            else:
                f["go"] = "[]" + e["go"]
                if cfo and R.random() < .6:
                    pre = [dict(name=name+"Len", kind="uint", go="uint16", bits=R.choice([8, 16]), maxv=9, minv=0)]
                    f["len"] = -2; bits = 0 if ebits is not None and ebits % 8 == 0 else None
                else:
                    f["len"] = R.randint(0, 6); bits = None if ebits is None else ebits * f["len"]
        elif kind == "struct":
            sn, sf, scfo, smod = newstruct(full, depth+1, mod)
            f = dict(name=name, kind="struct", go=sn, bits=0, fields=sf, cfo=scfo, sub=sn)
            bits = smod
        elif kind == "sized":
            if mod != 0:
                f, bits = scalar(name, mod, cfo)
            else:
                cnt += 1
                ab = R.choice([16, 16, 8, 8, 4, 12])
                inner = [dict(name="A%d" % cnt, kind="uint", go="uint16", bits=ab)]
                eb = R.choice([8, 8, 4, 16, 2, 1] if ab % 8 == 0 else [4, 2, 1])
                inner.append(dict(name="B%d" % cnt, kind="slice", go="[]" + goint(eb, False), len=-1, bits=eb, elem=dict(name="", kind="uint", go=goint(eb, False), bits=eb)))
                inner[1]["go"] = "[]" + inner[1]["elem"]["go"]
                sn = "S%d" % cnt
                structs.append((sn, inner, False))
                f = dict(name=name, kind="struct", go=sn, bits=0, fields=inner, cfo=False, sub=sn)
                if cfo and R.random() < .5:
                    pre = [dict(name=name+"Bits", kind="uint", go="uint8", bits=8, maxv=15, minv=(ab+7)//8, times8=True)]
                    f["dynbits"] = True
                else:
                    f["sized"] = 8 * R.choice([n for n in (1, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9) if 8*n >= ab and (8*n-ab) % eb == 0])
                bits = 0
        elif kind == "ptr":
            sn, sf, scfo, smod = newstruct(full, depth+1, mod)
            f = dict(name=name, kind="ptr", go="*"+sn, bits=0, elem=dict(name="", kind="struct", go=sn, bits=0, fields=sf, cfo=scfo, sub=sn))
            bits = smod
        if f is None:
            f, bits = scalar(name, mod, cfo)
        for p in pre:
            fs.append(p); mod = modadd(mod, p["bits"])
        if not pre and f["kind"] != "ptr":
            if conds(f, full, cfo):
                bits = 0 if bits is not None and bits % 8 == 0 else None
            elif cfo and R.random() < .1:
                fs.append(dict(name=name+"On", kind="bool", go="bool", bits=8)); mod = modadd(mod, 8)
                f["optdyn"] = True
                if "hook" in f and f["hook"] in ("peek", "bytes") and mod != 0: del f["hook"]
                bits = 0 if bits is not None and bits % 8 == 0 else None
        fs.append(f)
        mod = modadd(mod, bits)
    return fs, mod

def newstruct(full, depth, mod):
    global cnt
    cnt += 1
    sn = "S%d" % cnt
    cfo = R.random() < .4
    fs, m = fields(full, depth, cfo, mod, R.randint(1, 3))
    structs.append((sn, fs, cfo))
    # bits modulo 8 the struct adds, when known
    d = None
    if mod is not None and m is not None: d = (m - mod) % 8
    return sn, fs, cfo, d

def tag(f, order):
    t = [str(order)]
    k = f
    while k["kind"] in ("slice", "array", "ptr"): k = k["elem"]
    if f.get("dynbits"): t.append("size=dynamic")
    elif f.get("sized"): t.append("size=%d" % f["sized"])
    elif k["bits"]: t.append("size=%d" % k["bits"])
    if k["kind"] == "varint": t.append("varint")
    if k["kind"] == "string": t.append("boxstring" if f.get("box") else "string=c_p" if f.get("cp") else "string")
    if f["kind"] == "slice":
        if f["len"] in (-2, -3): t.append("len=dynamic")
        elif f["len"] >= 0: t.append("len=%d" % f["len"])
    if "opt" in f: t.append("opt=%s" % (hex(f["opt"]) if R.random() < .7 else f["opt"]))
    if "nopt" in f: t.append("nopt=%s" % hex(f["nopt"]))
    if "ver" in f: t.append("ver=%d" % f["ver"])
    if "nver" in f: t.append("nver=%d" % f["nver"])
    if f.get("optdyn"): t.append("opt=dynamic")
    if R.random() < .1 and k["kind"] in ("uint", "int"): t.append(R.choice(["hex", "dec"]))
    R2 = t[1:]; R.shuffle(R2)
    return ",".join([t[0]] + R2)

def lit(f):
    s = "{Name: %s, Kind: %s" % (q(f["name"]), q(f["kind"]))
    for a, b in (("bits", "Bits"), ("len", "Len"), ("opt", "Opt"), ("nopt", "NOpt"), ("hbits", "HookBits"), ("sized", "Sized"), ("maxv", "Max"), ("minv", "Min")):
        if f.get(a): s += ", %s: %d" % (b, f[a])
    s += ", Ver: %d, NVer: %d" % (f.get("ver", -1), f.get("nver", -1))
    for a, b in (("dynbits", "DynBits"), ("optdyn", "OptDyn"), ("times8", "Times8"), ("box", "Box"), ("cp", "CP")):
        if f.get(a): s += ", %s: true" % b
    if f.get("hook"): s += ", Hook: %s" % q(f["hook"])
    if f.get("elem"): s += ", Elem: &F" + lit(f["elem"])
    if f.get("sub"): s += ", Sub: %q" % f["sub"] if False else ", Sub: " + q(f["sub"])
    if f.get("fields") is not None: s += ", Fields: []*F{%s}" % ", ".join(lit(x) for x in f["fields"])
    return s + "}"
def q(s): return '"' + s + '"'

boxes = []
for i in range(N):
    cnt += 1
    full = R.random() < .7
    before = 0
    if not full and R.random() < .4: before = R.choice([1, 4])
    fs, mod = fields(full, 0, True, 0, R.randint(1, 6))
    cnt += 1
    fs = [dict(name="TailLen", kind="uint", go="uint8", bits=8, tail=True)] + fs
    fs.append(dict(name="Tail", kind="slice", go="[]uint8", len=-2, bits=1, elem=dict(name="", kind="uint", go="uint8", bits=1)))
    last = R.choice(["none", "bytes", "nibbles", "structs", "strings", "boxstring", "string", "varints", "none", "words", "sized", "dynbytes", "named", "cpstring"])
    nm = "Last"
    if last == "bytes": fs.append(dict(name=nm, kind="slice", go="[]byte", len=-1, bits=8, elem=dict(name="", kind="uint", go="uint8", bits=8)))
    if last == "nibbles":
        b = R.choice([1, 2, 4, 3, 12]); g = goint(b, False)
        fs.append(dict(name=nm, kind="slice", go="[]"+g, len=-1, bits=b, elem=dict(name="", kind="uint", go=g, bits=b)))
    if last == "words": fs.append(dict(name=nm, kind="slice", go="[]int32", len=-1, bits=24, elem=dict(name="", kind="int", go="int32", bits=24)))
    if last == "varints": fs.append(dict(name=nm, kind="slice", go="[]uint32", len=-1, bits=0, elem=dict(name="", kind="varint", go="uint32", bits=0)))
    if last == "strings": fs.append(dict(name=nm, kind="slice", go="[]string", len=-1, bits=0, elem=dict(name="", kind="string", go="string", bits=0)))
    if last == "structs":
        cnt += 1; sn = "S%d" % cnt
        inner = [dict(name="A%d" % cnt, kind="uint", go="uint8", bits=3), dict(name="B%d" % cnt, kind="int", go="int16", bits=13), dict(name="C%d" % cnt, kind="string", go="string", bits=0)]
        structs.append((sn, inner, False))
        ptr = R.random() < .4
        e = dict(name="", kind="struct", go=sn, bits=0, fields=inner, cfo=False, sub=sn)
        if ptr: e = dict(name="", kind="ptr", go="*"+sn, bits=0, elem=e)
        fs.append(dict(name=nm, kind="slice", go="[]"+e["go"], len=-1, bits=0, elem=e))
    if last == "dynbytes": fs.append(dict(name=nm, kind="slice", go="[]byte", len=-3, bits=8, elem=dict(name="", kind="uint", go="uint8", bits=8)))
    if last == "named": fs.append(dict(name=nm, kind="slice", go="[]Octet", len=-1, bits=8, elem=dict(name="", kind="uint", go="Octet", bits=8)))
    if last == "sized":
        cnt += 1; sn = "S%d" % cnt
        inner = [dict(name="A%d" % cnt, kind="uint", go="uint16", bits=16), dict(name="B%d" % cnt, kind="slice", go="[]uint8", len=-1, bits=8, elem=dict(name="", kind="uint", go="uint8", bits=8))]
        structs.append((sn, inner, False))
        fs.append(dict(name=nm, kind="slice", go="[]"+sn, len=-1, bits=0, sized=40, elem=dict(name="", kind="struct", go=sn, bits=0, fields=inner, cfo=False, sub=sn, sized=40)))
    if last == "boxstring": fs.append(dict(name=nm, kind="string", go="string", bits=0, box=True))
    if last == "cpstring": fs.append(dict(name=nm, kind="string", go="string", bits=0, cp=True))
    if last == "string": fs.append(dict(name=nm, kind="string", go="string", bits=0))
    vers = []
    if full:
        vers = R.choice([[], [0], [0, 1], [0, 1, 2], [1, 2], [0, 2]])
    boxes.append(dict(name="U%02d" % i, code="u%03d" % i, full=full, fields=fs, vers=vers, any=R.random() < .12 and not full, before=before, last=last))

def emit_struct(name, fs, head, shuffle=True):
    decl = []
    for o, f in enumerate(fs):
        decl.append((o, f))
    if shuffle and R.random() < .5 and not any(f.get("box") for f in fs):
        R.shuffle(decl)
    out.append("type %s struct {" % name)
    for h in head: out.append("\t" + h)
    for o, f in decl:
        out.append("\t%s %s `mp4:\"%s\"`" % (f["name"], f["go"], tag(f, o + 1)))
    out.append("}\n")

def emit_hooks(name, fs):
    v = "spec" + name
    out.append("func (b *%s) GetFieldSize(name string, ctx mp4.Context) uint { return fieldSize(b, %s, name, ctx) }" % (name, v))
    out.append("func (b *%s) GetFieldLength(name string, ctx mp4.Context) uint { return fieldLength(b, %s, name, ctx) }" % (name, v))
    out.append("func (b *%s) IsOptFieldEnabled(name string, ctx mp4.Context) bool { return fieldEnabled(b, %s, name, ctx) }" % (name, v))
    out.append("func (b *%s) IsPString(name string, s []byte, left uint64, ctx mp4.Context) bool { return isPString(b, %s, name, s, left, ctx) }" % (name, v))
    out.append("func (b *%s) OnReadField(name string, r bridge.ReadSeeker, left uint64, ctx mp4.Context) (uint64, bool, error) { return onRead(b, %s, name, r, left, ctx) }" % (name, v))
    out.append("func (b *%s) OnWriteField(name string, w bridge.Writer, ctx mp4.Context) (uint64, bool, error) { return onWrite(b, %s, name, w, ctx) }\n" % (name, v))

out.append("// Code generated by tools/genuser.py; DO NOT EDIT.\n\npackage userbox\n\nimport (\n\t\"io\"\n\n\t\"github.com/abema/go-mp4\"\n\tbridge \"github.com/abema/go-mp4/verifbridge\"\n)\n\nvar _ io.Reader\n")
for sn, fs, cfo in structs:
    emit_struct(sn, fs, ["mp4.BaseCustomFieldObject"] if cfo else [])
    out.append("var spec%s = []*F{\n\t%s,\n}\n" % (sn, ",\n\t".join(lit(f) for f in fs)))
    if cfo: emit_hooks(sn, fs)
for b in boxes:
    n = b["name"]
    head = ["mp4.FullBox `mp4:\"0,extend\"`"] if b["full"] else ["mp4.AnyTypeBox"] if b["any"] else ["mp4.Box"]
    emit_struct(n, b["fields"], head)
    out.append("var spec%s = []*F{\n\t%s,\n}\n" % (n, ",\n\t".join(lit(f) for f in b["fields"])))
    emit_hooks(n, b["fields"])
    if not b["any"]:
        out.append("func (*%s) GetType() mp4.BoxType { return mp4.StrToBoxType(\"%s\") }" % (n, b["code"]))
    if b["before"]:
        out.append("func (b *%s) BeforeUnmarshal(r io.ReadSeeker, size uint64, ctx mp4.Context) (uint64, bool, error) { return before(r, %d, size, ctx) }" % (n, b["before"]))
    out.append("")
out.append("func init() {")
for b in boxes:
    v = "".join(", %d" % x for x in b["vers"])
    vs = "[]uint8{%s}" % ", ".join(map(str, b["vers"]))
    mk = "func() mp4.IBox { return &%s{} }" % b["name"]
    if b["any"]:
        for c in ("a", "b"):
            code = c + b["code"][1:]
            out.append("\tregister(func() { mp4.AddAnyTypeBoxDef(&%s{}, mp4.StrToBoxType(\"%s\")%s) })" % (b["name"], code, v))
            out.append("\tBoxes = append(Boxes, &B{Type: mp4.StrToBoxType(\"%s\"), Any: true, New: %s, Fields: spec%s, Versions: %s, Before: %d})" % (code, mk, b["name"], vs, b["before"]))
    else:
        out.append("\tregister(func() { mp4.AddBoxDef(&%s{}%s) })" % (b["name"], v))
        out.append("\tBoxes = append(Boxes, &B{Type: mp4.StrToBoxType(\"%s\"), Full: %s, New: %s, Fields: spec%s, Versions: %s, Before: %d})" % (b["code"], str(b["full"]).lower(), mk, b["name"], vs, b["before"]))
out.append("}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "userbox", "types.go"), "w").write("\n".join(out) + "\n")
os.system("gofmt -w " + os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "sim", "userbox", "types.go"))

#!/usr/bin/env python3
"""Compile the constant-level operators of a TLA+ module (and of the modules it
extends) to Rust.

The input is SANY's XML export, so names are resolved by the TLA+ front end
itself.  Every operator becomes a Rust function over the dynamic value type of
oracle/src/value.rs; LET definitions become lazy cells (TLC evaluates them on
demand, too), self tail calls become loops.  Only the fragment of TLA+ that the
specification uses is supported; anything else is an error here.

usage: tla2rust.py ROOT.tla OUT.rs
"""
import hashlib, os, subprocess, sys
import xml.etree.ElementTree as ET

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
STD = {"Naturals", "Integers", "Sequences", "FiniteSets", "TLC", "Bags", "Reals", "Peano", "ProtoReals"}

root = os.path.abspath(sys.argv[1])
out_path = sys.argv[2]
xml = subprocess.run(["java", "-Xss16m", "-cp", JARS, "tla2sany.xml.XMLExporter", "-o", os.path.basename(root)],
                     cwd=os.path.dirname(root), capture_output=True, check=True).stdout
tree = ET.fromstring(xml)
ENT = {}
for e in tree.find("context"):
    ENT[e.find("UID").text] = [x for x in e if x.tag != "UID"][0]

def name_of(uid): return ENT[uid].find("uniquename").text
def module_of(n):
    m = n.find("originallyDefinedInModule")
    return name_of(m.find("ModuleNodeRef/UID").text) if m is not None else None

class Err(Exception): pass

# ---- expression tree -------------------------------------------------------
def kids(n): return [x for x in n if x.tag not in ("location", "level", "pre-comments")]

def conv(n):
    """XML -> tuples"""
    t = n.tag
    if t == "NumeralNode": return ("num", int(n.find("IntValue").text))
    if t == "StringNode": return ("str", n.find("StringValue").text or "")
    if t == "AtNode": return ("at",)
    if t == "LetInNode":
        defs = []
        for d in n.find("opDefs"):
            uid = d.find("UID").text
            defs.append(uid)
        return ("let", defs, conv(kids(n.find("body"))[0]))
    if t == "OpApplNode":
        op = kids(n.find("operator"))[0]
        uid = op.find("UID").text
        args = [conv(a) for a in kids(n.find("operands"))]
        bs = n.find("boundSymbols")
        bounds = []
        if bs is not None:
            for b in bs:
                ps = [p.find("UID").text for p in b if p.tag == "FormalParamNodeRef"]
                rng = [x for x in b if x.tag not in ("FormalParamNodeRef", "location", "level")]
                if b.tag != "bound" or b.find("tuple") is not None and False: raise Err("unbounded")
                rng = [x for x in rng if x.tag != "tuple"]
                bounds.append((ps, conv(rng[0])))
        if op.tag == "FormalParamNodeRef":
            if args: raise Err("operator parameter")
            return ("var", uid)
        if op.tag == "BuiltInKindRef":
            return ("bi", name_of(uid), args, bounds)
        if op.tag == "UserDefinedOpKindRef":
            d = ENT[uid]
            if module_of(d) in STD: return ("bi", name_of(uid), args, bounds)
            return ("call", uid, args)
        raise Err("operator " + op.tag)
    raise Err("node " + t)

class Def: pass
DEFS = {}
def get_def(uid):
    if uid in DEFS: return DEFS[uid]
    n = ENT[uid]
    d = Def()
    d.uid, d.name = uid, name_of(uid)
    d.params = []
    for p in n.find("params") if n.find("params") is not None else []:
        pu = p.find("FormalParamNodeRef/UID").text
        if ENT[pu].find("arity").text != "0": raise Err("higher-order " + d.name)
        d.params.append(pu)
    d.body = conv(kids(n.find("body"))[0])
    d.module = module_of(n)
    DEFS[uid] = d
    return d

# top-level operators of the non-standard modules
LETS = set()
for e in ENT.values():
    for l in e.iter("LetInNode"):
        for d in l.find("opDefs"): LETS.add(d.find("UID").text)
TOP = []
for uid, n in ENT.items():
    if n.tag == "UserDefinedOpKind" and uid not in LETS and module_of(n) not in STD:
        d = get_def(uid); d.top = True; TOP.append(d)
for uid in LETS:
    if module_of(ENT[uid]) not in STD: get_def(uid).top = False

# ---- result kinds (b bool, i int, v value) ---------------------------------
BOOL_BI = {"=", "/=", "\\lnot", "\\land", "\\lor", "=>", "\\in", "\\notin", "$BoundedExists", "$BoundedForall", "$ConjList",
           "$DisjList", "TRUE", "FALSE", "<", ">", "\\leq", "\\geq", "\\equiv", "\\subseteq"}
INT_BI = {"+", "-", "*", "\\div", "%", "Len", "Cardinality", "-.", "^"}
def kind(e):
    t = e[0]
    if t == "num": return "i"
    if t in ("str", "at", "var"): return "v"
    if t == "let": return kind(e[2])
    if t == "call": return DEFS[e[1]].kind
    if t == "bi":
        if e[1] in BOOL_BI: return "b"
        if e[1] in INT_BI: return "i"
        if e[1] == "$IfThenElse":
            k = {kind(e[2][1]), kind(e[2][2])} - {"?"}
            return k.pop() if len(k) == 1 else ("?" if not k else "v")
        if e[1] == "$Case":
            k = {kind(p[2][1]) for p in e[2]} - {"?"}
            return k.pop() if len(k) == 1 else ("?" if not k else "v")
        return "v"
    raise Err(t)
for d in DEFS.values(): d.kind = "?"
while True:
    ch = False
    for d in DEFS.values():
        k = "b" if d.top and d.name[:2] in ("P_", "D_", "X_") else kind(d.body)   # verdicts are booleans
        if k != d.kind: d.kind = k; ch = True
    if not ch: break
for d in DEFS.values():
    if d.kind == "?": d.kind = "v"

RT = {"b": "bool", "i": "i64", "v": "V"}
SYMS = {}
def sym(s):
    if s not in SYMS: SYMS[s] = len(SYMS)
    return SYMS[s]

def rname(s): return "".join(c if c.isalnum() else "_" for c in s)
PN = {}
def pname(uid):
    if uid not in PN: PN[uid] = "p_%s_%s" % (rname(name_of(uid)), uid)
    return PN[uid]
def lname(d): return "l_%s_%s" % (rname(d.name), d.uid)
def fname(d): return "o_" + rname(d.name)

tmp = [0]
def fresh(p="t"):
    tmp[0] += 1
    return "%s%d" % (p, tmp[0])

ATS = []
def cast(code, frm, to):
    if frm == to: return code
    if to == "v": return ("V::B(%s)" if frm == "b" else "V::I(%s)") % code
    if frm == "v": return ("(%s).b()" if to == "b" else "(%s).i()") % code
    raise Err("cast %s %s in %s" % (frm, to, code))

def is_const_def(d): return d.top and not d.params

def ref(e):
    """code of type &V"""
    t = e[0]
    if t == "var": return pname(e[1])
    if t == "at": return ATS[-1]
    if t == "bi" and e[1] == "$RcdSelect": return "(%s).f(%d)" % (ref(e[2][0]), sym(e[2][1][1]))
    if t == "bi" and e[1] == "$FcnApply": return "(%s).at(%s)" % (ref(e[2][0]), ival(e[2][1]))
    if t == "call":
        d = DEFS[e[1]]
        if not d.top and not d.params and d.kind == "v": return "(&*%s)" % lname(d)
        if is_const_def(d) and d.kind == "v": return "(&%s())" % fname(d)
    return "(&%s)" % val(e)

def call(e):
    d = DEFS[e[1]]
    if not d.top:
        if not d.params:
            return ("(*%s).clone()" % lname(d)) if d.kind == "v" else "(*%s)" % lname(d)
        return "%s(%s)" % (lname(d), ", ".join(ref(a) for a in e[2]))
    return "%s(%s)" % (fname(d), ", ".join(ref(a) for a in e[2]))

def gen(e, want):
    t = e[0]
    if t == "num":
        return "%di64" % e[1] if want == "i" else cast("%d" % e[1], "i", want)
    if t == "call": return cast(call(e), DEFS[e[1]].kind, want)
    if t == "let": return "{ %s %s }" % (let_defs(e[1]), gen(e[2], want))
    if t == "bi":
        o, a = e[1], e[2]
        if o == "$IfThenElse":
            return "(if %s { %s } else { %s })" % (bval(a[0]), gen(a[1], want), gen(a[2], want))
        if o == "$Case": return case(e, lambda x: gen(x, want))
        if o in BOOL_BI: return cast(boolean(e), "b", want)
        if o in INT_BI: return cast(integer(e), "i", want)
    if want == "v": return value(e)
    return cast(ref(e), "v", want)

def case(e, g):
    s, n, other = "", 0, False
    for p in e[2]:
        c, v = p[2]
        if c is None or c == ("str", "$Other"): s += "{ %s }" % g(v); other = True
        else: s += "if %s { %s } else " % (bval(c), g(v))
    if not other: s += '{ panic!("oracle: CASE without a match") }'
    return "(" + s + ")"

def val(e): return gen(e, "v")
def bval(e): return gen(e, "b")
def ival(e): return gen(e, "i")

def let_defs(uids):
    s = ""
    for u in uids:
        d = DEFS[u]
        if d.params:
            s += "let %s = |%s| -> %s { %s }; " % (lname(d), ", ".join(pname(p) + ": &V" for p in d.params), RT[d.kind], gen(d.body, d.kind))
        else:
            s += "let %s = Lz::new(|| -> %s { %s }); " % (lname(d), RT[d.kind], gen(d.body, d.kind))
    return s

def is_range(e): return e[0] == "bi" and e[1] == ".."

def elems(e):
    """iterator over V of a set expression"""
    if is_range(e): return "((%s)..=(%s)).map(V::I)" % (ival(e[2][0]), ival(e[2][1]))
    if e[0] == "bi" and e[1] == "$SetEnumerate":
        return "[%s].into_iter()" % ", ".join(val(x) for x in e[2])
    return "(%s).set_elems().into_iter()" % ref(e)

def quant(bounds, body, f):
    code = bval(body)
    flat = [(p, r) for ps, r in bounds for p in ps]
    for p, r in reversed(flat):
        code = "%s.%s(|%s| { let %s = &%s; %s })" % (elems(r), f, pname(p), pname(p), pname(p), code)
    return code

def eq(a, b):
    for x, y in ((a, b), (b, a)):
        if y[0] == "num": return "(%s == %d)" % (ival(x), y[1])
        if y[0] == "str": return "(%s).is_sym(%d)" % (ref(x), sym(y[1]))
        if y[0] == "bi" and y[1] == "$Tuple" and not y[2]: return "((%s).len() == 0)" % ref(x)
    ka, kb = kind(a), kind(b)
    k = "i" if "i" in (ka, kb) else "b" if "b" in (ka, kb) else "v"
    if k == "v":
        # integer constants such as LF
        return "(*%s == *%s)" % (ref(a), ref(b))
    return "(%s == %s)" % (gen(a, k), gen(b, k))

def boolean(e):
    o, a, bounds = e[1], e[2], e[3]
    if o == "TRUE": return "true"
    if o == "FALSE": return "false"
    if o == "=": return eq(a[0], a[1])
    if o == "/=": return "(!%s)" % eq(a[0], a[1])
    if o == "\\lnot": return "(!%s)" % bval(a[0])
    if o in ("\\land", "$ConjList"): return "(%s)" % " && ".join(bval(x) for x in a)
    if o in ("\\lor", "$DisjList"): return "(%s)" % " || ".join(bval(x) for x in a)
    if o == "=>": return "(!%s || %s)" % (bval(a[0]), bval(a[1]))
    if o == "\\equiv": return "(%s == %s)" % (bval(a[0]), bval(a[1]))
    if o in ("\\in", "\\notin"):
        neg = "!" if o == "\\notin" else ""
        x, s = a
        if is_range(s):
            v = fresh()
            return "%s{ let %s = %s; %s >= %s && %s <= %s }" % (neg, v, ival(x), v, ival(s[2][0]), v, ival(s[2][1])) if not neg else \
                   "(!{ let %s = %s; %s >= %s && %s <= %s })" % (v, ival(x), v, ival(s[2][0]), v, ival(s[2][1]))
        if s[0] == "bi" and s[1] == "$SetEnumerate":
            return "(%s(%s))" % (neg, " || ".join(eq(x, y) for y in s[2]) or "false")
        return "(%s(%s).contains(%s))" % (neg, ref(s), ref(x))
    if o == "\\subseteq": return "%s.all(|x| (%s).contains(&x))" % (elems(a[0]), ref(a[1]))
    if o == "$BoundedForall": return quant(bounds, a[0], "all_")
    if o == "$BoundedExists": return quant(bounds, a[0], "any_")
    c = {"<": "<", ">": ">", "\\leq": "<=", "\\geq": ">="}.get(o)
    if c: return "(%s %s %s)" % (ival(a[0]), c, ival(a[1]))
    raise Err("bool " + o)

def integer(e):
    o, a = e[1], e[2]
    if o == "Len": return "((%s).len() as i64)" % ref(a[0])
    if o == "Cardinality":
        s = a[0]
        if s[0] == "bi" and s[1] == "$SubsetOf" and is_range(s[3][0][1]):
            p = pname(s[3][0][0][0])
            return "(%s.filter(|%s| { %s }).count() as i64)" % (elems(s[3][0][1]), p, bval(s[2][0]))
        return "(%s.count() as i64)" % elems(a[0])
    if o == "-.": return "(-%s)" % ival(a[0])
    if o == "^": return "(%s).pow((%s) as u32)" % (ival(a[0]), ival(a[1]))
    if o == "\\div": return "(%s).div_euclid(%s)" % (ival(a[0]), ival(a[1]))
    if o == "%": return "(%s).rem_euclid(%s)" % (ival(a[0]), ival(a[1]))
    return "(%s %s %s)" % (ival(a[0]), o, ival(a[1]))

def rec(pairs):
    ps = sorted((sym(k), v) for k, v in pairs)
    return "V::rec(vec![%s])" % ", ".join("(%d, %s)" % (k, v) for k, v in ps)

def update(base, path, rhs):
    """code of type V: base (&V code) with path replaced"""
    if not path:
        ATS.append(base); c = val(rhs); ATS.pop(); return c
    b = fresh("b")
    s = path[0]
    inner = fresh("b")
    if s[0] == "str":
        k = "%d" % sym(s[1])
        return "{ let %s = %s; let %s = %s; let n = %s; %s.with_f(%s, n) }" % (
            b, base, inner, "%s.f(%s)" % (b, k), update(inner, path[1:], rhs), b, k)
    i = fresh("i")
    return "{ let %s = %s; let %s = %s; let %s = %s.at(%s); let n = %s; %s.with_at(%s, n) }" % (
        b, base, i, ival(s), inner, b, i, update(inner, path[1:], rhs), b, i)

def value(e):
    t = e[0]
    if t == "str": return "V::S(%d)" % sym(e[1])
    if t in ("var", "at"): return "%s.clone()" % ref(e)
    o, a, bounds = e[1], e[2], e[3]
    if o in ("$RcdSelect", "$FcnApply"): return "%s.clone()" % ref(e)
    if o == "$Tuple": return "V::seq(vec![%s])" % ", ".join(val(x) for x in a)
    if o == "$SetEnumerate": return "V::set(vec![%s])" % ", ".join(val(x) for x in a)
    if o == "..": return "V::set(%s.collect())" % elems(e)
    if o == "$RcdConstructor": return rec([(p[2][0][1], val(p[2][1])) for p in a])
    if o == "$Except":
        cur = ref(a[0])
        code = ""
        for p in a[1:]:
            path = p[2][0][2]
            x = fresh("x")
            code += "let %s = %s; " % (x, update(cur, path, p[2][1]))
            cur = "(&%s)" % x
        return "{ %s %s }" % (code, cur[2:-1])
    if o == "\\o": return "(%s).cat(%s)" % (ref(a[0]), ref(a[1]))
    if o == "Append": return "(%s).push(%s)" % (ref(a[0]), val(a[1]))
    if o == "SubSeq": return "(%s).sub(%s, %s)" % (ref(a[0]), ival(a[1]), ival(a[2]))
    if o == "Head": return "(%s).at(1).clone()" % ref(a[0])
    if o == "Tail": return "{ let s = %s; s.sub(2, s.len() as i64) }" % ref(a[0])
    if o == "$FcnConstructor":
        (ps, r), = bounds
        if not is_range(r) or r[2][0] != ("num", 1): raise Err("function over something other than 1..n")
        return "V::seq(%s.map(|%s| { let %s = &%s; %s }).collect())" % (elems(r), pname(ps[0]), pname(ps[0]), pname(ps[0]), val(a[0]))
    if o == "$SetOfAll":
        (ps, r), = bounds
        return "V::set(%s.map(|%s| { let %s = &%s; %s }).collect())" % (elems(r), pname(ps[0]), pname(ps[0]), pname(ps[0]), val(a[0]))
    if o == "$SubsetOf":
        (ps, r), = bounds
        return "V::set(%s.filter(|%s| { %s }).collect())" % (elems(r), pname(ps[0]), bval(a[0]))
    if o == "$BoundedChoose":
        (ps, r), = bounds
        return '%s.find(|%s| { %s }).expect("oracle: CHOOSE")' % (elems(r), pname(ps[0]), bval(a[0]))
    if o == "\\union": return "V::set(%s.chain(%s).collect())" % (elems(a[0]), elems(a[1]))
    if o == "\\": return "V::set(%s.filter(|x| !(%s).contains(x)).collect())" % (elems(a[0]), ref(a[1]))
    if o == "DOMAIN": return "(%s).domain()" % ref(a[0])
    raise Err("value " + o)

# ---- tail calls ------------------------------------------------------------
def has_tail(e, uid):
    if e[0] == "call": return e[1] == uid
    if e[0] == "let": return has_tail(e[2], uid)
    if e[0] == "bi" and e[1] == "$IfThenElse": return has_tail(e[2][1], uid) or has_tail(e[2][2], uid)
    if e[0] == "bi" and e[1] == "$Case": return any(has_tail(p[2][1], uid) for p in e[2])
    return False

def tail(e, d):
    if e[0] == "call" and e[1] == d.uid:
        return "Err((%s,))" % ", ".join(val(a) for a in e[2])
    if has_tail(e, d.uid):
        if e[0] == "let": return "{ %s %s }" % (let_defs(e[1]), tail(e[2], d))
        if e[1] == "$IfThenElse": return "(if %s { %s } else { %s })" % (bval(e[2][0]), tail(e[2][1], d), tail(e[2][2], d))
        if e[1] == "$Case": return case(e, lambda x: tail(x, d))
    return "Ok(%s)" % gen(e, d.kind)

def emit(d):
    ps = ", ".join("%s: &V" % pname(p) for p in d.params)
    if not d.params and d.kind == "v":
        return "pub fn %s() -> V { thread_local! { static C: V = %s; } C.with(|c| c.clone()) }" % (fname(d), val(d.body))
    if has_tail(d.body, d.uid):
        ns = [pname(p) for p in d.params]
        tup = ", ".join("m_" + n for n in ns)
        return "pub fn %s(%s) -> %s { let mut st = (%s,); loop { let r: Result<%s, (%s,)> = { let (%s,) = &st; %s }; match r { Ok(v) => return v, Err(n) => st = n } } }" % (
            fname(d), ps, RT[d.kind], ", ".join(n + ".clone()" for n in ns), RT[d.kind], ", ".join("V" for _ in ns),
            ", ".join(ns), tail(d.body, d))
    return "pub fn %s(%s) -> %s { %s }" % (fname(d), ps, RT[d.kind], gen(d.body, d.kind))

body = []
bad = set()
for d in TOP:
    try: body.append(emit(d))
    except Err as x:
        sys.stderr.write("tla2rust: %s: %s\n" % (d.name, x)); sys.exit(2)

h = hashlib.sha256()
mods = sorted({name_of(u) for u, n in ENT.items() if n.tag == "ModuleNode"} - STD)
here = os.path.dirname(root)
for m in mods:
    p = os.path.join(here, m + ".tla")
    if os.path.exists(p): h.update(open(p, "rb").read())
h.update(open(os.path.abspath(__file__), "rb").read())
with open(out_path, "w") as f:
    f.write("// Generated by tools/tla2rust.py from %s; do not edit.\n// spec-hash: %s\n" % (", ".join(mods), h.hexdigest()))
    f.write("#![allow(unused, non_snake_case, clippy::all)]\nuse crate::value::*;\n\n")
    f.write("\n\n".join(body))
    f.write("\n\npub static SYMS: &[&str] = &[%s];\n" % ", ".join('"%s"' % s for s, _ in sorted(SYMS.items(), key=lambda x: x[1])))
    f.write('\npub const SPEC_HASH: &str = "%s";\n' % h.hexdigest())
print(len(body), "operators")

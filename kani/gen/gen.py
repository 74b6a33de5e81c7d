#!/usr/bin/env python3
"""Writes the struct schemas of corpus/ and the contracts of the code generated for them (src/structs.rs).

Developer tool: its output is committed. The layout below is computed from the documentation of the
format (fields follow each other, bit by bit), not by the compiler under verification.
"""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
Q = [[1, 3, 7, 8, 9, 16], [17, 24, 25, 32, 33], [40, 56, 57, 63, 64]]
DONE = {w for g in Q for w in g}
REST = [w for w in range(1, 65) if w not in DONE]
T = [REST[i:i + 8] for i in range(0, len(REST), 8)]


def ty(n):
    return 8 if n <= 8 else 16 if n <= 16 else 32 if n <= 32 else 64


class Proto:
    def __init__(self, name, endian):
        self.name, self.endian = name, endian
        self.structs, self.enums = {}, {}

    def struct(self, name, fields):
        self.structs[name] = fields
        return name

    def bits(self, name):
        return sum(self.fbits(f) for f in self.structs[name])

    def fbits(self, f):
        if f["info"]["type"] == "struct":
            return self.bits(f["info"]["item_type"])
        return f["info"]["bits"] * f.get("array_len", 1)

    def leaves(self, name, at=0, path=()):
        for f in self.structs[name]:
            if f["info"]["type"] == "struct":
                yield from self.leaves(f["info"]["item_type"], at, path + (f["name"],))
            else:
                yield path, f, at
            at += self.fbits(f)

    def dump(self):
        d = dict(name=self.name, endianness="big" if self.endian == "be" else "little",
                 structs=[dict(name=k, fields=v) for k, v in self.structs.items()])
        if self.enums:
            d["enums"] = [dict(name=k, variants=v) for k, v in self.enums.items()]
        json.dump(d, open(os.path.join(HERE, "corpus", self.name + ".json5"), "w"), indent=1)


def f(name, t, bits, **k):
    return dict(name=name, info=dict(type=t, bits=bits), **k)


protos, out = [], []


def be(p):
    return "true" if p.endian == "be" else "false"


def contract(p, sname, harness, check):
    """`check`: names of the fields under contract (None: all)"""
    total = p.bits(sname)
    size = (total + 7) // 8
    o = out.append
    o("    #[kani::proof]")
    o("    fn %s() {" % harness)
    o("        use crate::%s::*;" % p.name)
    o("        const N: usize = %d;" % size)
    o("        assert!(<%s<()> as FixedSize>::SIZE == N && SIZE_%s == N, \"the size of the structure is the sum of its fields\");" % (sname, sname.upper()))
    o("        let b: [u8; N] = kani::any();")
    o("        let s = %s::new(&b[..]);" % sname)
    for path, fl, at in p.leaves(sname):
        if check is not None and fl["name"] not in check:
            continue
        n, t, nm = fl["info"]["bits"], fl["info"]["type"], fl["name"]
        gets = "".join("get_%s()." % x for x in path)
        muts = "".join("get_%s_mut()." % x for x in path)
        B = be(p)
        a0 = at // 8
        if "array_len" in fl and fl["array_len"] > 1:
            ln, l = fl["array_len"], n // 8
            rt = "f%d" % ty(n) if t == "float" else "%s%d" % ("u" if t == "unsigned" else "i", ty(n))
            bits = ".to_bits() as u64" if t == "float" else " as u%d as u64" % ty(n)
            for i in range(ln):
                x, y = a0 + i * l, a0 + (i + 1) * l
                o("        {")
                o("            let a = s.%sget_%s();" % (gets, nm))
                o("            assert!(a.len() == %d, \"the array has its length\");" % ln)
                o("            assert!(a.get_raw(%d)%s == num(%s, &b[%d..%d], %d), \"item %d is read at its place\");" % (i, bits, B, x, y, l, i))
                o("            let mut c = b;")
                o("            let v: %s = kani::any();" % rt)
                o("            { let mut m = %s::new(&mut c[..]); m.%sget_%s_mut().set_raw(%d, v); }" % (sname, muts, nm, i))
                o("            assert!(others(&b, &c, %d, %d), \"the other bytes keep their value\");" % (x, y))
                o("            assert!(num(%s, &c[%d..%d], %d) == (v%s) & mask(%d), \"item %d is stored at its place\");" % (B, x, y, l, bits, n, i))
                o("        }")
            continue
        e0 = (at + n + 7) // 8
        o("        {")
        o("            let raw = field::<%s>(&b[%d..%d], %d, %d);" % (B, a0, e0, at % 8, n))
        o("            assert!(s.%sget_raw_%s() as u64 == raw, \"the raw value is the bits of the field\");" % (gets, nm))
        view = fl.get("view")
        setraw = None
        o("            let mut c = b;")
        if view and view["type"] == "enum":
            vs = p.enums[view["name"]]
            o("            match s.%sget_%s() {" % (gets, nm))
            o("                Some(v) => assert!(v as u64 == raw && (%s), \"the view is the declared variant\")," % " || ".join("raw == %d" % x for x in vs.values()))
            o("                None => assert!(!(%s), \"every declared variant is recognized\")," % " || ".join("raw == %d" % x for x in vs.values()))
            o("            }")
            names = list(vs)
            o("            let k: usize = kani::any();")
            o("            let (v, bits) = match k { %s _ => (%s::%s, %d) };" % (" ".join("%d => (%s::%s, %du64)," % (i, view["name"], x, vs[x]) for i, x in enumerate(names[:-1])), view["name"], names[-1], vs[names[-1]]))
            setv = "v"
        elif t == "unsigned":
            o("            assert!(s.%sget_%s() as u64 == raw, \"the value is the bits of the field\");" % (gets, nm))
            o("            let v: u%d = kani::any();" % ty(n))
            o("            let bits = v as u64;")
        elif t == "signed":
            w = ty(n)
            o("            let want = ((raw << %d) as i64) >> %d;" % (64 - n, 64 - n))
            o("            assert!(s.%sget_%s() as i64 == want, \"the value is the two's complement of the bits\");" % (gets, nm))
            o("            let v: i%d = kani::any();" % w)
            o("            let bits = v as i64 as u64;")
        elif t == "boolean":
            o("            assert!(s.%sget_%s() == (raw != 0), \"the value is true when a bit is set\");" % (gets, nm))
            o("            let v: bool = kani::any();")
            o("            let bits = v as u64;")
        elif t == "float":
            o("            assert!(s.%sget_%s().to_bits() as u64 == raw, \"the value is the IEEE number with these bits\");" % (gets, nm))
            o("            let bits: u64 = kani::any::<u%d>() as u64;" % n)
            o("            let v = f%d::from_bits(bits as u%d);" % (n, n))
        o("            { let mut m = %s::new(&mut c[..]); m.%sset_%s(v); }" % (sname, muts, nm))
        o("            assert!(updated::<%s>(&b[%d..%d], &c[%d..%d], %d, %d, bits), \"the setter replaces the bits of the field\");" % (B, a0, e0, a0, e0, at % 8, n))
        o("            assert!(others(&b, &c, %d, %d), \"the setter keeps the other bytes\");" % (a0, e0))
        o("            let mut c = b;")
        o("            let r = kani::any();")
        o("            { let mut m = %s::new(&mut c[..]); m.%sset_raw_%s(r); }" % (sname, muts, nm))
        o("            assert!(updated::<%s>(&b[%d..%d], &c[%d..%d], %d, %d, r as u64) && others(&b, &c, %d, %d), \"the raw setter replaces the bits of the field only\");" % (B, a0, e0, a0, e0, at % 8, n, a0, e0))
        if t == "signed":
            o("            if v as i64 >= -1i64 << %d && v as i64 <= (1u64 << %d) as i64 - 1 || %d == 64 {" % (n - 1, n - 1, n) if n < 64 else "            {")
            o("                let mut c = b;")
            o("                { let mut m = %s::new(&mut c[..]); m.%sset_%s(v); }" % (sname, muts, nm))
            o("                assert!(%s::new(&c[..]).%sget_%s() == v, \"a value in the range of the field is given back\");" % (sname, gets, nm))
            o("            }")
        o("        }")
    o("    }")


def layout(cls, groups, tag):
    for E in ("le", "be"):
        p = Proto("%s%s%s" % (cls, E, tag), E)
        mod = []
        for o in range(8):
            for gi, g in enumerate(groups):
                fs, at = [], 0
                for n in g:
                    pad = (o - at) % 8
                    if pad:
                        fs.append(f("p%d" % n, "unsigned", pad))
                        at += pad
                    fs.append(f("f%d" % n, "unsigned" if cls == "u" else "signed", n))
                    at += n
                nm = p.struct("S%d_%d" % (o, gi), fs)
                mod.append((nm, "o%d_g%d" % (o, gi), {"f%d" % n for n in g}))
        protos.append(p)
        out.append('#[cfg(feature = "%s%s%s")]' % (cls, E, tag))
        out.append("mod %s%s%s {" % (cls, E, tag))
        out.append("    use crate::spec::*;\n    use bp3d_proto::util::FixedSize;")
        for nm, h, chk in mod:
            contract(p, nm, h, chk)
        out.append("}")


layout("u", Q, "q")
layout("i", Q, "q")
layout("u", T, "t")
layout("i", T, "t")

for E in ("le", "be"):
    # nested structures, arrays, booleans, floats, enums
    p = Proto("mix" + E, E)
    p.enums["Tri"] = {"A": 0, "B": 1, "D": 3, "H": 7}
    p.enums["Byte"] = {"One": 1, "Big": 200}
    p.enums["Wide"] = {"Five": 5, "Thousand": 1000, "Max": 65535}
    p.enums["Huge"] = {"One": 1, "Past16": 65537, "Past31": 4000000000}
    p.enums["Giant"] = {"Zero": 0, "Past32": 4294967297, "Past62": 4611686018427387904}
    s = lambda name, t: dict(name=name, info=dict(type="struct", item_type=t))
    p.struct("Inner", [f("a", "unsigned", 5), f("b", "signed", 7)])
    p.struct("Mid", [f("x", "unsigned", 8), s("inner", "Inner"), f("tail", "unsigned", 4)])
    p.struct("Outer", [f("h", "unsigned", 16), s("mid", "Mid"), f("arr", "unsigned", 16, array_len=3), s("last", "Inner"), f("z", "unsigned", 4)])
    p.struct("Arrays", [f("u8s", "unsigned", 8, array_len=4), f("sep", "unsigned", 3), f("sep2", "unsigned", 5), f("i16s", "signed", 16, array_len=3),
                        f("u24s", "unsigned", 24, array_len=2), f("f32s", "float", 32, array_len=2), f("u40s", "unsigned", 40, array_len=2),
                        f("f64s", "float", 64, array_len=2), f("i64s", "signed", 64, array_len=2), f("u32s", "unsigned", 32, array_len=2), f("end", "unsigned", 8)])
    p.struct("Bools", [f("b1", "boolean", 1), f("b3", "boolean", 3), f("b8", "boolean", 8), f("b12", "boolean", 12), f("p", "unsigned", 8),
                       f("b16", "boolean", 16), f("b32", "boolean", 32), f("b64", "boolean", 64), f("last", "boolean", 1)])
    p.struct("Floats", [f("f32", "float", 32), f("f64", "float", 64), f("p", "unsigned", 3), f("g32", "float", 32), f("g64", "float", 64)])
    en = lambda n: dict(type="enum", name=n)
    p.struct("Enums", [f("p", "unsigned", 2), f("t", "unsigned", 3, view=en("Tri")), f("by", "unsigned", 8, view=en("Byte")), f("q", "unsigned", 3),
                       f("w", "unsigned", 16, view=en("Wide")), f("t8", "unsigned", 8, view=en("Tri")), f("b13", "unsigned", 13, view=en("Byte")), f("r", "unsigned", 3),
                       f("w32", "unsigned", 32, view=en("Wide")), f("w64", "unsigned", 64, view=en("Wide")),
                       f("h32", "unsigned", 32, view=en("Huge")), f("h37", "unsigned", 37, view=en("Huge")), f("s", "unsigned", 3), f("h64", "unsigned", 64, view=en("Huge")),
                       f("g64", "unsigned", 64, view=en("Giant"))])
    p.struct("Narrow", [f("i24s", "signed", 24, array_len=2), f("end", "unsigned", 8)])
    protos.append(p)
    out.append('#[cfg(feature = "mix")]')
    out.append("mod mix%s {" % E)
    out.append("    use crate::spec::*;\n    use bp3d_proto::util::FixedSize;")
    for nm in p.structs:
        if nm != "Narrow":
            contract(p, nm, nm.lower(), None)
    out.append("""    /// known finding: items of an array of signed integers of 24 bits are not sign extended
    #[kani::proof]
    fn known_signed_array() {
        use crate::mix%s::*;
        let b: [u8; 7] = kani::any();
        let s = Narrow::new(&b[..]);
        assert!(s.get_i24s().get_raw(0) as i64 == (num(%s, &b[0..3], 3) << 40) as i64 >> 40, "items of signed arrays keep their sign");
    }""" % (E, be(p)))
    out.append("}")

for p in protos:
    p.dump()
with open(os.path.join(HERE, "src", "structs.rs"), "w") as fh:
    fh.write("//! Written by gen.py.\n" + "\n".join(out) + "\n")
print([p.name for p in protos], len(out))

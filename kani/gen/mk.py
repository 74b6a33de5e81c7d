#!/usr/bin/env python3
"""Writes corpus/msgle.json5 and corpus/msgbe.json5 (same protocol, both byte orders)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
def fx(name, t, bits, **k): return dict(name=name, info=dict(type=t, bits=bits), **k)
def it(name, t, **k): return dict(name=name, info=dict(type="item", item_type=t), **k)
def ls(name, t, m, **k): return dict(name=name, info=dict(type="list", item_type=t, max_len=m), **k)
def st(name, m=None): return dict(name=name, info=dict(type="string", max_len=m) if m is not None else dict(type="string"))
def un(name, on, t): return dict(name=name, info=dict(type="union", on=on, item_type=t))
S = {
 "Byte": [fx("v", "unsigned", 8)], "Int": [fx("v", "signed", 32)], "Dbl": [fx("v", "float", 64)],
 "U12": [fx("v", "unsigned", 12)], "S24": [fx("v", "signed", 24)], "Pair": [fx("a", "unsigned", 16), fx("b", "signed", 8)],
 "Head": [fx("kind", "unsigned", 3, view=dict(type="enum", name="Kind")), fx("rest", "unsigned", 5)],
 "Deep": [fx("x", "unsigned", 8), dict(name="head", info=dict(type="struct", item_type="Head"))],
 "SHead": [fx("t", "unsigned", 3), fx("s", "signed", 5)],
 "NHead": [fx("n", "signed", 16)],
 "UHead": [fx("n", "unsigned", 16), fx("m", "unsigned", 16)],
}
M = {
 "Plain": [it("a", "Byte"), it("b", "Int"), it("c", "Dbl"), it("d", "U12"), it("e", "Pair"), it("f", "S24")],
 "Text1": [st("s", 255), it("z", "Byte")], "Text2": [st("s", 256), it("z", "Byte")],
 "Text2b": [st("s", 65535), it("z", "Byte")], "Text4": [st("s", 65536), it("z", "Byte")],
 "Nul": [it("n", "Byte"), st("s"), it("z", "Byte")],
 "Arr": [it("n", "Byte"), ls("items", "Pair", 255), it("z", "Byte")],
 "Arr2": [ls("items", "Pair", 1000, optional=True), it("z", "Byte")],
 "Sub": [st("s", 10), it("n", "Byte")],
 "Wrap": [it("h", "Byte"), it("sub", "Sub"), it("z", "Byte")],
 "WrapOpt": [it("opt", "Sub", optional=True), it("z", "Byte")],
 "Lst": [it("n", "Byte"), ls("items", "Sub", 255)],
 "LstMid": [ls("items", "Sub", 256), it("z", "Byte")],
 "In2": [ls("subs", "Sub", 255)],
 "Out2": [ls("ins", "In2", 255)],
 "Pay": [it("n", "Byte"), dict(name="data", info=dict(type="payload"))],
 "U1": [it("head", "Head"), it("n", "Byte"), un("v", "head", "Value")],
 "U2": [it("deep", "Deep"), un("v", "deep", "DeepValue"), it("z", "Byte")],
 "U3": [it("h", "SHead"), un("v", "h", "SValue")],
 "U4": [it("h", "NHead2"), un("v", "h", "NValue")],
 "U5": [it("h", "UHead"), un("v", "h", "UValue")],
}
S["NHead2"] = [fx("n", "signed", 16), fx("m", "unsigned", 8)]
U = [
 dict(name="Value", discriminant="Head.kind", cases=[dict(name="Nothing", case="Nothing"), dict(name="Pair", case="Pair", item_type="Pair"),
      dict(name="Text", case="Text", item_type="Sub"), dict(name="Flag", case="Flag")]),
 dict(name="DeepValue", discriminant="Deep.head.kind", cases=[dict(name="N", case="Nothing"), dict(name="F", case="Flag", item_type="Pair")]),
 dict(name="UnitValue", discriminant="Head.kind", cases=[dict(name="Nothing", case="Nothing"), dict(name="Flag", case="Flag")]),
 dict(name="SValue", discriminant="SHead.s", cases=[dict(name="Minus", case="-1", item_type="Pair"), dict(name="Min", case="-16"), dict(name="Max", case="15", item_type="U12"), dict(name="Zero", case="0")]),
 dict(name="NValue", discriminant="NHead2.n", cases=[dict(name="Minus", case="-2", item_type="Pair"), dict(name="Max", case="32767")]),
 dict(name="UValue", discriminant="UHead.m", cases=[dict(name="Low", case="0", item_type="Pair"), dict(name="Top", case="65535", item_type="Int")]),
]
for e in ("le", "be"):
    d = dict(name="msg" + e, endianness="big" if e == "be" else "little",
             enums=[dict(name="Kind", variants={"Nothing": 0, "Pair": 1, "Text": 4, "Flag": 7})],
             structs=[dict(name=k, fields=v) for k, v in S.items()], unions=U,
             messages=[dict(name=k, fields=v) for k, v in M.items()])
    # "Sub" is needed by the unions: unions only see messages imported or structs, see corpus/sub*.json5
    d["imports"] = [dict(protocol="sub" + e, type="Sub")]
    d["messages"] = [m for m in d["messages"] if m["name"] != "Sub"]
    json.dump(d, open(os.path.join(HERE, "corpus", "msg%s.json5" % e), "w"), indent=1)
    d = dict(name="sub" + e, endianness="big" if e == "be" else "little", structs=[dict(name="Byte", fields=S["Byte"])], messages=[dict(name="Sub", fields=M["Sub"])])
    json.dump(d, open(os.path.join(HERE, "corpus", "sub%s.json5" % e), "w"), indent=1)

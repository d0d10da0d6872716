"""One function per property: which models are explored, which behaviours are
replayed on the real code, which recorded sessions are validated."""
import json, re
from gen import *
from vplib import Broken, locales, drive, merge, strip, CORES
from forgegen import *

def SIZES(c):
    """sizes at which something of fixed size would show"""
    return [63, 64, 65, 76, 127, 128, 129, 255, 256, 257, 511, 512, 513, 998, 1023, 1024, 1025, 2048, 4095, 4096, 4097] + c.pick([8192, 16384], [8191, 8192, 8193, 16384, 32768, 65536, 65537])

# ---------------------------------------------------------------- C04
CANONBODY = """SPECIFICATION Spec
CONSTANTS
  Alphabet = {13, 10, 32, 9, 97}
  MaxLen = %d
  EmitOn = TRUE
INVARIANTS AgreeSimple AgreeRelaxed Idempotent Coarser TrailingLines CrInert Generate
PROPERTY EmittedIsFinal
CHECK_DEADLOCK FALSE
"""
def body_vectors(c, bodies, bases, plans=True):
    r = c.rng
    for v in bodies:
        n = len(v["b"]) // 2
        for m, full in (("simple", v["s"]), ("relaxed", v["r"])):
            e = {"c": "canonbody", "m": m, "data": v["b"], "lset": False, "ld": "0"}
            if plans:
                e.update(stream(r))
            yield {"e": e, "x": {"r": "ok", "out": full, "fits": True}}
            size = len(full) // 2
            for l in {r.randrange(0, size + 1), size, size + 1, r.choice([0, 1, size + 2, 4294967296 + size, 2**63 - 1])}:
                e = {"c": "canonbody", "m": m, "data": v["b"], "lset": True, "ld": str(l)}
                e.update(stream(r))
                yield {"e": e, "x": {"r": "ok", "out": full[:2 * l], "fits": l <= size}}
            if v["b"].startswith("61"):
                for base in bases:
                    fill = base - r.randrange(0, n + 1)
                    e = {"c": "canonbody", "m": m, "data": v["b"], "fill": fill, "lset": False, "ld": "0"}
                    yield {"e": e, "x": {"r": "ok", "out": full, "fits": True, "n": fill + size}}
                    l = fill + r.randrange(-1, size + 2)
                    e = {"c": "canonbody", "m": m, "data": v["b"], "fill": fill, "lset": True, "ld": str(l)}
                    yield {"e": e, "x": {"r": "ok", "out": full[:2 * max(0, l - fill)], "fits": l <= fill + size, "n": min(l, fill + size)}}

def C04(c):
    v = c.model("MC_CanonBody", CANONBODY % c.pick(6, 8))
    c.replay(list(body_vectors(c, v, c.pick([8096, 4096, 8192], BLOCKS))), "every short body, alone and across read blocks")
    r = c.rng
    ses = []
    for i in range(c.pick(400, 6000)):
        b = edge_body(r) if i % 4 == 0 else body(r, r.choice([None, None, 3000, 9000]))
        ev = []
        for m in ("simple", "relaxed"):
            ev.append({"c": "canonbody", "m": m, "data": hx(b), "lset": False, "ld": "0", **stream(r)})
            ev.append({"c": "canonbody", "m": m, "data": hx(b), "lset": True, "ld": str(r.choice([r.randrange(0, len(b) + 3), len(b), len(b) + 2, 8096, 8095, 2**32, 2**63 - 1])), **stream(r)})
        ses.append({"ev": ev})
    ses += [{"ev": [{"c": "canonbody", "m": m, "data": hx(b"x\r\n\r\nbody"), "nobody": True, "lset": l, "ld": str(n)}]} for m in ("simple", "relaxed") for l, n in ((False, 0), (True, 0), (True, 1), (True, 2), (True, 3))]
    for n in c.pick([255, 256, 65535, 65536], [127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 131072]):      # runs a small counter would lose
        for unit in (b"\r\n", b" ", b"\r", b" \r\n"):
            for tail in (b"x\r\n", b""):
                if n > 60000 and not c.thorough and r.randrange(2): continue
                ses.append({"ev": [{"c": "canonbody", "m": m, "data": hx(b"a" + unit * n + tail), "lset": False, "ld": "0", **stream(r)} for m in ("simple", "relaxed")]})
    c.traces(ses, "generated bodies, streams and limits", chunk=2000)

# ---------------------------------------------------------------- C05
HEADER = """SPECIFICATION Spec
CONSTANTS
  Units <- UnitsQ
  MaxLen = %d
  EmitOn = TRUE
INVARIANTS Agree Idempotent SimpleId RefusesStray NoColon Shape Refold Generate
CHECK_DEADLOCK FALSE
"""
def octet_or_perm(x, o):
    return (o["r"] == "ok" and o["out"] == x["out"]) if x["ok"] else o["r"] == "perm"
def C05(c):
    r = c.rng
    def vec(v):
        for x in v:
            yield {"e": {"c": "canonhdr", "m": "relaxed", "data": x["f"]}, "x": {"ok": x["ok"], "out": x["r"]}}
            yield {"e": {"c": "canonhdr", "m": "simple", "data": x["f"]}, "x": {"ok": True, "out": x["f"]}}
            if x["f"].startswith("41"):
                yield {"e": {"c": "canonhdr", "m": "relaxed", "data": x["f"], "fill": r.choice([7, 70, 250, 998, 1020, 4090, 9000, 66000])}, "x": {"ok": x["ok"], "out": x["r"]}}
    c.replay(list(vec(c.model("MC_Header", HEADER % c.pick(5, 6)))), "every short field", cmp=octet_or_perm)
    ses = []
    for i in range(c.pick(1500, 20000)):
        k = r.randrange(10)
        if k < 6: f = fieldline(r)
        elif k == 6: f = b"\r\n ".join(fieldline(r, eol=b"\r\n") for _ in range(r.randrange(1, 6)))
        elif k == 7: f = fieldline(r) + r.choice([b"\r", b"\n", b"\r\n", b" \r\n", b"\r\nX", b"\x00"]) + value(r)
        elif k == 8: f = bytes(r.randrange(256) for _ in range(r.randrange(0, 40)))
        else: f = mix(r, [b":", b" ", b"\t", b"\r\n ", b"\r\n\t", b"A", b"z", b"\xc4"], r.randrange(0, 120))
        ses.append({"ev": [{"c": "canonhdr", "m": m, "data": hx(f)} for m in ("relaxed", "simple")]})
    for o in range(256):        # every octet in every place
        ses.append({"ev": [{"c": "canonhdr", "m": m, "data": hx(f % bytes([o]))} for f in (b"%sAb: v", b"A%sB: v", b"A%s: v", b"A %s : v", b"A:%sv", b"A: v%sW", b"A: v%s", b"A: v\r\n%sw", b"A: v\r\n %sw", b"A: v \r%sw", b"A: v%s\n w", b"A%s\r\n : v") for m in ("relaxed", "simple")]})
    for n in (100, 1000, 5000):     # long values
        f = b"Subject: " + b"".join(r.choice([b"word", b" ", b"\t", b"\r\n ", b"\xc3"]) for _ in range(n)) + b"e"
        ses.append({"ev": [{"c": "canonhdr", "m": "relaxed", "data": hx(f)}]})
    for n in SIZES(c):
        for f in (b"X" * n + b": v", b"a: " + b"V" * n, b"a:" + b" " * n + b"v" + b"\t" * n + b"w", b"a: b" + b"\r\n c" * n, b"a:" + b"\r\n " * n, b"a" + b" " * n + b": b", b"a: x" + b" " * n, (b"Ab " * n)[:-1] + b": v"):
            ses.append({"ev": [{"c": "canonhdr", "m": m, "data": hx(f)} for m in ("relaxed", "simple")]})
    c.traces(ses, "generated fields", chunk=5000)

# ---------------------------------------------------------------- C06
MAIL = """SPECIFICATION Spec
CONSTANTS
  MaxLen = %d
  EmitOn = TRUE
INVARIANTS Agree Lossless NamesOk Generate
PROPERTIES %s
CHECK_DEADLOCK FALSE
"""
def C06(c):
    r = c.rng
    v = c.model("MC_Mail", MAIL % (c.pick(6, 7), c.pick("Monotone", "Monotone Terminates") if False else "Monotone"))
    vec = []
    for x in v:
        for k in range(2):
            vec.append({"e": {"c": "mail", "data": x["m"], **(stream(r) if k else {})}, "x": {"r": "ok", "body": x["body"], "h": x["h"], "done": True}})
    c.replay(vec, "every short stream")
    ses = []
    for i in range(c.pick(1200, 15000)):
        k = r.randrange(8)
        if k < 5:
            fs, eol, b = message(r)
            m = join(fs, eol, None if r.randrange(6) == 0 else b)
            if r.randrange(5) == 0: m = m[:r.randrange(len(m) + 1)]
            if r.randrange(8) == 0: m = r.choice([b"\n", b"\r\n", b" x\r\n", b"\r", b"\tY: z\n"]) + m
            if r.randrange(8) == 0:
                at = r.randrange(len(m) + 1); m = m[:at] + r.choice([b"\r", b"\n", b"\r\r\n", b" ", b":", b"\x00"]) + m[at:]
        elif k == 5: m = wild(r)
        elif k == 6: m = bytes(r.randrange(256) for _ in range(r.randrange(0, 60)))
        else:
            n = r.choice(BLOCKS) + r.randrange(-2, 3)
            m = r.choice([b"X: " + b"a" * n, b"X" * n + b": v", b"From: a\r\n" + b" c" * (n // 2)]) + r.choice([b"\r\n", b"\n", b"", b"\r"]) + r.choice([b"\r\n", b"\n", b"", b" t\r\n\r\n"]) + b"body"
        ses.append({"ev": [{"c": "mail", "data": hx(m), **stream(r)}]})
    for o in range(256):        # every octet in every place
        ses.append({"ev": [{"c": "mail", "data": hx(m % bytes([o])), **stream(r)} for m in (b"%sA: v\r\n\r\nb", b"A%sB: v\n\nb", b"A%s: v\n\nb", b"A:%sv\n\nb", b"A: v%sw\nB: w\n\nx", b"A: v%s\nB: w\n\nx", b"A: v\r%sB: w\r\n\r\nx", b"A: v\n%sB: w\n\nx", b"A: v\r\n\r%sB: w\r\nx",
                                                                                            b"A: v\r\n%s\r\nx", b"A: v\r\n%s\n\nx", b"A: v\n\n%s", b"A: v%s", b"A: v\r\n%s")]})
    c.traces(ses, "generated messages", chunk=5000)

def cfg(consts, invs, props="", spec="Spec"):
    return f"SPECIFICATION {spec}\nCONSTANTS\n" + "\n".join(f"  {k} = {v}" for k, v in consts.items()) + \
        (f"\nINVARIANTS {invs}" if invs else "") + (f"\nPROPERTIES {props}" if props else "") + "\nCHECK_DEADLOCK FALSE\n"

# ---------------------------------------------------------------- C07
def tags_cmp(x, o):
    if not x["ok"]: return o["r"] == "perm"
    return o["r"] == "ok" and sorted(map(str, map(sorted, (t.items() for t in o["t"])))) == sorted(map(str, map(sorted, (t.items() for t in x["t"]))))
def taglist(r):
    """mostly legal tag lists, every so often spoiled"""
    ws = lambda: r.choice([b"", b"", b"", b" ", b"\t", b"\r\n ", b"\r\n\t", b" \r\n  ", b"\n", b"\r", b"  "])
    names = [b"v", b"a", b"b", b"bh", b"B", b"x_1", b"d", b"9", b"longname", b"t", b"_"]
    vals = [b"", b"1", b"rsa-sha256", b"a b", b"a\r\n b", b"=", b"==x=", b"~!\"#$%&'()*+,-./:<>?@[\\]^_`{|}", b"x" * r.choice([1, 20, 300]), b"a = b", b"a\t\tb"]
    n = r.choice([0, 1, 1, 2, 3, 5, 9])
    ns = r.sample(names, min(n, len(names))) if r.randrange(8) else [r.choice(names) for _ in range(n)]
    s = b";".join(ws() + x + ws() + b"=" + ws() + r.choice(vals) + ws() for x in ns)
    if r.randrange(2): s += b";" + ws()
    if r.randrange(6) == 0:
        at = r.randrange(len(s) + 1)
        s = s[:at] + r.choice([b";", b"=", b" ", b"\x7f", b"\x80", b"\xff", b"\x00", b"\x1f", b";;", b"-", b"\x0b"]) + s[at:]
    return s
def C07(c):
    r = c.rng
    v = c.model("MC_Tags", cfg({"MaxLen": c.pick(5, 6), "EmitOn": "TRUE"}, "Agree Distinct Offsets Blank Raw Generate"))
    c.replay([{"e": {"c": "tags", "data": x["d"]}, "x": {"ok": x["ok"], "t": x["t"]}} for x in v], "every short tag list", cmp=tags_cmp)
    ses = [{"ev": [{"c": "tags", "data": hx(b"a=" + bytes([o]) + b"x;b" + bytes([p]) + b"=y")}]} for o in range(256) for p in ([32] if o % 3 else [32, o])]
    ses += [{"ev": [{"c": "tags", "data": hx(b"a" + bytes([o]) + b"=y")}, {"c": "tags", "data": hx(bytes([o]) + b"a=y")}, {"c": "tags", "data": hx(b"a=y" + bytes([o]))}]} for o in range(256)]
    ses += [{"ev": [{"c": "tags", "data": hx(taglist(r))}]} for _ in range(c.pick(2500, 40000))]
    for n in SIZES(c):
        for t in (b"a=" + b"v" * n + b"; b=1", b"n" * n + b"=1; b=2", b"; ".join(b"t%d=%d" % (i, i) for i in range(n // 8)), b"a" + b" " * n + b"=" + b"\r\n " * n + b"x" + b"\t" * n + b"; b=1", b"a=x" + b" " * n + b"y; b=1",
                  b"".join(b"t%d=;" % i for i in range(n // 8)) + b"t0=1", b"a=1;" + b" " * n, b"a=" + b"v" * n + b"\x00", b"n" * n + b"-=1"):
            if n <= c.pick(1100, 5000) or b"t1=" not in t: ses.append({"ev": [{"c": "tags", "data": hx(t)}]})
    c.traces(ses, "generated tag lists", chunk=10000)

# ---------------------------------------------------------------- C18
def ws_cmp(x, o):
    return o["r"] == "perm" if x["n"] < 0 else o["r"] == "ok" and o["out"] == x["out"] and o["pos"] == x["at"] + x["n"]
def list_cmp(x, o):
    return (o["r"] == "ok" and o["out"] == x["v"]) if x["ok"] else o["r"] == "perm"
def C18(c):
    r = c.rng
    v = c.model("MC_List", cfg({"MaxLen": c.pick(5, 7), "EmitOn": "TRUE"}, "Agree Trimmed StrayRefused Reads Whole Generate"))
    c.replay([{"e": {"c": "vlist", "data": x["d"]}, "x": {"ok": x["ok"], "v": x["v"]}} for x in v], "every short list", cmp=list_cmp)
    vec = []
    for x in v:
        if len(x["d"]) // 2 > c.pick(5, 6): continue
        for k, ns in x["w"].items():
            for at, n in enumerate(ns):
                vec.append({"e": {"c": "ws", "kind": k, "data": x["d"], "at": at}, "x": {"n": n, "at": at, "out": x["d"][2 * at:2 * (at + max(0, n))]}})
    c.replay(vec, "every white space read", cmp=ws_cmp)
    ses = []
    for _ in range(c.pick(1500, 20000)):
        el = lambda: mix(r, [b"from", b"To", b"x-y", b" ", b"\t", b"\r\n ", b"=", b"\xff", b"a"], r.choice([1, 1, 1, 2, 4]))
        s = b":".join(r.choice([b"", b" ", b"\r\n ", b"\t"]) + el() + r.choice([b"", b" ", b"\r\n\t "]) for _ in range(r.choice([0, 1, 2, 4, 12])))
        if r.randrange(4) == 0: s += r.choice([b":", b"::", b" : ", b":\r\n ", b"\r", b"\n", b" \r\n"])
        w = mix(r, [b" ", b"\t", b"\r\n", b"\r", b"\n", b"x", b"\r\n "], r.randrange(0, 12))
        at = r.randrange(len(w) + 1)
        ses.append({"ev": [{"c": "vlist", "data": hx(s)}] + [{"c": "ws", "kind": k, "data": hx(w), "at": at} for k in ("crlf", "wsp", "loose", "fws")]})
    for n in (300, 5000):
        ses.append({"ev": [{"c": "vlist", "data": hx(b":".join(b"n%d" % i for i in range(n // 10)))}, {"c": "ws", "kind": "fws", "data": hx(b" " * n + b"\r\n" + b"\t" * n + b"x"), "at": 0}]})
    ses += [{"ev": [{"c": "ws", "kind": k, "data": hx(bytes([o]) + b" "), "at": 0} for k in ("crlf", "wsp", "loose", "fws")] + [{"c": "vlist", "data": hx(b"a" + bytes([o]) + b"b")}]} for o in range(256)]
    for n in SIZES(c):
        for t in (b"a" * n, b"x:" + b"b" * n + b":y", b" " * n + b"a" + b"\t" * n + b": b", b"x:a" + b" " * n + b"b:y", b":".join(b"e%d" % i for i in range(n // 6)), b"a:" + b"\r\n " * n + b"b", b"a" * n + b"::b", b"a b" * n + b":c"):
            if n <= 1100 or t.count(b" b") + t.count(b":e") + t.count(b"\n ") < 1100: ses.append({"ev": [{"c": "vlist", "data": hx(t)}]})
        for w in (b" " * n + b"x", b" " * n + b"\r\n" + b"\t" * n, b"\r\n " * n, b" \t" * n + b"\r", b"x" * n):
            ses.append({"ev": [{"c": "ws", "kind": k, "data": hx(w), "at": r.choice([0, 0, 1, n // 2])} for k in ("crlf", "wsp", "loose", "fws")]})
    c.traces(ses, "generated lists and reads", chunk=10000)

# ---------------------------------------------------------------- C16
def C16(c):
    r = c.rng
    v = c.model("MC_Codec", cfg({"MaxLen": c.pick(4, 5), "EmitOn": "TRUE"}, "B64Trip QpTrip Accepts Words Linear Generate"))
    vec = []
    for x in v:
        if x["k"] == "octets":
            vec += [{"e": {"c": "b64enc", "data": x["d"]}, "x": {"ok": True, "out": x["b"]}}, {"e": {"c": "b64dec", "data": x["b"]}, "x": {"ok": True, "out": x["d"]}},
                    {"e": {"c": "qpenc", "data": x["d"]}, "x": {"ok": True, "out": x["q"]}}, {"e": {"c": "qpdec", "data": x["q"], "w": False}, "x": {"ok": True, "out": x["d"]}}]
        else:
            vec += [{"e": {"c": "qpdec", "data": x["d"], "w": False}, "x": {"ok": x["ok"], "out": x["f"]}}, {"e": {"c": "qpdec", "data": x["d"], "w": True}, "x": {"ok": x["ok"], "out": x["t"]}}]
    c.replay(vec, "every short string and text", cmp=octet_or_perm)
    ses = []
    def trip(d):
        q = "".join(chr(o) if 33 <= o <= 126 and o not in (61, 59) else "=%02X" % o for o in d)
        return {"ev": [{"c": "b64enc", "data": hx(d)}, {"c": "b64dec", "data": hx(b64(d))}, {"c": "qpenc", "data": hx(d)}, {"c": "qpdec", "data": hx(q), "w": False}]}
    for o in range(256):
        ses.append(trip(bytes([o]))); ses.append(trip(bytes([r.randrange(256), o]))); ses.append(trip(bytes([o, r.randrange(256), r.randrange(256)])))
        for pre in (b"", b"=", b"=A", b"=3"):
            ses.append({"ev": [{"c": "qpdec", "data": hx(pre + bytes([o]) + t), "w": w} for w in (False, True) for t in (b"", b"A")]})
    sizes = [30, 47, 48, 57, 58, 63, 64, 65, 76, 127, 128, 255, 256, 511, 512, 513, 1021, 1023, 1024, 1025, 3000, 3072, 3073, 4095, 4096, 4097] + [r.randrange(0, 2500) for _ in range(c.pick(120, 1500))] + c.pick([8191, 8192, 16384, 66000], [8190, 8191, 8192, 8193, 16383, 16384, 20000, 65536])
    for n in sizes:
        ses.append(trip(bytes(r.randrange(256) for _ in range(n))))
        if n < 600: ses.append(trip(bytes([r.choice([0, 255, 13, 10, 61])]) * n))
    for _ in range(c.pick(1500, 20000)):
        t = mix(r, [b"=3D", b"=0A", b"=FF", b"=0a", b"=", b"_", b"abc", b" ", b"\t", b"\r\n ", b"\r\n", b"\n", b";", b"~", b"=4", b"\x80"] , r.randrange(1, 7)) if r.randrange(3) else mix(r, [b"=%02X" % r.randrange(256), b"ab", b" ", b"\r\n\t", b"_", b"=5F"], r.randrange(1, 9))
        ses.append({"ev": [{"c": "qpdec", "data": hx(t), "w": w} for w in (False, True)]})
    c.traces(ses, "generated strings", chunk=10000)

# ---------------------------------------------------------------- C17
def ew_cmp(x, o):
    return o["r"] in ("ok", "perm") if x["open"] else octet_or_perm(x, o)
def encword(r):
    d = bytes(r.choice([r.randrange(256), 65, 32, 95, 61, 63]) for _ in range(r.choice([0, 1, 3, 8, 60])))
    cs = r.choice([b"utf-8", b"UTF-8", b"iso-8859-1", b"x", b"us-ascii*EN", b""])
    if r.randrange(2):
        t = b"".join(b"_" if o == 32 else bytes([o]) if chr(o).isalnum() and o < 128 else b"=%02X" % o for o in d); e = r.choice([b"q", b"Q"])
    else:
        t = b64(d).encode(); e = r.choice([b"b", b"B"])
    w = b"=?" + cs + b"?" + e + b"?" + t + b"?="
    k = r.randrange(14)
    if k == 0: w = w[:-1]
    elif k == 1: w = w.replace(b"?" + e + b"?", b"?x?")
    elif k == 2: w = w[:r.randrange(len(w) + 1)]
    elif k == 3: w = w.replace(b"?" + t, b"?" + t + b"=0g")
    elif k == 4: w += r.choice([b"x", b",", b"=", b"=?"])
    return w
def C17(c):
    r = c.rng
    v = c.model("MC_EncWord", cfg({"MaxLen": c.pick(4, 5), "EmitOn": "TRUE"}, "PlainKept Tail1 Shrinks Generate"))
    c.replay([{"e": {"c": "ew", "data": x["d"]}, "x": {"ok": x["ok"], "open": x["open"], "out": x["v"]}} for x in v], "every short text", cmp=ew_cmp)
    ses = []
    gap = lambda: r.choice([b"", b" ", b" ", b"\r\n ", b"\t", b"  ", b" \r\n\t", b"\r\n"])
    for _ in range(c.pick(3000, 40000)):
        s = b"".join(gap() + r.choice([encword, lambda r: value(r, folds=True), encword, lambda r: mix(r, [b"a", b"=", b"?", b"(", b"\xe9"], 3)])(r) for _ in range(r.choice([1, 1, 2, 3, 5]))) + gap()
        ses.append({"ev": [{"c": "ew", "data": hx(s)}]})
    for o in range(256):        # every octet in every place of a word and about it
        ses.append({"ev": [{"c": "ew", "data": hx(f % bytes([o]))} for f in (b"=?u?q?a?=%s", b"=?u?q?a?=%sx =?u?b?YWI=?=", b"x%s=?u?q?a?=", b"%s=?u?q?a?=", b"=?u?q?a%sb?= c", b"=?u%s?q?a?= c", b"=?u?%s?YWI=?= c", b"=?u?q%s?a?= c", b"=?u?b?YW%sI=?= c",
                                                                               b"=%su?q?a?= c", b"=?u?q?a?%s c", b"=?u?q?=%s1?= c", b"=?u?q?=4%s?= c", b"a %s b", b"=?u?q?a?= %s=?u?q?b?=", b"=?u?q?a?=\r\n%s=?u?q?b?=")]})
    for n in SIZES(c):
        if n > 4097: continue
        d = bytes(r.randrange(256) for _ in range(n))
        for t in (b"=?u?b?" + b64(d).encode() + b"?=", b"=?u?q?" + b"".join(b"=%02X" % o for o in d) + b"?=", b"x" * n + b" =?u?q?a?=", b"=?" + b"c" * n + b"?q?a?=", b" ".join([b"=?u?q?a?="] * (n // 10)), b"=?u?q?a?=" + b" " * n + b"=?u?q?b?=",
                  b"=?u?q?a?=\r\n" + b" " * n + b"x", b"a" * n + b"=?u?q?b", b" ".join([b"=?u?b?QQ==?= x"] * (n // 15)), b"=?u?q?" + b"_" * n + b"?="):
            ses.append({"ev": [{"c": "ew", "data": hx(t)}]})
    c.traces(ses, "generated header texts", chunk=10000)

# ---------------------------------------------------------------- C19
def mailbox(r):
    dot = lambda: b".".join(mix(r, [b"a", b"b", b"0", b"-", b"\xc3\xb6", b"+", b"="], r.randrange(1, 5)) for _ in range(r.choice([1, 1, 2, 3])))
    q = lambda: b"\"" + mix(r, [b"a", b" ", b",", b"\\\"", b"\\\\", b"@", b"<", b"(", b";", b"\xff", b"\\a", b")"], r.randrange(0, 6)) + b"\""
    cm = lambda: b"(" + mix(r, [b"c", b" ", b"\\)", b"\\(", b"(n)", b"\"", b"<", b",", b"\\\\", b"\xff"], r.randrange(0, 6)) + b")"
    g = lambda: r.choice([b"", b"", b" ", b"\t", b"\r\n ", cm(), b" " + cm() + b" "])
    local = r.choice([dot, dot, q])()
    a = g() + local + g() + b"@" + g() + dot() + g()
    k = r.randrange(7)
    if k < 2: return a
    if k == 2: return b"<" + a + b">"
    if k == 3: return g() + dot() + b" " + dot() + g() + b"<" + a + b">" + g()
    if k == 4: return q() + g() + b"<" + a + b">"
    if k == 5: return b"\"" + a.replace(b"\\", b"\\\\").replace(b"\"", b"\\\"") + b"\""
    return r.choice([b"<>", b"undisclosed", b"Doe, J <" + a + b">", b"grp: " + a + b";", q(), cm()])
def C19(c):
    r = c.rng
    v = c.model("MC_Addr", cfg({"MaxLen": c.pick(4, 5), "MaxEntries": 2, "EmitOn": "TRUE"}, "Meaning FromText Unclosed OpenAngle Generate"))
    c.replay([{"e": {"c": "addr", "data": x["d"]}, "x": {"ok": x["ok"], "v": x["v"]}} for x in v], "every short text and every short list", cmp=list_cmp)
    ses = []
    for _ in range(c.pick(4000, 50000)):
        s = r.choice([b", ", b",", b";", b"\r\n ,", b" ; "]).join(mailbox(r) for _ in range(r.choice([0, 1, 1, 2, 3, 6])))
        if r.randrange(4) == 0:
            at = r.randrange(len(s) + 1)
            s = s[:at] + r.choice([b"\"", b"(", b")", b"<", b">", b",", b"\\", b"\x00", b"\r", b"\n", b"\xff", b"@", b"\r\n "]) + s[at:]
        if r.randrange(10) == 0: s = s[:r.randrange(len(s) + 1)]
        ses.append({"ev": [{"c": "addr", "data": hx(s)}]})
    for o in range(256):
        ses.append({"ev": [{"c": "addr", "data": hx(f % bytes([o]))} for f in (b"a%s@b", b"\"%s\"@b", b"(%s)a@b", b"\"\\%s\"@b", b"x%s<a@b>", b"<a@b>%s", b"(\\%s)a@b")]})
    for n in SIZES(c):
        if n > c.pick(2048, 8192): continue
        for t in (b"a" * n + b"@b", b"a@" + b"b" * n, b"\"" + b"q" * n + b"\"@b", b"(" + b"c" * n + b")a@b", b"n" * n + b" <a@b>", b", ".join(b"u%d@h" % i for i in range(n // 8)), b"a@b" + b" " * n + b", c@d", b"\"" + b"n" * n + b"\" <a@b>", b"<" + b"a" * n + b"@b>, x@y",
                  b"(" * (n // 4) + b"c" + b")" * (n // 4) + b"a@b", b"\"" + b"\\\"" * (n // 2) + b"\" <a@b>"):
            ses.append({"ev": [{"c": "addr", "data": hx(t)}]})
    c.traces(ses, "generated address lists", chunk=10000)

# ---------------------------------------------------------------- C15
def dns_cmp(x, o):
    if o["r"] != "ok": return False
    return (o["found"] and o["out"] == x["v"]) if x["r"] == "txt" else (not o["found"]) if x["r"] == "fail" else True
def w16(n): return bytes([n >> 8 & 255, n & 255])
def dnsname(r, wild=False):
    return b"".join(bytes([n]) + b"x" * n for n in [r.choice([1, 3, 9, 63]) for _ in range(r.randrange(0, 4))]) + r.choice([b"\0", b"\xc0\x0c", b"\xff\xff" if wild else b"\xc0\x0c", b"\0"])
def dnsmsg(r, big=False):
    qd, recs = r.choice([0, 1, 1, 1, 2, 5]), r.choice([0, 1, 1, 2, 4, 9])
    m = b"".join(dnsname(r) + w16(16) + w16(1) for _ in range(qd))
    cnt = 0
    for i in range(recs):
        nm = dnsname(r)
        cnt += 1
        if r.randrange(4) == 0:
            ty = r.choice([1, 5, 6, 46, 15, 272, 4096, 17, 0])
            rd = bytes(r.randrange(256) for _ in range(r.choice([0, 4, 20, 300])))
        else:
            ty = 16
            ss = [bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 100, 254, 255]))) for _ in range(r.choice([0, 1, 1, 2, 4, 200 if big and i == recs - 1 else 3]))]
            rd = b"".join(bytes([len(s)]) + s for s in ss)
        m += nm + w16(ty) + w16(r.choice([1, 1, 3, 255])) + bytes(r.randrange(256) for _ in range(4)) + w16(len(rd)) + rd
    h = bytes([r.randrange(256), r.randrange(256), r.choice([0x81, 0x85, 0x83]), r.choice([0x80, 0xa0])]) + w16(qd) + w16(cnt) + w16(r.choice([0, 2])) + w16(r.choice([0, 1]))
    m = h + m
    if r.randrange(3) == 0: m += bytes(r.randrange(256) for _ in range(r.choice([1, 11, 40])))
    return m
def spoil(r, m):
    k = r.randrange(6)
    if k == 0: return m[:r.randrange(len(m) + 1)]
    if k == 1: return m[:-r.randrange(1, 20)]
    if k == 2:
        m = bytearray(m)
        for _ in range(r.randrange(1, 4)): m[r.randrange(len(m))] = r.choice([0, 1, 63, 64, 192, 255, r.randrange(256)])
        return bytes(m)
    if k == 3: return m[:4] + w16(r.choice([0, 1, 3, 65535])) + m[6:]
    if k == 4: return m[:6] + w16(r.choice([0, 1, 3, 65535])) + m[8:]
    return bytes(r.randrange(256) for _ in range(r.randrange(0, 100)))
def C15(c):
    r = c.rng
    v = c.model("MC_Dns", cfg({"MaxRecs": 2, "MaxName": c.pick(5, 6), "EmitOn": "TRUE"}, "Exact Overrun Legal Generate"))
    c.replay([{"e": {"c": "dns", "herr": "", "data": x["d"]}, "x": x} for x in v if x["k"] == "dns"], "every small response", cmp=dns_cmp)
    ses = []
    for i in range(c.pick(1500, 20000)):
        m = dnsmsg(r)
        if i % 3 == 0: m = spoil(r, m)
        ses.append({"ev": [{"c": "dns", "herr": "", "data": hx(m)}] + ([{"c": "dns", "herr": r.choice(["notfound", "nodata", "norecovery", "tryagain"]), "data": hx(m)}] if i % 5 == 0 else [])})
    for i in range(c.pick(12, 60)):     # close to the 64K a response can have
        m = dnsmsg(r, big=True)
        rd = b"".join(b"\xff" + bytes([97 + r.randrange(26)]) * 255 for _ in range(255 - len(m) // 256))
        m = m[:6] + w16(m[6] * 256 + m[7] + 1) + m[8:] if False else m
        h = b"\x12\x34\x81\x80" + w16(1) + w16(1) + b"\0\0\0\0" + b"\1x\0\0\x10\0\1" + b"\xc0\x0c\0\x10\0\1\0\0\0\x3c"
        claim = len(rd) + r.choice([0, 0, 1, 200, 255]) 
        x = h + w16(min(65535, claim)) + rd
        if r.randrange(2): x = x[:65535 - r.randrange(0, 400)]
        ses.append({"ev": [{"c": "dns", "herr": "", "data": hx(x)}]})
    c.traces(ses, "generated responses", chunk=10000)

# ---------------------------------------------------------------- signed messages
def forged(c, jobs):
    """jobs: [(sig, fields, body)] -> [(fields with the signature inserted, index)] or None where nothing can be signed"""
    texts = c.forge([s.draft(c.rng, glue(fs, b)) for s, fs, b in jobs])
    out = []
    for (s, fs, b), t in zip(jobs, texts):
        if t is None: out.append(None); continue
        at = c.rng.randrange(len(fs) + 1) if c.rng.randrange(3) == 0 else 0
        out.append((fs[:at] + [uh(t)] + fs[at:], at))
    return out
def loose(r):
    """line ends of the message in transit"""
    return r.choice([b"\r\n", b"\r\n", b"\n"])
def eolbody(b, eol):
    return b.replace(b"\r\n", b"\n") if eol == b"\n" else b
def some_sig(r, **w):
    fs, b = safe_message(r)
    return Sig(r, fs, **w), fs, b

def cls_cmp(x, o):
    """expected class r/ar (any: whatever, but one of the declared outcomes), other fields exactly"""
    if x.get("r") == "any": return o["r"] in ("ok", "perm", "temp")
    return all(o.get(f) == v for f, v in x.items() if f != "ar") and (x.get("r") == "ok" or "ar" not in x or o["ar"] == x["ar"])
def protocol(c, ops, algs, name, parts=1, only=None, keep=1):
    """every short history of the sign-carry-verify model, verified by the real code"""
    r = c.rng
    v = []
    for part in ([only] if only is not None else range(parts)):
        v += c.model("MC_Protocol", cfg({"MaxOps": ops, "Algs": "{%s}" % ", ".join('"%s"' % a for a in algs), "Part": part, "Parts": parts, "EmitOn": "TRUE"}, "Verdict Parsed", "HarmStays"), name=f"MC_Protocol ops={ops} {'/'.join(algs)} part {part}")
    runs = []
    for x in v:
        if keep > 1 and r.randrange(keep): continue
        if x["b"]["r"] == "perm" and x["b"]["ar"] == "permerror": ks = {"r": "noobj"}; ss = {"r": "noobj"}
        else: ks = {"r": "ok"}; ss = x["s"]
        runs.append({"ev": [table([("s._domainkey.e.x", True, keyrec(r, x["kid"], plain=True))]), {"c": "val", "v": "v", "type": "dkim", "data": x["data"], "custom": bool(r.randrange(2)), **stream(r)},
                            {"c": "getsig", "v": "v", "k": 1, "s": "s"}, {"c": "getkey", "v": "v", "s": "s", "p": "p"}, {"c": "check", "v": "v", "k": 1, "s": "s", "p": "p"}],
                     "x": [None, {"r": "ok"}, x["b"], ks, ss]})
    c.replay_sessions(runs, name, cmp=cls_cmp)

# ---------------------------------------------------------------- C03
def C03(c):
    r = c.rng
    if c.thorough: protocol(c, 2, ["rsa"], "every two-step history", parts=8)
    protocol(c, 1, c.pick(["ed", "rsa1"], ["ed", "rsa1", "rsa"]), "every one-step history")
    jobs = [some_sig(r, type="arc" if n % 5 == 0 else "dkim") for n in range(c.pick(500, 6000))]
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        fs, i = f
        tab = table([(s.query, True, keyrec(r, s.kid, h=r.choice([None, None, s.hash, "sha1:sha256", " sha256 : sha1 :x"]), s=r.choice([None, None, "email", "*", "x : email"]), t=r.choice([None, None, "y", "x"])))])
        for n in range(3):
            f2, b2, sig = list(fs), b, f[0][i]
            if n:
                for op in r.sample(TOLERATED, r.choice([1, 2, 3])):
                    k = f2.index(sig) if sig in f2 else None
                    if k is None: break
                    x = op(r, s, f2, b2, k)
                    if x is None or x[1] is None: continue
                    if op in (t_relaxhead, t_bws): sig2 = x[0][k]
                    else: sig2 = sig
                    f2, b2 = x
                    sig = sig2
            eol = loose(r)
            ses.append({"ev": verify(glue(f2, eolbody(b2, eol), eol), s.type, 1, tab, r, now=s.now, claims=[(["ok"], ["ok"], ["ok"])])})
    c.traces(ses, "validly signed messages in every layout, after tolerated transit", chunk=3000)
    jobs = [big_sig(r, k, n) for k in BIG for n in [r.choice([500, 1100, 2100, 4200])] * c.pick(2, 6) + [r.choice([8300, 9000, 16500] if k != "same" else [5300])] + c.pick([], [33000, 66000] if k != "same" else [])]
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        tab = table([(s.query, True, keyrec(r, s.kid))])
        for n in range(2):
            f2, b2 = list(f[0]), b
            if n: f2, b2 = next(x for x in [o(r, s, f2, b2, f[1]) for o in r.sample([t_unsigned, t_above, t_blank, t_relaxbody, t_bws], 5)] + [(f2, b2)] if x and x[1] is not None)
            ses.append({"ev": verify(glue(f2, b2), s.type, 1, tab, r, now=s.now, claims=[(["ok"], ["ok"], ["ok"])])})
    c.traces(ses, "large validly signed messages", chunk=500)

# ---------------------------------------------------------------- C02
def C02(c):
    r = c.rng
    if c.thorough: protocol(c, 2, ["ed"], "every two-step history", parts=8)
    protocol(c, 1, c.pick(["rsa"], ["ed", "rsa1", "rsa"]), "every one-step history")
    jobs = [some_sig(r, type="arc" if n % 6 == 0 else "dkim") for n in range(c.pick(400, 5000))]
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        fs, i = f
        strict = r.randrange(4) == 0 and s.type == "dkim"
        tab = table([(s.query, True, keyrec(r, s.kid))])
        for op in r.sample(TAMPERING, 5):
            x = op(r, s, fs, b, i)
            if x is None or x[1] is None: continue
            eol = loose(r)
            ev = verify(glue(x[0], eolbody(x[1], eol), eol), s.type, 1, tab, r, now=s.now)
            ev[-3 if op in (a_body, a_bodycut, a_bodyadd, a_simplebody) else -1]["claim"] = ["perm", "any", "noobj"]
            ses.append({"ev": ev})
        if r.randrange(3) == 0:     # another key of the same kind; another kind; the record of another selector
            kid = r.choice([k for k in KEYS if k != s.kid and k in RSA + ED])
            ev = verify(glue(fs, b), s.type, 1, table([(s.query, True, keyrec(r, kid))]), r, now=s.now)
            ev[-1]["claim"] = ["perm"]
            ses.append({"ev": ev})
    c.traces(ses, "signed messages altered", chunk=3000)
    jobs = [big_sig(r, k, n) for k in BIG for n in [r.choice([500, 1100, 2100, 4200])] * c.pick(2, 6) + [r.choice([8300, 9000, 16500] if k != "same" else [5300])] + c.pick([], [33000, 66000] if k != "same" else [])]
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        fs, i = f
        tab = table([(s.query, True, keyrec(r, s.kid))])
        for op in [a_value, a_body, a_tag] + r.sample([a_delete, a_over, a_bodycut, a_bodyadd, a_swap, a_newtag], 2):
            x = op(r, s, fs, b, i)
            if x is None or x[1] is None: continue
            ev = verify(glue(*x), s.type, 1, tab, r, now=s.now)
            ev[-3 if op in (a_body, a_bodycut, a_bodyadd) else -1]["claim"] = ["perm", "any", "noobj"]
            ses.append({"ev": ev})
    c.traces(ses, "large signed messages altered", chunk=500)
    # signed by one who holds the key but states another body hash, or signs something else
    jobs = []
    for n in range(c.pick(350, 5000)):
        s, fs, b = some_sig(r, type="arc" if n % 6 == 0 else "dkim", x=None)
        if n % 4 == 0: b = body(r, r.choice([30, 300]))
        s.lie = bodylie(r, s) if n % 3 else keylie(r, s)
        if s.lie.get("hlie") == "nul": s.l, b = None, nulbody(r, s)
        jobs.append((s, fs, b))
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        ev = verify(glue(f[0], b), s.type, 1, table([(s.query, True, keyrec(r, s.kid))]), r, now=s.now)
        if s.lie.get("slie") in SURELIES: ev[-1]["claim"] = ["perm", "noobj"]
        if s.lie.get("hlie") in ("flip", "cut", "ext", "tail", "twice", "pair"): ev[-3]["claim"] = ["perm", "any"]
        ses.append({"ev": ev})
    c.traces(ses, "well-made signatures over the wrong octets", chunk=3000)

# ---------------------------------------------------------------- C01
from signgen import *
def C01(c):
    r = c.rng
    ses = []
    for _ in range(c.pick(700, 8000)):
        fs, m = sign_message(r, r.choice([None] * 20 + [3000, 9000]))
        p = Plan(r, fs)
        ses.append({"ev": signing(r, p, m, claims=p.unique())})
    for _ in range(c.pick(30, 300)):
        fs, _ = safe_message(r)
        p = Plan(r, fs)
        ses.append({"ev": signing(r, p, glue(fs, edge_body(r)), claims=p.unique())})
    for kid in WIDTHS * c.pick(1, 5):       # every length of a signature modulo a line
        fs, m = sign_message(r)
        p = Plan(r, fs, kid=kid)
        ses.append({"ev": signing(r, p, m, claims=p.unique())})
    c.traces(ses, "messages signed in every configuration and verified", chunk=2000)
    v = sign_model(c, 2)
    if not c.thorough: v = [x for x in v if r.randrange(3) == 0]
    c.traces(sign_sessions(c, v, True), "every configuration with few unusual settings", chunk=2000)
    if c.thorough:
        v = sign_model(c, 3, [c.seed % 4 + 1])
        c.traces(sign_sessions(c, [x for x in v if r.randrange(4) == 0], True), "three unusual settings", chunk=2000)

# ---------------------------------------------------------------- C08
def sig_cmp(x, o):
    if not x["ok"]: return o["r"] == "perm" and o["ar"] == "permerror"
    skip = {"local", "mdom"} if x["arc"] else {"inst"}
    if not x["v"]["lset"]: skip.add("l")
    return o["r"] == "ok" and all(o[f] == y for f, y in x["v"].items() if f not in skip)
def C08(c):
    r = c.rng
    for arc in (False, True):
        v = c.model("MC_SigField", cfg({"MaxDev": c.pick(2, 3), "Arc": str(arc).upper(), "Part": c.seed % 3, "Parts": 3, "EmitOn": "TRUE"}, "Agree States Generate"), name=f"MC_SigField {'ARC' if arc else 'DKIM'}")
        c.replay([{"e": {"c": "psig", "data": x["f"]}, "x": x} for x in v], f"every field with few deviations, {'ARC' if arc else 'DKIM'}", cmp=sig_cmp)
        some = v if not c.thorough else [x for x in v if x["dev"] < 3]
        c.replay_sessions([{"ev": [{"c": "val", "v": "v", "type": "arc" if arc else "dkim", "data": x["f"] + hx(b"\r\nFrom: a\r\n\r\nbody\r\n"), "custom": True, **stream(r)}, {"c": "getsig", "v": "v", "k": 1, "s": "s"}],
                            "x": [{"r": "ok", "sigs": [x["f"]]}, {"r": "perm", "ar": "fail" if x["ok"] else "permerror"}]} for x in some], "the same in a message", cmp=cls_cmp)
    # signed fields, every layout; then an octet of them changed
    jobs = [some_sig(r, type="arc" if n % 3 == 0 else "dkim") for n in range(c.pick(250, 4000))]
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        fs, i = f
        t = fs[i]
        ev = [{"c": "now", "d": str(s.now)}, {"c": "psig", "data": hx(t), "claim": ["ok"]}]
        for _ in range(4):
            u = t
            for _ in range(r.choice([1, 1, 2])):
                k = r.randrange(u.index(b":") + 1, len(u))
                m = r.randrange(5)
                if m == 0: u = u[:k] + u[k + 1:]
                elif m == 1: u = u[:k] + bytes([r.choice(b"=;@ /:,0a1\t\x80\x00_-")]) + u[k:]
                elif m == 2: u = u[:k] + bytes([r.choice(b"=;@ /:,0a1\x7f\x1f_-")]) + u[k + 1:]
                elif m == 3:
                    q = u[u.index(b":") + 1:].split(b";"); j = r.randrange(len(q)); q.insert(r.randrange(len(q) + 1), q[j] if r.randrange(3) == 0 else q.pop(j)); u = u[:u.index(b":") + 1] + b";".join(q)
                else: u = u[:k] + r.choice([b"\r\n ", b" ", b"\t"]) + u[k:]
            if not unclear_sig(u): ev.append({"c": "psig", "data": hx(u)})
        ses.append({"ev": ev})
    # every octet at the start, the middle and the end of what each tag says
    plain = {b"v": b"1", b"a": b"rsa-sha256", b"c": b"relaxed/simple", b"d": b"e.x", b"s": b"s1.t", b"h": b"From:To", b"i": b"ab=40c@e.x", b"l": b"12", b"q": b"dns/txt", b"t": b"15", b"x": b"9999999999", b"bh": b"QUJDREVG", b"b": b"QUJDREVG", b"zz": b"some"}
    for arc in (False, True):
        for tag in plain:
            for o in range(256):
                ev = []
                for k in (0, (len(plain[tag]) + 1) // 2, len(plain[tag])):
                    tags = {**plain, **({b"i": b"12"} if arc else {})}
                    if arc: tags.pop(b"v")
                    if tag not in tags or arc and r.randrange(c.pick(4, 1)): continue
                    v = tags[tag]
                    tags[tag] = v[:k] + bytes([o]) + v[k:]
                    u = (b"ARC-Message-Signature: " if arc else b"DKIM-Signature: ") + b"; ".join(k + b"=" + x for k, x in tags.items())
                    if not unclear_sig(u): ev.append({"c": "psig", "data": hx(u)})
                if ev: ses.append({"ev": ev})
    for n in SIZES(c):
        if n > c.pick(4097, 70000): continue
        for tag, v in ((b"d", b"x" * n), (b"s", b"y" * n), (b"i", b"l" * n + b"@e.x"), (b"i", b"=41" * n + b"@e.x"), (b"i", b"@" + b"a." * n + b"e.x"), (b"h", b"From:" + b"h" * n), (b"h", b":".join([b"To"] * n) + b":From"), (b"b", b"QUJD" * (n // 4)), (b"bh", b"QUJD\r\n " * (n // 4)),
                       (b"z", b"v" * n), (b"l", b"0" * n + b"7"), (b"l", b"1" * n), (b"c", b"relaxed/" + b"x" * n), (b"q", b"dns/txt" + b":" * n), (b"a", b"rsa-sha256" + b"x" * n), (b"x", b"0" * n + b"99999999999"), (b"v", b"1" + b" " * n)):
            if n > 1100 and r.randrange(3): continue
            tags = {b"v": b"1", b"a": b"rsa-sha256", b"d": b"e.x", b"s": b"s", b"h": b"From", b"bh": b"QUJD", b"b": b"QUJD", tag: v}
            ses.append({"ev": [{"c": "psig", "data": hx(b"DKIM-Signature: " + b"; ".join(k + b"=" + x for k, x in tags.items()))}]})
    c.traces(ses, "signed fields and damaged ones", chunk=3000)

def unclear_sig(u):
    """fields whose fate no property settles: ARC instances and expiries that are no plain numbers, several @ in an identity"""
    for p in u[u.index(b":") + 1:].split(b";"):
        n, _, v = p.partition(b"=")
        n, v = n.strip(b" \t\r\n"), v.strip(b" \t\r\n")
        if n == b"x" and not v.isdigit(): return True
        if n == b"i" and (u[:3].lower() == b"arc" and not v.isdigit() or v.count(b"@") + v.count(b"=40") > 1 or b"@." in v): return True
    return b"\n\r" in u or b"\r\r" in u or b"\n\n" in u

# ---------------------------------------------------------------- C09
def key_cmp(x, o):
    if not x["ok"]: return o["r"] == "perm" and o["ar"] == "permerror"
    v = x["v"]
    return o["r"] == "ok" and all(o[f] == v[f] for f in ("type", "key", "soft", "flags")) and set(o["hashes"] or ["sha1", "sha256"]) == set(v["hashes"]) and (v["mail"] == "both" or o["mail"] == (v["mail"] == "named"))
def wordlist(r, words, free=False):
    """a colon list of some of these words among others, or None"""
    k = r.randrange(8)
    if k < 2: return None
    l = r.sample(words, r.randrange(0 if free else 1, len(words) + 1)) + r.choices(["x", "foo", "SHA256", "Y", "q" * r.choice([1, 70, 300])], k=r.choice([0, 0, 1, 2] + [40] * (k == 2)))
    r.shuffle(l)
    return r.choice([":", ":", " : ", ":\r\n "]).join(l)
PROFILES = [("rsa_a", "sha256", True, False), ("rsa_a", "sha256", False, False), ("rsa_a", "sha1", True, False), ("ed_a", "sha256", True, False), ("ed_a", "sha256", False, False), ("rsa_a", "sha256", False, True)]
def C09(c):
    r = c.rng
    v = c.model("MC_KeyRec", cfg({"MaxDev": c.pick(2, 3), "EmitOn": "TRUE"}, "Agree Decides TestingInert Generate"))
    c.replay([{"e": {"c": "pkey", "data": x["t"]}, "x": x} for x in v], "every record with few deviations", cmp=key_cmp)
    jobs = []
    for kid, h, same, arc in PROFILES:
        fs, b = safe_message(r)
        s = Sig(r, fs, kid=kid, hash=h, type="arc" if arc else "dkim", d="k.example", s="s", ident=None if arc else r.choice([None, "@k.example", "j@K.Example"]) if same else "a@sub.k.example", x=None)
        jobs.append((s, fs, b))
    vals = []
    for n, ((s, fs, b), f) in enumerate(zip(jobs, forged(c, jobs))):
        vals.append({"c": "val", "v": f"v{n}", "type": s.type, "data": hx(glue(f[0], b)), "custom": n % 2 == 0})
    runs = []
    for x in v:
        ev, want = [table([("s._domainkey.k.example", True, uh(x["t"]))])], [None]
        for n, verdict in enumerate(x["verdicts"]):
            ev += [vals[n], {"c": "getsig", "v": f"v{n}", "k": 1, "s": f"s{n}"}, {"c": "getkey", "v": f"v{n}", "s": f"s{n}", "p": f"p{n}"}, {"c": "check", "v": f"v{n}", "k": 1, "s": f"s{n}", "p": f"p{n}"}]
            want += [{"r": "ok"}, {"r": "ok"}, {"r": "perm", "ar": "permerror"} if not x["ok"] else {"r": "ok"},
                     {"r": "noobj"} if verdict == "unusable" else {"r": "ok"} if verdict == "ok" else {"r": "perm", "ar": verdict}]
        runs.append({"ev": ev, "x": want})
    if c.thorough: runs = [x for n, x in enumerate(runs) if n % 4 == c.seed % 4]
    c.replay_sessions(runs, "every sort of signature under each record", cmp=cls_cmp)
    # identities of every sort, under records that are strict and that are not
    jobs, ses = [], []
    for _ in range(c.pick(150, 2500)):
        fs, b = safe_message(r)
        d = r.choice(DOMAINS)
        ident = r.choice([None, "@" + d, "joe@" + d.swapcase()] + [subdomain(r, d)] * 5)
        jobs.append((Sig(r, fs, type="dkim", d=d, ident=ident, x=None, l=None), fs, b))
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        ev = [{"c": "now", "d": "1700000000"}]
        for n, t in enumerate(r.sample(["s", "y:s", "s:y", " s ", "y", "", "S", "sx:x", None], 2) + ["s"]):
            ev += [table([(f"{s.s}._domainkey.{s.d.lower()}", True, keyrec(r, s.kid, t=t))]), {"c": "val", "v": f"v{n}", "type": "dkim", "data": hx(glue(f[0], b)), "custom": bool(r.randrange(2))},
                   {"c": "getsig", "v": f"v{n}", "k": 1, "s": f"s{n}"}, {"c": "getkey", "v": f"v{n}", "s": f"s{n}", "p": f"p{n}"}, {"c": "check", "v": f"v{n}", "k": 1, "s": f"s{n}", "p": f"p{n}"}]
        same = s.ident is None or s.ident.partition("@")[2].lower() == s.d.lower()
        ev[-1]["claim"] = ["ok"] if same else ["perm", "noobj"]
        ses.append({"ev": ev})
    c.traces(ses, "identities under strict and other records", chunk=2000)
    # records of valid keys with the wording changed at random
    ses = []
    for _ in range(c.pick(400, 6000)):
        kid = r.choice(RSA + ED)
        t = keyrec(r, kid, h=wordlist(r, ["sha1", "sha256"]), s=wordlist(r, ["email", "*"]), t=wordlist(r, ["y", "s"], True))
        ev = [{"c": "pkey", "data": hx(t), "claim": ["ok"]}]
        for _ in range(4):
            k = r.randrange(len(t)); m = r.randrange(4)
            u = t[:k] + t[k + 1:] if m == 0 else t[:k] + bytes([r.choice(b"=;: y*\t\x80\x00_-sA")]) + t[k:] if m == 1 else t[:k] + bytes([r.choice(b"=;: y*\x7f-sB")]) + t[k + 1:] if m == 2 else t[:k] + r.choice([b"\r\n ", b" ", b"; x=1;"]) + t[k:]
            if b"\n\r" not in u and b"\r\r" not in u: ev.append({"c": "pkey", "data": hx(u)})
        ses.append({"ev": ev})
    for kid in ("rsa_a", "ed_a"):       # every octet at the start, the middle and the end of what each tag says
        k64 = dict(p.split("=", 1) for p in keyrec(r, kid, plain=True).decode().replace(" ", "").rstrip(";").split(";"))["p"].encode()
        plain = {b"v": b"DKIM1", b"k": {"rsa_a": b"rsa", "ed_a": b"ed25519"}[kid], b"h": b"sha1:sha256", b"s": b"email:other", b"t": b"y:s", b"n": b"note", b"zz": b"some", b"p": k64}
        for tag in plain:
            for o in range(256):
                ev = []
                for k in (0, (len(plain[tag]) + 1) // 2, len(plain[tag])):
                    if kid == "ed_a" and r.randrange(c.pick(3, 1)): continue
                    u = b"; ".join(t + b"=" + (x[:k] + bytes([o]) + x[k:] if t == tag else x) for t, x in plain.items())
                    if b"\n\r" not in u and b"\r\r" not in u: ev.append({"c": "pkey", "data": hx(u)})
                if ev: ses.append({"ev": ev})
    for n in SIZES(c):
        if n > c.pick(4097, 70000): continue
        for kw in ({"h": "x:" * n + "sha256"}, {"h": "x" * n + ":sha1"}, {"s": "x:" * n + "email"}, {"s": "y" * n + ":*"}, {"t": "x:" * n + "s"}, {"t": "z" * n + ":y"}, {"t": "y:" + "f" * n}):
            ses.append({"ev": [{"c": "pkey", "data": hx(keyrec(r, r.choice(RSA + ED), **kw)), "claim": ["ok"]}]})
        t = keyrec(r, r.choice(RSA + ED), plain=True)
        for u in (b"n=" + b"x" * n + b"; " + t.replace(b"v=DKIM1", b"w=1"), t.replace(b"p=", b"p=" + b" " * n), t.rstrip(b";") + b"; " + b"".join(b"u%d=%d;" % (i, i) for i in range(n // 8)), t.rstrip(b";") + b"; x=" + b" " * n + b"y"): ses.append({"ev": [{"c": "pkey", "data": hx(u), "claim": ["ok"]}]})
    c.traces(ses, "records and damaged ones", chunk=3000)

# ---------------------------------------------------------------- C10, C13: histories
SAYS = ["good", "other", "type", "strict", "sha256", "sha1", "revoked", "garbage", "v2", "short", "empty", "fail"]
def tset(l): return "{" + ", ".join(f'"{x}"' if isinstance(x, str) else str(x) for x in l) + "}"
def histories(c, calls, sigs, says, ops, name, ambients=(), variant="asan"):
    r = c.rng
    v = c.model("MC_Session", cfg({"MaxCalls": calls, "Sigs": tset(sigs), "Says": tset(says), "Ops": tset(ops), "Ambients": tset(f + " " + a for f, a in ambients), "EmitOn": "TRUE"},
                                  "HistoryFree Classified TempOnlyDns Asked Generate") + "VIEW Told\n", name=f"MC_Session {name}, {calls} calls")
    tabs = {x["a"]: x["t"] for x in v if "t" in x}
    msg = next(x["msg"] for x in v if "t" in x)
    runs = []
    for custom in (True, False):
        for x in v:
            if "h" not in x: continue
            ev, want = [], []
            how = stream(r)
            for s in x["h"]:
                e = s["e"]
                if e["c"] == "val": e = {"c": "val", "v": "v", "type": "dkim", "data": msg, "custom": custom, **how}
                elif e["c"] == "table": e = {"c": "table", "t": tabs[e["a"]]}
                elif e["c"] == "ambient": e = {"c": "ambient", "f": e["w"].split()[0], "a": e["w"].split()[1]}
                ev.append(e)
                want.append(s["x"] if "r" in s["x"] else None)
            runs.append({"ev": ev, "x": want})
    c.replay_sessions(runs, name, cmp=cls_cmp, variant=variant)
def C10(c):
    r = c.rng
    histories(c, 3, [1, 2, 3, 4, 5, 6, 7], SAYS, ["pass"], "every answer to every signature")
    histories(c, c.pick(4, 5), [1, 4], c.pick(["good", "fail", "empty"], ["good", "fail", "empty", "sha256"]), ["turn"], "answers that change")
    ses = []
    jobs = [some_sig(r, type="arc" if n % 5 == 0 else "dkim", s=r.choice(["s", "Sel.Two", "x" * 63, "1"]), d=r.choice(["e.x", "E.Example", "a.b.c.d", "x" * 63 + ".net"])) for n in range(c.pick(250, 4000))]
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        fs, i = f
        op = r.choice(TAMPERING + [None] * 8)
        x = op(r, s, fs, b, i) if op else None
        f2, b2 = x if x and x[1] is not None else (fs, b)
        tab = lambda: table([(s.query, *answer(r, s))] + ([(s.query.lower() + ".", True, keyrec(r, s.kid)), ("_domainkey." + s.d, True, keyrec(r, s.kid))] if r.randrange(4) == 0 else []))
        ev = verify(glue(f2, b2), s.type, 1, tab(), r, now=r.choice([s.now] * 5 + [s.now + 90000]))
        for _ in range(r.choice([0, 1, 2])):
            ev += [tab(), {"c": "keyreset", "p": "p1"}] + ev[-2:]
        ses.append({"ev": ev})
    c.traces(ses, "forged signatures and all sorts of answers", chunk=3000)
def answer(r, s):
    k = r.randrange(12)
    good = keyrec(r, s.kid, h=r.choice([None, None, "sha1", "sha256", "sha1:sha256"]), t=r.choice([None, None, "s", "y", "y:s"]), s=r.choice([None, None, "*", "email", "tlsrpt"]))
    if k < 5: return True, good
    if k == 5: return False, b"" if r.randrange(2) else good
    if k == 6: return True, b""
    if k == 7: return True, keyrec(r, r.choice(RSA + ED))
    if k == 8: return True, good.replace(b"p=", r.choice([b"p=;q=", b"P=", b"p=!", b"p=="]))
    if k == 9: return True, r.choice([b"v=spf1 -all", b"hello", b"=", b";", b" ", b"p=", b"v=DKIM1", b"k=rsa; p=AAAA", b"\xff", b"a=1;a=2", b"k=ed25519; p=" + b64(bytes(r.choice([0, 1, 31, 33, 64]))).encode(), b"p=" + b64(uh(KEYS["rsa_a"]["rsapub"])[:r.choice([20, 80])]).encode()])
    if k == 10: return True, good[:r.randrange(len(good))]
    return True, b"v=DKIM1; n=" + b"x" * r.choice([10, 300, 3000]) + b"; " + good.replace(b"v=DKIM1", b"w=1").lstrip()
def C13(c):
    r = c.rng
    histories(c, c.pick(4, 5), c.pick([1, 2, 3, 5], [1, 2, 3, 5, 7]), ["good", "fail"], ["turn", "pass", "errno", "again", "bodyhash"], "all short histories")
    # one object for everything: parsed into, reset, parsed into again
    v = [x for x in c.model("MC_KeyRec", cfg({"MaxDev": c.pick(1, 2), "EmitOn": "TRUE"}, "Agree Decides TestingInert Generate"))]
    w = []
    for arc in (False, True): w += c.model("MC_SigField", cfg({"MaxDev": 1, "Arc": str(arc).upper(), "Part": 0, "Parts": 1, "EmitOn": "TRUE"}, "Agree States Generate"), name=f"MC_SigField {'ARC' if arc else 'DKIM'}")
    for l, call, slot, name, cmp in ((v, "pkey", "p", "every record with few deviations", key_cmp), (w, "psig", "s", "every field with few deviations", sig_cmp)):
        runs, good = [], [x for x in l if x["ok"]]
        for _ in range(c.pick(2, 6)):
            r.shuffle(l)
            for i in range(0, len(l), 5):
                part = [y for x in l[i:i + 5] for y in (x, r.choice(good))]       # a sound one after each
                runs.append({"ev": [{"c": call, slot: "x", "data": x["t" if slot == "p" else "f"]} for x in part], "x": part})
        c.replay_sessions(runs, name + ", one object for many", cmp=cmp)
    # several signatures on a message, objects shared and reset, everything in any order, signers in between
    n = c.pick(150, 2500)
    jobs = []
    for k in range(n):
        fs, b = safe_message(r, r.choice([None, None, 3000, 9000]))
        for j in range(r.choice([1, 2, 3])): jobs.append((k, Sig(r, fs, type="dkim", d=f"d{j}.example", ident=None), fs, b))
    made = {}
    for (k, s, fs, b), f in zip(jobs, forged(c, [j[1:] for j in jobs])):
        if f is not None: made.setdefault(k, []).append((s, f[0][f[1]], fs, b))
    ses = []
    for k, l in made.items():
        fs, b = l[0][2], l[0][3]
        sigs = [t if r.randrange(4) else spoil_sig(r, t) for _, t, _, _ in l]
        vals = {"a": glue(sigs + fs, b), "b": glue(sigs + fs, (b[:-3] + b"zz" + b[-1:]) if len(b) > 6 else b + b"zz"), "c": glue(sigs[::-1] + fs, b)}
        tab = lambda: table([(s.query, *((True, keyrec(r, s.kid)) if r.randrange(4) else answer(r, s))) for s, _, _, _ in l])
        ev = [{"c": "now", "d": str(l[0][0].now)}, tab()] + [{"c": "val", "v": v, "type": "dkim", "data": hx(d), "custom": bool(r.randrange(2)), **stream(r)} for v, d in vals.items()]
        signers = r.randrange(3) == 0
        if signers:
            ms = [sign_message(r)[1] for _ in range(2)]
            for i in range(2): ev += Plan(r, [b"From: x"], n=f"o{i}").ev
            for i in range(3): ev.append({"c": "signer", "g": f"g{i}", "data": hx(ms[i // 2]), **stream(r)})
        slots, pslots = {}, {}
        for _ in range(r.choice([4, 10, 25])):
            q = r.randrange(10)
            so, po = r.choice("st"), r.choice("pq")
            if q < 3:
                v, i = r.choice("abc"), r.randrange(1, len(l) + 1)
                ev += [{"c": "sigreset", "s": so}, {"c": "getsig", "v": v, "k": i, "s": so}]; slots[so] = (v, i)
            elif q < 5 and so in slots: ev += [{"c": "keyreset", "p": po}, {"c": "getkey", "v": r.choice(["a", slots[so][0]]), "s": so, "p": po}]; pslots[po] = 1
            elif q < 8 and so in slots and po in pslots: ev.append({"c": "check", "v": slots[so][0], "k": slots[so][1], "s": so, "p": po})
            elif q == 8 and so in slots: ev.append({"c": "bodyhash", "v": r.choice("abc"), "s": so})
            elif q == 9: ev.append(r.choice([{"c": "errno", "d": 34}, tab(), {"c": "now", "d": str(l[0][0].now + r.choice([0, 1, 90000]))}, {"c": "psig", "data": hx(r.choice(sigs)), **({"s": so} if r.randrange(2) else {})}, {"c": "pkey", "data": hx(answer(r, l[0][0])[1] or b"v=DKIM1"), **({"p": po} if r.randrange(2) else {})}, {"c": "b64dec", "data": hx("QUJD")}]))
            if ev[-1]["c"] == "psig" and "s" in ev[-1]: slots.pop(so, None)
            if ev[-1]["c"] == "pkey" and "p" in ev[-1]: pslots.pop(po, None)
            if signers and r.randrange(3) == 0: ev.append({"c": "sign", "g": f"g{r.randrange(3)}", "n": f"o{r.randrange(2)}"})
        ses.append({"ev": ev})
    c.traces(ses, "objects used and reset in any order", chunk=2000)
    # one signer, several configurations, each repeated, and the same on a fresh signer
    ses = []
    for k in range(c.pick(150, 2500)):
        fs, m = sign_message(r, r.choice([None] * 5 + [9000]))
        ev = [{"c": "now", "d": "1700000000"}]
        for i in range(3): ev += Plan(r, fs, n=f"o{i}").ev
        for i in range(2): ev.append({"c": "signer", "g": f"g{i}", "data": hx(m), **stream(r)})
        seq = [(g, n) for g in range(2) for n in range(3)] * 2
        r.shuffle(seq)
        for g, n in seq[:r.choice([3, 6, 12])]:
            ev.append({"c": "sign", "g": f"g{g}", "n": f"o{n}"})
            if r.randrange(8) == 0: ev.append(r.choice([{"c": "errno", "d": 34}, opt("delh", f"o{r.randrange(3)}", l=[hx("Subject")]), opt("cb", f"o{r.randrange(3)}", a="relaxed"), opt("limit", f"o{r.randrange(3)}", d=str(r.choice([0, 1, 99999999])))]))
        ses.append({"ev": ev})
    c.traces(ses, "signers used again and again", chunk=1000)
def spoil_sig(r, t):
    k = r.randrange(4)
    if k == 0: return t.replace(b"bh", b"hb", 1)
    if k == 1: x = t.index(b":") + 1; return t[:x] + b" l=zz;" + t[x:]
    if k == 2: return t + b"; ;"
    m = b_span(t); x = r.choice([x for x in range(*m) if t[x:x + 1].isalnum()][:-3]); return t[:x] + other(r, t[x]) + t[x + 1:]

# ---------------------------------------------------------------- C11 (and what MC_Sign gives to others)
def sign_model(c, dev, msgs=(1, 2, 3, 4)):
    return c.model("MC_Sign", cfg({"MaxDev": dev, "Msgs": tset(list(msgs)), "EmitOn": "TRUE"}, "FailsRight Closed Covers Generate"), name=f"MC_Sign {dev} deviations")
def with_keys(ev):
    return [dict(e, data=hx(keydata(e["kid"], e["form"]))) if e["c"] == "opt" and e["f"] == "key" else e for e in ev]
def sign_sessions(c, v, verify_too, twice=False):
    """each behaviour of MC_Sign: configure, read back, sign, and (where it is to succeed) verify"""
    r = c.rng
    ses = []
    for x in v:
        ev = with_keys(x["ev"]) + [{"c": "signer", "g": "g", "data": x["data"], **stream(r)}, {"c": "sign", "g": "g", "n": "o", "claim": ["perm" if x["fail"] else "ok"]}]
        if twice: ev.append(ev[-1])
        if verify_too and not x["fail"]:
            ev.append(table([(uh(s["q"]).decode("latin-1"), True, keyrec(r, s["kid"])) for s in x["sigs"]]))
            ev.append({"c": "val", "v": "v", "type": "arc" if x["arc"] else "dkim", "last": True, "custom": bool(r.randrange(3)), **stream(r)})
            for k in range(1, len(x["sigs"]) + 1):
                ev += [{"c": "getsig", "v": "v", "k": k, "s": f"s{k}", "claim": ["ok", "noobj"]}, {"c": "getkey", "v": "v", "s": f"s{k}", "p": f"p{k}"}, {"c": "check", "v": "v", "k": k, "s": f"s{k}", "p": f"p{k}", "claim": ["ok", "noobj"]}]
        ses.append({"ev": ev})
    return ses
def C11(c):
    r = c.rng
    v = sign_model(c, 2)
    if not c.thorough: v = [x for x in v if r.randrange(2)]
    c.traces(sign_sessions(c, v, False), "every configuration with few unusual settings", chunk=2000)
    if c.thorough:
        v = sign_model(c, 3, [c.seed % 4 + 1])
        c.traces(sign_sessions(c, [x for x in v if r.randrange(4) == 0], False), "three unusual settings", chunk=2000)
    ses = []
    for _ in range(c.pick(900, 12000)):
        fs, m = sign_message(r, r.choice([None] * 30 + [3000]))
        ses.append({"ev": signing(r, Plan(r, fs), m, verify_too=False)})
    for n in c.pick([60, 100, 150, 200, 300, 400], [60, 80, 100, 130, 150, 200, 250, 300, 400, 600, 1000]):      # h= of many lines
        for w in (1, 12, 70):
            fs = [b"From: a@b"] + [(case(r, r.choice("XYZ") * r.randrange(1, w + 1)) + "-%d" % i).encode() + b": v" for i in range(n)]
            ses.append({"ev": signing(r, Plan(r, fs, heads=1, over=r.randrange(2) == 0), glue(fs, b"body\r\n"), verify_too=False)})
    c.traces(ses, "fields created under generated configurations", chunk=2000)

# ---------------------------------------------------------------- C12
def stated_h(o):
    """the names in h= of one created field"""
    t = re.sub(rb"\r\n(?=[ \t])", b"", uh(o["out"]))
    for p in t[t.index(b":") + 1:].split(b";"):
        n, _, v = p.partition(b"=")
        if n.strip(b" \t") == b"h": return [x.strip(b" \t").lower().hex() for x in v.split(b":")] if v.strip() else []
def h_cmp(x, o):
    return o["r"] == "ok" and ("h" not in x or stated_h(o) == x["h"])
def C12(c):
    r = c.rng
    sel = lambda side, n, h: c.model("MC_Select", cfg({"MaxFields": n, "MaxH": h, "Side": f'"{side}"', "EmitOn": "TRUE"}, "Stated Agreed Taken Generate", "Once"), name=f"MC_Select {side}")
    v = sel("sign", c.pick(3, 4), 1)
    v = [x for x in v if r.randrange(c.pick(2, 4)) == 0]
    runs = []
    base = [{"c": "optnew", "n": "o"}, opt("domain", data=hx("e.x")), opt("selector", data=hx("s")), opt("alg", a="ed25519"), setkey("ed_a", "seed")]
    for x in v:
        runs.append({"ev": base + [opt("headers", l=x["list"]), opt("oversign", l=x["over"]), {"c": "signer", "g": "g", "data": x["data"], **stream(r)}, {"c": "sign", "g": "g", "n": "o"}],
                     "x": [None] * 8 + [{"h": x["h"]}]})
    c.replay_sessions(runs, "what h= names, every short message and list", cmp=h_cmp)
    v = sel("verify", 3, c.pick(3, 4))
    runs, key = [], keyrec(r, "ed_a", plain=True)
    for x in v:
        ev, want = [table([(uh(x["q"]).decode(), True, key)])], [None]
        for n, y in enumerate(x["runs"]):
            if n > 1 and c.thorough and r.randrange(3): continue
            ev += [{"c": "val", "v": "v", "type": "dkim", "data": y["data"], "custom": True}, {"c": "getsig", "v": "v", "k": x["k"], "s": f"s{n}"}, {"c": "getkey", "v": "v", "s": f"s{n}", "p": f"p{n}"}, {"c": "check", "v": "v", "k": x["k"], "s": f"s{n}", "p": f"p{n}"}]
            want += [{"r": "ok"}, {"r": "ok"}, {"r": "ok"}, {"r": "ok"} if y["good"] else {"r": "perm", "ar": "fail"}]
        runs.append({"ev": ev, "x": want})
    c.replay_sessions(runs, "which instances count, every short message and h= list", cmp=cls_cmp)
    ses = []
    for _ in range(c.pick(400, 5000)):
        names = ["From", "To", "Subject", "X-A", "Received", "X"]
        fs = [case(r, r.choice(names)).encode() + r.choice([b":", b" :", b": ", b":\r\n "]) + b"n%d" % i for i in range(r.choice([1, 3, 8, 25]))]
        fs.insert(r.randrange(len(fs) + 1), b"From: a@b")
        if r.randrange(3) == 0: fs.insert(r.randrange(len(fs) + 1), r.choice([b"X;Y: semi", b"X\xff: z", b": z", b"no colon", b"Received\t: q"]))
        p = Plan(r, fs, arc=r.choice([0, 0, 1]), count=r.choice([1, 1, 2]))
        ses.append({"ev": signing(r, p, glue(fs, b"body\r\n"), claims=p.unique())})
    for n in c.pick([64, 127, 128, 255, 256, 257, 500], [64, 127, 128, 129, 255, 256, 257, 500, 1023, 1024, 1025, 2000]):
        names = ["From", "To", "X-A"]
        fs = [b"From: a@b"] + [case(r, r.choice(names)).encode() + b": n%d" % i for i in range(n)]
        for k in (1, 4):
            p = Plan(r, fs, arc=0, count=1, heads=k, over=False)
            if k == 4: p.ev.append(opt("oversign", l=[hx(x) for x in r.choices(["X-A", "To", "Y" * 70, "Z"], k=n // 2)]))
            ses.append({"ev": signing(r, p, glue(fs, b"body\r\n"), claims=p.unique())})
    c.traces(ses, "messages with many fields of few names, signed and verified", chunk=2000)
    jobs = []
    for n in range(c.pick(250, 4000)):
        names = ["From", "To", "Subject", "X-A", "DKIM-Signature", "ARC-Message-Signature"]
        fs = [case(r, r.choice(names)).encode() + r.choice([b":", b" :", b": "]) + b"n%d" % i for i in range(r.choice([1, 3, 8, 25]))]
        fs.insert(r.randrange(len(fs) + 1), b"From: a@b")
        hs = [case(r, r.choice(names)) for _ in range(r.choice([1, 3, 9, 30]))] + ["From"]
        r.shuffle(hs)
        s = Sig(r, fs, type="arc" if n % 4 == 0 else "dkim", names=hs)
        jobs.append((s, fs, b"body\r\n"))
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        fs, i = f
        own = b"dkim-signature" if s.type == "dkim" else b"arc-message-signature"
        k = sum(fname(x).lower() == own for x in fs[:i]) + 1
        tab = table([(s.query, True, keyrec(r, s.kid))])
        ses.append({"ev": verify(glue(fs, b), s.type, k, tab, r, now=s.now, claims=[(None, None, None)] * (k - 1) + [(["ok"], ["ok"], ["ok"])])})
        for _ in range(2):      # one field away, two exchanged, one altered: the specification knows whether it matters
            g = list(fs); j, m = r.randrange(len(g)), r.randrange(len(g)); q = r.randrange(3)
            if i in (j, m): continue
            if q == 0: g.pop(j)
            elif q == 1: g[j], g[m] = g[m], g[j]
            else: g[j] += b"x"
            at = g.index(fs[i])
            ses.append({"ev": verify(glue(g, b), s.type, sum(fname(x).lower() == own for x in g[:at]) + 1, tab, r, now=s.now)})
    c.traces(ses, "h= lists with repeated names", chunk=3000)

# ---------------------------------------------------------------- C14
def opts_cmp(x, o):
    if "v" not in x: return o["r"] == x["r"]
    low = lambda l: [uh(h).lower().hex() for h in l]
    return (o["r"] == "ok" and all(o[k] == v for k, v in x["v"].items()) and set(low(o["headers"])) == set(low(x["heads"])) and low(o["oversign"]) == low(x["over"])
            and (not o["lset"] or o["l"] == x["l"]) and (not o["tset"] or o["t"] == x["t"]) and (not o["xset"] or (o["x"] == x["x"] and o["xabs"] == x["xabs"])))
def with_key_data(ev):
    return [dict(e, data=hx(keydata(e["kid"], e["form"]))) if e["c"] == "opt" and e["f"] == "key" and "data" not in e else e for e in ev]
def domain_text(r):
    lab = lambda: "".join(r.choice("abzAZ059-") for _ in range(r.choice([1, 2, 3, 10, 63, 64, 200])))
    t = ".".join(lab() for _ in range(r.choice([1, 1, 2, 3, 30])))
    if r.randrange(3) == 0:
        at = r.randrange(len(t) + 1); t = t[:at] + r.choice([".", "-", "_", " ", "\x00", "\xe9", "\n", "..", "/", ":", "@"]) + t[at:]
    return t.encode("latin-1")
def optcall(r, n="o", sigs=1):
    heads = lambda: [hx(case(r, r.choice(["From", "To", "X-A", "Subject", "Cc", "", "x y", "q" * 80]))) for _ in range(r.choice([0, 1, 2, 6]))]
    i = r.randrange(1, sigs + 1)
    alg, kid, form = somekey(r)
    big = lambda: str(r.choice([0, 1, 50, 51, 256, 2**31, 2**32, 2**63 - 1, r.randrange(10**12)]))
    return r.choice([
        lambda: opt("alg", n, i=i, a=r.choice(["rsa", "ed25519"])), lambda: opt("domain", n, i=i, data=hx(domain_text(r))), lambda: opt("selector", n, i=i, data=hx(domain_text(r))),
        lambda: setkey(kid, form, i=i, n=n), lambda: setkey(kid, form, i=i, n=n), lambda: opt("digest", n, a=r.choice(["sha1", "sha256"])), lambda: opt("ch", n, a=r.choice(["simple", "relaxed"])), lambda: opt("cb", n, a=r.choice(["simple", "relaxed"])),
        lambda: opt("headers", n, l=heads()), lambda: opt("addh", n, l=heads()), lambda: opt("delh", n, l=heads()), lambda: opt("oversign", n, l=heads()),
        lambda: opt("limit", n, d=r.choice([big(), "18446744073709551615"])), lambda: opt("arc", n, d=str(r.choice([0, 1, 50, 51, 1000]))), lambda: opt("ts", n, d=r.choice(["-1", big()])), lambda: opt("ex", n, abs=bool(r.randrange(2)), d=big()),
        lambda: opt("ident", n, data=hx(r.choice([b"", b"a@b", bytes(r.randrange(256) for _ in range(20))]))),
        lambda: opt("rsakey", n, i=i, kid=r.choice(["rsa_a", "rsa_b"]), data="", give=bool(r.randrange(2)))])()
def fix_rsakey(e):
    return dict(e, data=hx(keydata(e["kid"], "pem"))) if e.get("f") == "rsakey" else e
def C14(c):
    r = c.rng
    v = c.model("MC_Options", cfg({"MaxCalls": 3, "EmitOn": "TRUE"}, "Holds Numbers Generate", "Contained"))
    v = [x for x in v if len(x["ev"]) < 3 or r.randrange(c.pick(4, 1)) == 0]
    runs = [{"ev": [{"c": "optnew", "n": "o"}] + with_key_data(x["ev"]) + [{"c": "optget", "n": "o"}], "x": [None] + [{"r": y} for y in x["r"]] + [x]} for x in v]
    runs.append({"ev": [{"c": "optnew", "n": "o"}, {"c": "optget", "n": "o"}], "x": [None, dict(v[0], v=NEWVIEW, heads=DEFAULTS, over=[])]})
    c.replay_sessions(runs, "every short sequence of option calls", cmp=opts_cmp)
    v = c.model("MC_Dns", cfg({"MaxRecs": 0, "MaxName": c.pick(5, 6), "EmitOn": "TRUE"}, "Legal Generate"), name="MC_Dns names")
    runs = []
    for x in v:
        if x["k"] != "name": continue
        ev = [{"c": "optnew", "n": "o"}, opt("addsig")] + [opt(f, i=i, data=hx("keep.x")) for f in ("domain", "selector") for i in (1, 2)]
        ev += [opt(f, i=i, data=x["d"]) for f in ("domain", "selector") for i in (1, 2)] + [{"c": "optget", "n": "o"}]
        got = x["d"] if x["ok"] else hx("keep.x")
        s = {"alg": "rsa", "d": got, "s": got, "rsa": False, "ed": False}
        runs.append({"ev": ev, "x": [None] * 6 + [{"r": "ok" if x["ok"] else "perm"}] * 4 + [dict(v=dict(NEWVIEW, sigs=[s, s]), heads=DEFAULTS, over=[])]})
    c.replay_sessions(runs, "every short domain and selector", cmp=opts_cmp)
    ses = []
    for _ in range(c.pick(1200, 15000)):
        ev, sigs = [{"c": "optnew", "n": "o"}], {"o": 1}
        two = r.randrange(4) == 0
        if two: ev.append({"c": "optnew", "n": "p"}); sigs["p"] = 1
        for _ in range(r.choice([2, 6, 15, 40])):
            n = r.choice(list(sigs))
            if r.randrange(12) == 0 and sigs[n] < 4: ev.append(opt("addsig", n)); sigs[n] += 1
            elif r.randrange(5) == 0: ev.append({"c": "optget", "n": n})
            else: ev.append(fix_rsakey(optcall(r, n, sigs[n])))
        ses.append({"ev": ev + [{"c": "optget", "n": n} for n in sigs]})
    ses += [{"ev": [{"c": "optnew", "n": "o"}] + [opt(f, data=hx(pre + bytes([o]) + post)) for f in ("domain", "selector") for pre, post in ((b"", b""), (b"a", b""), (b"", b"b"), (b"a", b"b"), (b"a.", b".b"))] + [{"c": "optget", "n": "o"}]} for o in range(256)]
    for n in SIZES(c):
        if n > c.pick(1100, 5000): continue
        many = [hx(f"N{i % (n // 2)}") for i in range(n // 2)]
        ses.append({"ev": [{"c": "optnew", "n": "o"}, opt("headers", l=many), {"c": "optget", "n": "o"}, opt("addh", l=[hx("Q" * n), hx("From")]), opt("delh", l=[hx("n3"), hx("q" * n), hx("N" * n)]), {"c": "optget", "n": "o"}, opt("oversign", l=many + [hx("z" * n)]), opt("ident", data=hx(b"i" * n + b"@e")),
                           opt("domain", data=hx("d" * n)), opt("domain", data=hx(".".join(["d" * 63] * (n // 64 + 1)))), opt("selector", data=hx(".".join(["s"] * n))), opt("selector", data=hx(".".join(["s"] * n) + "_")), {"c": "optget", "n": "o"}, opt("headers", l=[]), {"c": "optget", "n": "o"}]})
    c.traces(ses, "generated sequences of option calls", chunk=4000)
NEWVIEW = {"sigs": [{"alg": "rsa", "d": "", "s": "", "rsa": False, "ed": False}], "digest": "sha256", "ch": "simple", "cb": "simple", "lset": False, "arc": 0, "tset": False, "xset": False, "ident": ""}
DEFAULTS = [hx(x) for x in "from sender reply-to subject date message-id to cc mime-version content-type content-transfer-encoding content-id content-description resent-date resent-from resent-sender resent-to resent-cc resent-message-id in-reply-to references list-id list-help list-unsubscribe list-unsubscribe-post list-subscribe list-post list-owner list-archive cfbl-address cfbl-feedback-id".split()]

# ---------------------------------------------------------------- C21
def C21(c):
    r = c.rng
    arcm = lambda side: c.model("MC_Arc", cfg({"MaxFields": c.pick(3, 4), "Side": f'"{side}"', "EmitOn": "TRUE"}, "Apart Decided Generate"), name=f"MC_Arc {side}")
    runs = []
    for x in arcm("collect"):
        types = r.sample(["dkim", "arc", "none"], c.pick(3, 2))
        runs.append({"ev": [{"c": "val", "v": f"v{n}", "type": t, "data": x["data"], "custom": True, **stream(r)} for n, t in enumerate(types)], "x": [{"r": "ok", "sigs": x[t]} for t in types]})
    c.replay_sessions(runs, "what each sort of validator collects", cmp=cls_cmp)
    runs = []
    for x in arcm("judge"):
        tab = table([("s._domainkey.e.x", True, uh(x["key"]))])
        three = lambda v, s, p: [{"c": "getsig", "v": v, "k": 1, "s": s}, {"c": "getkey", "v": v, "s": s, "p": p}, {"c": "check", "v": v, "k": 1, "s": s, "p": p}]
        val = lambda v, t: {"c": "val", "v": v, "type": t, "data": x["data"], "custom": bool(r.randrange(2)), **stream(r)}
        ok = [{"r": "ok"}] * 3
        runs.append({"ev": [tab, val("a", "arc"), val("d", "dkim"), val("n", "none")] + three("a", "s", "p") + three("d", "t", "q"),
                     "x": [None] * 4 + ([{"r": "ok", "arc": True, "inst": x["n"]}, {"r": "ok"}, {"r": "ok"}] if x["good"] else [{"r": "perm", "ar": "permerror"}, {"r": "noobj"}, {"r": "noobj"}]) + [{"r": "ok", "arc": False}, {"r": "ok"}, {"r": "ok"}]})
    c.replay_sessions(runs, "ARC signatures of every instance next to a DKIM signature", cmp=cls_cmp)
    v = c.model("MC_SigField", cfg({"MaxDev": c.pick(1, 2), "Arc": "TRUE", "Part": 0, "Parts": 1, "EmitOn": "TRUE"}, "Agree States Generate"), name="MC_SigField ARC")
    c.replay([{"e": {"c": "psig", "data": x["f"]}, "x": x} for x in v], "every ARC field with few deviations", cmp=sig_cmp)
    ses = []
    for n in list(range(0, 56)) * c.pick(4, 40):        # signing with every instance
        fs, m = sign_message(r)
        p = Plan(r, fs, arc=n)
        ok = n <= 50 and p.unique()
        ev = signing(r, p, m, claims=ok, verify_too=n <= 50)
        if n <= 50: ev.append({"c": "val", "v": "w", "type": r.choice(["dkim", "arc", "none"]), "last": True, "custom": True})
        ses.append({"ev": ev})
    ses += [{"ev": [x for x in signing(r, Plan(r, [b"From: a"], arc=0), b"From: a\r\n\r\nx", verify_too=False)][:-2] + [opt("arc", d=str(n)), {"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\nx")}, {"c": "sign", "g": "g", "n": "o"}]} for n in (51, 256, 257, 306, 65537, 2**31, 2**32 + 1)]
    c.traces(ses, "signed with every instance", chunk=2000)
    jobs = []
    for n in range(c.pick(200, 3000)):      # forged ones of both sorts in one message
        fs, b = safe_message(r)
        jobs.append((Sig(r, fs, type="arc", inst=r.randrange(1, 51), x=None), fs, b)); jobs.append((Sig(r, fs, type="dkim", x=None, names=["From", "To"]), fs, b))
    fg = forged(c, jobs)
    ses = []
    for i in range(0, len(jobs), 2):
        if fg[i] is None or fg[i + 1] is None: continue
        (s, fs, b), (t, _, _) = jobs[i], jobs[i + 1]
        two = [fg[i][0][fg[i][1]], fg[i + 1][0][fg[i + 1][1]]]
        r.shuffle(two)
        tab = table([(s.query, True, keyrec(r, s.kid, t=r.choice([None, "s", "y:s"]))), (t.query, True, keyrec(r, t.kid))] if s.query != t.query else [(s.query, True, keyrec(r, s.kid))])
        ses.append({"ev": verify(glue(two + fs, b), "arc", 1, tab, r, now=s.now) + verify(glue(two + fs, b), "dkim", 1, tab, r, now=s.now)})
    for n in c.pick([16, 64, 127, 128, 255, 256, 500], [16, 64, 127, 128, 255, 256, 257, 500, 1024, 2000]):
        m = glue([case(r, r.choice(["DKIM-Signature", "ARC-Message-Signature", "ARC-Seal", "To", "X-DKIM-Signature", "DKIM-Signature-X"])).encode() + b": n%d" % i for i in range(n)], b"x\r\n")
        ses.append({"ev": [{"c": "val", "v": t, "type": t, "data": hx(m), "custom": True, **stream(r)} for t in ("dkim", "arc", "none")]})
    c.traces(ses, "forged signatures of both sorts in one message", chunk=2000)

# ---------------------------------------------------------------- C24
def tag_of(o, name):
    """value of a tag in one created field, white space taken out"""
    t = uh(o["out"])
    for p in t[t.index(b":") + 1:].split(b";"):
        n, _, v = p.partition(b"=")
        if n.strip() == name: return b"".join(v.split())
def limit_cmp(x, o):
    if "bh" not in x: return cls_cmp(x, o)
    return o["r"] == "ok" and tag_of(o, b"bh") == uh(x["bh"]) and tag_of(o, b"l") == (str(x["l"]).encode() if x["lset"] else None)
def C24(c):
    r = c.rng
    v = c.model("MC_Limit", cfg({"MaxLen": c.pick(3, 4), "Chars": "{10, 13, 32, 97, 98}" if not c.thorough else "{10, 13, 32, 97}", "EmitOn": "TRUE"}, "Fitting Exactly Generate"))
    runs = []
    for x in v:
        base = [{"c": "optnew", "n": "o"}, opt("domain", data=hx("e.x")), opt("selector", data=hx("s")), opt("digest", a=x["hash"]), opt("cb", a=x["cb"]), setkey("rsa_a", "pem")]
        if x["lset"]: base.append(opt("limit", d=str(x["l"])))
        end = [{"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\n") + x["body"], **stream(r)}, {"c": "sign", "g": "g", "n": "o"}]
        runs.append({"ev": base + end, "x": [None] * (len(base) + 1) + [x if x["fits"] else {"r": "perm"}]})
    c.replay_sessions(runs, "every short body signed with every limit", cmp=limit_cmp)
    runs = []
    for x in v:
        if not x["fits"] or c.thorough and r.randrange(3): continue
        ev, want = [], []
        for b, good in zip(x["b"], x["good"]):
            ev += [{"c": "val", "v": "v", "type": "dkim", "data": x["f"] + b, "custom": True}, {"c": "sigreset", "s": "s"}, {"c": "getsig", "v": "v", "k": 1, "s": "s"}]
            want += [None, None, {"r": "ok"} if good else {"r": "perm", "ar": "fail"}]
        ev[0].update(stream(r))
        runs.append({"ev": ev, "x": want})
    c.replay_sessions(runs, "and verified with every other short body in its place", cmp=cls_cmp)
    # longer bodies, limits at their end and at read boundaries; appended to, cut and altered
    jobs = []
    for n in range(c.pick(120, 1500)):
        fs, _ = safe_message(r)
        b = edge_body(r, r.choice(BLOCKS[:4])) if n % 8 == 0 else body(r, r.choice([3, 30, 300]))
        b = b.replace(b"\r", b"").replace(b"\n", b"\r\n")
        size = len(b)
        lie = n % 3 == 1
        jobs.append((Sig(r, fs, type="dkim", x=None, ident=None, l=r.choice([None, 0, 1, size // 2, size - 1, size, size, r.randrange(size + 1), 2**32 + r.randrange(size + 1), 2**31, 2**32, 65536, 2**63 - 1] + [k + d for k in BLOCKS for d in (-1, 0, 1) if k + d <= size and n % 8 == 0])), fs, b))
        if lie: jobs[-1][0].lie = {"hlie": r.choice(["limit", "limit", "whole"]), "ln": r.choice([(jobs[-1][0].l or 0) % 2**k for k in (8, 16, 31, 32) if (jobs[-1][0].l or 0) % 2**k < 10**8] + [0, 1, size, size - 1])}
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        fs, i = f
        tab = table([(s.query, True, keyrec(r, s.kid))])
        l = len(b) if s.l is None else min(s.l, len(b))
        others = [b, b + b"more\r\n", b[:l], b[:max(0, l - 1)], b[:l] + b"zz", b + b"\r\n", b[:max(0, l - 1)] + b"#" + b[l:], b[:l] + b"#" + b[l + 1:], b.rstrip(b"\r\n"), b.replace(b"a", b"a ", 1)]
        for x in [b] + r.sample(others[1:], 3 if len(b) < 2000 else 2):
            ses.append({"ev": verify(glue(fs, x), s.type, 1, tab, r, now=s.now)})
    c.traces(ses, "longer bodies, limits around their ends, then changed", chunk=2000)
    ses = []
    for n in range(c.pick(120, 1500)):
        fs, _ = safe_message(r)
        b = edge_body(r, r.choice(BLOCKS[:4])) if n % 8 == 0 else body(r)
        k = len(b)
        p = Plan(r, fs, limit=r.choice([0, 1, k - 1, k, k + 1, k + 2, k // 2, 2**32, 2**63 - 1, r.randrange(k + 1)] + ([x + d for x in BLOCKS[:4] for d in (-1, 0, 1)] if n % 8 == 0 else [])) if k else r.choice([0, 1, 2, 3]))
        ses.append({"ev": signing(r, p, glue(fs, b), claims=False)})
    c.traces(ses, "generated limits, signed and verified", chunk=2000)

# ---------------------------------------------------------------- C25
def made_cmp(x, o):
    if "xt" not in x: return cls_cmp(x, o)
    return o["r"] == "ok" and (tag_of(o, b"t") or b"").decode() == x["xt"] and (tag_of(o, b"x") or b"").hex() == x["xx"]
def C25(c):
    r = c.rng
    exp = lambda side, n: c.model("MC_Expiry", cfg({"Side": f'"{side}"', "MaxLooks": n, "EmitOn": "TRUE"}, "Judges States Generate"), name=f"MC_Expiry {side}")
    runs = []
    tab = table([("s._domainkey.e.x", True, keyrec(r, "ed_a", plain=True))])
    for x in exp("given", c.pick(2, 3)):
        ev, want = [tab, {"c": "val", "v": "v", "type": "arc" if x["arc"] else "dkim", "data": x["data"], "custom": True}], [None, None]
        for n, (t, live) in enumerate(zip(x["clocks"], x["live"])):
            ev += [{"c": "now", "d": t}, {"c": "sigreset", "s": "s"}, {"c": "getsig", "v": "v", "k": 1, "s": "s"}]
            want += [None, None, {"r": "ok"} if live else {"r": "perm", "ar": "permerror"}]
            if live:
                ev += [{"c": "keyreset", "p": "p"}, {"c": "getkey", "v": "v", "s": "s", "p": "p"}, {"c": "check", "v": "v", "k": 1, "s": "s", "p": "p"}]
                want += [None, {"r": "ok"}, {"r": "ok"}]
        runs.append({"ev": ev, "x": want})
    c.replay_sessions(runs, "every expiry looked at under moving clocks", cmp=cls_cmp)
    runs, ses = [], []
    for x in exp("made", 0):
        i = r.randrange(1, 3)
        base = [{"c": "now", "d": x["clock"]}, {"c": "optnew", "n": "o"}] + [opt("addsig")] * (i - 1)
        for k in range(1, i + 1): base += [opt("alg", i=k, a="ed25519"), opt("domain", i=k, data=hx("e.x")), opt("selector", i=k, data=hx("s")), setkey("ed_a", "seed", i=k)]
        if r.randrange(3) == 0: base.append(opt("arc", d=str(r.randrange(1, 51))))
        two = []
        if x["tset"]: two.append(opt("ts", d="-1" if x["tnow"] else x["t"]))
        if x["xset"]: two.append(opt("ex", abs=x["abs"], d=x["d"]))
        r.shuffle(two)
        if r.randrange(4) == 0: base += [opt("ts", d=r.choice(["-1", "5"])) for y in two if y["f"] == "ts"] + [opt("ex", abs=not x["abs"], d="7") for y in two if y["f"] == "ex"]    # set anew
        ev = base + two + [{"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\nbody\r\n")}, {"c": "sign", "g": "g", "n": "o"}]
        if i == 1: runs.append({"ev": ev, "x": [None] * (len(ev) - 1) + [{"xt": x["t"], "xx": x["x"]}]})
        if i == 2 or r.randrange(c.pick(4, 1)) == 0:
            ev = ev + [{"c": "optget", "n": "o"}]
            if r.randrange(2): ev += [{"c": "now", "d": str(int(x["clock"]) + 77)}, {"c": "sign", "g": "g", "n": "o"}]
            n = int(uh(x["x"]) or b"0") or int(x["clock"])
            ev.append({"c": "val", "v": "v", "type": "arc" if any(e.get("f") == "arc" for e in ev) else "dkim", "last": True, "custom": True})
            for t in r.sample([max(0, n - 1), n, n + 1, max(0, n - 77), n + 77], 3): ev += [{"c": "now", "d": str(min(t, 2**62))}, {"c": "sigreset", "s": "s"}, {"c": "getsig", "v": "v", "k": i, "s": "s"}]
            ses.append({"ev": ev})
    c.replay_sessions(runs, "times stated under every setting of clock, time and expiry", cmp=made_cmp)
    c.traces(ses, "and looked at again around their expiry", chunk=3000)
    ses = []
    for n in range(c.pick(300, 4000)):      # any number, any layout, and clocks around it
        fs, b = safe_message(r)
        x = r.choice([0, 1, 9, r.randrange(10 ** r.randrange(1, 20)), 2**31 - 1, 2**31, 2**32, 2**63 - 1, 2**63, 2**64, 2**64 + 5])
        jobs = [(Sig(r, fs, type=r.choice(["dkim", "dkim", "arc"]), x=x, ident=None), fs, b)]
        ses.append(jobs[0])
    made = forged(c, ses)
    out = []
    for (s, fs, b), f in zip(ses, made):
        if f is None: continue
        tab = table([(s.query, True, keyrec(r, s.kid))])
        ev = []
        for t in r.sample([s.x - 1, s.x, s.x + 1, 1700000000, 0, s.x * 2, s.x // 2], 3):
            ev += verify(glue(f[0], b), s.type, 1, tab, r, now=max(0, min(t, 2**62))) + [{"c": "sigreset", "s": "s1"}, {"c": "keyreset", "p": "p1"}]
        out.append({"ev": ev})
    c.traces(out, "forged signatures of any expiry", chunk=2000)

# ---------------------------------------------------------------- C26
def C26(c):
    r = c.rng
    v = c.model("MC_Keys", cfg({"MaxCalls": c.pick(3, 3), "EmitOn": "TRUE"}, "Holding Fails Generate", "Contained"))
    pick = [x for x in v if len(x["ev"]) < 3 or r.randrange(c.pick(25, 4)) == 0]
    runs = []
    for x in pick:
        ev = [{"c": "optnew", "n": "o"}, opt("addsig")]
        for i in (1, 2): ev += [opt("domain", i=i, data=hx("e.x")), opt("selector", i=i, data=hx(f"s{i}"))]
        want = [None] * len(ev)
        for e, y in zip(x["ev"], x["r"]):
            if e["f"] == "key": e = dict(e, data=hx(keydata(e["kid"], e["form"])))
            if e["f"] == "rsakey": e = dict(e, data=hx(keydata(e["kid"], "pem")) if e["kid"] else "", give=bool(r.randrange(2)))
            ev.append(e); want.append({"r": y})
        fail = x["fail"]
        ev += [{"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\nbody\r\n"), **stream(r)}, {"c": "sign", "g": "g", "n": "o"}]
        want += [None, {"r": "perm" if fail else "ok"}]
        if not fail:
            val = {"c": "val", "v": "v", "type": "dkim", "last": True, "custom": True}
            for n, right in enumerate((True, False)):       # the key it was to use, then others of the type
                other = lambda kid: ("rsa_c" if kid.startswith("rsa") else "ed_a" if kid != "ed_a" else "ed_b")
                ev += [table([(f"s{i}._domainkey.e.x", True, keyrec(r, k if right else other(k), plain=True)) for i, k in zip((1, 2), x["kids"])])] + ([val] if right else [])
                want += [None] * (2 if right else 1)
                for i in (1, 2):
                    ev += [{"c": "getsig", "v": "v", "k": i, "s": f"s{i}{n}"}, {"c": "getkey", "v": "v", "s": f"s{i}{n}", "p": f"p{i}{n}"}, {"c": "check", "v": "v", "k": i, "s": f"s{i}{n}", "p": f"p{i}{n}"}]
                    want += [{"r": "ok"}, {"r": "ok"}, {"r": "ok"} if right else {"r": "perm", "ar": "fail"}]
        runs.append({"ev": ev, "x": want})
    c.replay_sessions(runs, "every short sequence of key loads, then signed", cmp=cls_cmp)
    ses = []
    kids = [k for k in KEYS if k != "ec" and k not in WIDTHS + SMALL]
    def one(i, n="o"):
        q = r.randrange(10)
        if q < 6:
            kid = r.choice(kids)
            return setkey(kid, r.choice(RSAFORMS if kid.startswith("rsa") else EDFORMS), i=i, n=n)
        if q < 8: return opt("alg", n, i=i, a=r.choice(["rsa", "ed25519"]))
        if q == 8: return fix_rsakey(opt("rsakey", n, i=i, kid=r.choice(["rsa_a", "rsa_b", "rsa_c", "rsa_d"]), data="", give=bool(r.randrange(2))))
        return setkey(r.choice(kids), r.choice(JUNKFORMS), i=i, n=n)
    for kid in WIDTHS:                  # keys of many sizes
        ev = [{"c": "optnew", "n": "o"}, opt("headers", l=[hx("From")]), opt("domain", data=hx("e.x")), opt("selector", data=hx("s1")), setkey(kid, r.choice(RSAFORMS))]
        ses.append({"ev": ev + [{"c": "optget", "n": "o"}, {"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\nbody\r\n"), **stream(r)}, {"c": "sign", "g": "g", "n": "o", "claim": ["ok"]},
            table([("s1._domainkey.e.x", True, keyrec(r, kid))]), {"c": "val", "v": "v", "type": "dkim", "last": True, "custom": True},
            {"c": "getsig", "v": "v", "k": 1, "s": "s"}, {"c": "getkey", "v": "v", "s": "s", "p": "p"}, {"c": "check", "v": "v", "k": 1, "s": "s", "p": "p", "claim": ["ok"]}]})
    for kid, dg in (("rsa_t", "sha1"), ("rsa_t", "sha256"), ("rsa_u", "sha256")):       # keys too small for the digest
        for form in RSAFORMS:
            for i in (1, 2):
                ev = [{"c": "optnew", "n": "o"}, opt("addsig"), opt("headers", l=[hx("From")]), opt("digest", a=dg)]
                for j in (1, 2): ev += [opt("domain", i=j, data=hx("e.x")), opt("selector", i=j, data=hx(f"s{j}"))]
                ses.append({"ev": ev + [setkey("rsa_a", "pem", i=3 - i), setkey(kid, form, i=i), {"c": "optget", "n": "o"}, {"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\nbody\r\n"), **stream(r)}, {"c": "sign", "g": "g", "n": "o", "claim": ["perm"]}]})
    for alg in ("rsa", "ed25519"):      # every key in every form, on each sort of signature
        for kid in kids:
            for form in (RSAFORMS if kid.startswith("rsa") else EDFORMS) + JUNKFORMS:
                for i in (1, 2):
                    ev = [{"c": "optnew", "n": "o"}, opt("addsig"), opt("headers", l=[hx("From")])]
                    for j in (1, 2): ev += [opt("domain", i=j, data=hx("e.x")), opt("selector", i=j, data=hx(f"s{j}")), opt("alg", i=j, a=alg)]
                    ev += [setkey(*(("rsa_a", "pem") if alg == "rsa" else ("ed_a", "seed")), i=3 - i)]
                    held = r.randrange(3) == 0       # something to fall back on wrongly
                    if held: ev.append(setkey(*(("rsa_b", "der") if alg == "rsa" else ("ed_b", "sk")), i=i))
                    ev += [setkey(kid, form, i=i), {"c": "optget", "n": "o"}, {"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\nbody\r\n")}, {"c": "sign", "g": "g", "n": "o"}]
                    ok = form not in JUNKFORMS and kid.startswith("rsa") == (alg == "rsa")
                    ev[-1]["claim"] = ["ok" if ok or held else "perm"]
                    if ok:
                        two = {i: kid, 3 - i: "rsa_a" if alg == "rsa" else "ed_a"}
                        ev += [table([(f"s{j}._domainkey.e.x", True, keyrec(r, two[j])) for j in two]), {"c": "val", "v": "v", "type": "dkim", "last": True, "custom": True}]
                        for j in two: ev += [{"c": "getsig", "v": "v", "k": j, "s": f"s{j}"}, {"c": "getkey", "v": "v", "s": f"s{j}", "p": f"p{j}"}, {"c": "check", "v": "v", "k": j, "s": f"s{j}", "p": f"p{j}", "claim": ["ok"]}]
                    ses.append({"ev": ev})
    c.traces(ses, "every key in every form", chunk=3000)
    ses = []
    for _ in range(c.pick(300, 5000)):  # loads, algorithms and signatures in any order, signed in between
        fs, m = sign_message(r)
        n = r.choice([1, 1, 2, 3])
        ev = [{"c": "optnew", "n": "o"}, {"c": "signer", "g": "g", "data": hx(m), **stream(r)}] + [opt("addsig")] * (n - 1)
        for i in range(1, n + 1): ev += [opt("domain", i=i, data=hx("e.x")), opt("selector", i=i, data=hx(f"s{i}"))]
        for _ in range(r.choice([3, 6, 12])):
            i = r.randrange(1, n + 1)
            ev.append(one(i))
            if r.randrange(3) == 0: ev.append({"c": "sign", "g": "g", "n": "o"})
            if r.randrange(12) == 0: ev.append(opt("digest", a=r.choice(["sha1", "sha256", "sha256"])))
        ev += [{"c": "optget", "n": "o"}, {"c": "sign", "g": "g", "n": "o"}]
        ses.append({"ev": ev})
    c.traces(ses, "keys and algorithms set in any order, signed in between", chunk=2000)

# ---------------------------------------------------------------- C22
def tool_lines(out):
    """printed lines; what starts with white space belongs to the line before"""
    l = []
    for x in out.split(b"\n")[:-1] + ([out.split(b"\n")[-1]] if out.split(b"\n")[-1] else []):
        if l and x[:1] in (b" ", b"\t"): l[-1] += b"\n" + x
        else: l.append(x)
    return l
def line_ok(t, x):
    f, d, s = (b"[" + uh(x[k]) + b"]" for k in ("file", "d", "s"))
    cls = b"(" + x["class"].encode() + b")"
    if x["class"] == "any": return t.startswith(f)
    if x["class"] == "ok": return t == f + d + s + b" OK"
    if x["class"] == "temperror": return t.startswith(f + d + s + cls + b" TEMPERR:")
    if not x["seen"]: return t.startswith(f + b"[") and b"]" + cls + b" = " in t
    return (not x["must"] and t.startswith(f + d + s + cls + b" = ")) or (x["may"] and t.startswith(f + d + s + cls + b" SOFT:"))
def tool_cmp(x, o):
    out, err, code = uh(o["out"]), uh(o["err"]), o["code"]
    if x["r"] == "help": return code == 0 and out != b""
    if x["r"] in ("usage", "failed"): return 1 <= code <= 97 and out == b"" and err != b""
    if x["r"] == "signed": return code == 0 and out.endswith(b"\r\n") and out.lower().startswith(b"arc-message-signature:" if x["signarc"] else b"dkim-signature:")
    l = tool_lines(out)
    return 0 <= code <= 97 and len(l) == len(x["l"]) and all(line_ok(t, y) for t, y in zip(l, x["l"]))
LONGOPTS = {"a": ["arc"], "A": ["arcinstance"], "h": ["help"], "v": ["validate"], "s": ["selector"], "d": ["domain"], "k": ["keyfile"], "K": ["keytype", "keyformat"]}
def spell(r, o, v=None):
    """an option in one of its spellings"""
    n = r.choice(LONGOPTS[o])
    if v is None: return r.choice([["-" + o], ["--" + n]])
    return r.choice([["-" + o, v], ["-" + o + v] if v else ["-" + o, v], ["--" + n, v], ["--" + n + "=" + v]])
def tool(r, items, files, mail=None):
    """items: option/value pairs and operands, in any order and spelling"""
    items = list(items)
    r.shuffle(items)
    av = []
    for x in items: av += [x] if isinstance(x, str) else spell(r, *x)
    e = {"c": "tool", "argv": [hx(x) for x in av], "files": files}
    if mail is not None: e["mail"] = hx(mail)
    return e
def tfile(name, data, kid="none", form="text"): return {"name": name, "data": hx(data), "kid": kid, "form": form}
def C22(c):
    r = c.rng
    v = c.model("MC_Tool", cfg({"MaxDev": 2, "EmitOn": "TRUE"}, "Reads Outcomes Generate"))
    world = next(x for x in v if "tab" in x)
    files = [dict(f, data=hx(keydata(f["kid"], f["form"]))) if not f["data"] else f for f in world["files"]]
    tab = {"c": "table", "t": world["tab"]}
    now = {"c": "now", "d": "1700000000"}
    v = [x for x in v if "argv" in x]
    pick = [x for x in v if r.randrange(c.pick(16, 1)) == 0]
    runs, ses = [], []
    for x in pick:
        if x["r"] == "lines":
            x["l"] = [y for f in x["files"] if f == hx("m") for y in world["arc" if x["arc"] else "dkim"]]
        e = {"c": "tool", "argv": x["argv"], "files": files}
        runs.append({"ev": [now, tab, e], "x": [None, None, x]})
        if x["r"] == "signed" and r.randrange(c.pick(2, 12)) == 0 or r.randrange(c.pick(150, 300)) == 0: ses.append({"ev": [now, tab, dict(e, claim=[x["r"]])]})
    c.replay_sessions(runs, "command lines near the plain ones", cmp=tool_cmp)
    c.traces(ses, "and what some of them printed", chunk=2000)
    # messages with many sorts of signatures, answers of every sort, several files
    jobs, n = [], c.pick(130, 1600)
    for k in range(n):
        fs, b = safe_message(r)
        for j in range(r.choice([1, 1, 2, 3])):
            if r.randrange(12) == 0: jobs.append((k, Sig(r, fs, type=r.choice(["dkim", "dkim", "arc"]), d=r.choice([f"d{j}.example", "Mixed.Case.org"]), x=r.choice([None, None, 1700000000, 1699999999])), fs, b))
            else: jobs.append((k, Sig(r, fs, type=r.choice(["dkim", "dkim", "dkim", "arc"]), d=f"d{j}.example", x=None), fs, b))
    by = {}
    for (k, s, fs, b), f in zip(jobs, forged(c, [j[1:] for j in jobs])):
        if f is not None: by.setdefault(k, []).append((s, f[0][f[1]], fs, b))
    ses, ks = [], list(by)
    for _ in range(len(ks)):
        group = r.sample(ks, r.choice([1, 1, 1, 2]))
        entries, fl, ops = {}, [], []
        for n, k in enumerate(group):
            l = by[k]
            sigs = [t if r.randrange(3) else spoil_sig(r, t) for _, t, _, _ in l]
            b = l[0][3] if r.randrange(5) else l[0][3] + b"x\r\n"
            for s, _, _, _ in l:
                if s.query not in entries: entries[s.query] = answer(r, s) if r.randrange(2) else (True, keyrec(r, s.kid, t=r.choice([None, "y", "y:s", "s"])))
            fields = sigs + l[0][2] if r.randrange(3) else l[0][2][:1] + sigs + l[0][2][1:]
            fl.append(tfile(f"mail{n}", glue(fields, b, r.choice([b"\r\n", b"\r\n", b"\n"])))); ops.append(f"mail{n}")
        if r.randrange(8) == 0: ops.append("missing")
        if r.randrange(8) == 0: ops.append(ops[0])
        items = [("v",)] + ops + ([("a",)] if r.randrange(3) == 0 else []) + r.choice([[], [], [("s", "unused")], [("d", "x.y"), ("K", "ed25519")], [("A", "5")]])
        ses.append({"ev": [now, table([(q, *a) for q, a in entries.items()]), tool(r, items, fl)]})
    c.traces(ses, "forged messages validated by the tool", chunk=1000)
    # signing with every sort of key and setting, and what was signed validated again
    ses = []
    for _ in range(c.pick(220, 3000)):
        fs, m = sign_message(r, r.choice([None] * 20 + [5000]))
        alg, kid, form = somekey(r)
        if r.randrange(8) == 0: form = r.choice([x for x in JUNKFORMS if x != "rawder"])
        if r.randrange(12) == 0: kid, form = r.choice([("rsa_a", "pem"), ("ed_a", "sk")])
        d, s = r.choice(SIGNDOM), r.choice(SIGNSEL)
        if r.randrange(14) == 0: d = domain_text(r).decode("latin-1").replace("\x00", "_").lstrip("-") or "x"
        if not d.isascii(): d = "e.x"
        items = [("s", s), ("d", d), ("k", "key"), "mail"]
        if alg != "rsa" or r.randrange(2): items.append(("K", alg))
        inst = r.choice([0] * 4 + [1, 2, 10, 50, 51, 300])
        if inst or r.randrange(5) == 0: items.append(("A", str(inst)))
        if r.randrange(10) == 0: items.pop(r.randrange(3))
        fl = [tfile("mail", m), tfile("key", keydata(kid, form), kid, form)]
        if r.randrange(15) == 0: fl.pop(r.randrange(2))
        ev = [{"c": "now", "d": str(r.choice([1700000000, 1, 4102444800]))}, tool(r, items, fl, mail=m)]
        if form not in JUNKFORMS and len(items) > 3 and inst <= 50 and len(fl) == 2:
            ev += [table([(s + "._domainkey." + d.lower(), True, keyrec(r, kid))]), {"c": "val", "v": "v", "type": "arc" if inst else "dkim", "last": True, "custom": False}]
            ev += [{"c": "getsig", "v": "v", "k": 1, "s": "s"}, {"c": "getkey", "v": "v", "s": "s", "p": "p"}, {"c": "check", "v": "v", "k": 1, "s": "s", "p": "p"}]
        ses.append({"ev": ev})
    c.traces(ses, "generated messages signed by the tool", chunk=1000)

# ---------------------------------------------------------------- C20
def renamed(ev, tag):
    """the same calls on objects of their own"""
    names = {"val": "v", "getsig": "vs", "bodyhash": "vs", "getkey": "vsp", "check": "vsp", "sigreset": "s", "keyreset": "p", "optnew": "n", "opt": "n", "optget": "n", "signer": "g", "sign": "gn"}
    return [dict(e, **{f: tag + e[f] for f in names.get(e["c"], "")}) for e in ev]
def chunks(r):
    """a stream that gives control away"""
    return {"plan": r.choice([[1], [2], [7], [1, 30], [64], [3, 1, 100], [1000]])}
def small_calls(r):
    """calls on no object at all"""
    k = r.randrange(14)
    if k == 0: return {"c": "canonbody", "m": r.choice(["simple", "relaxed"]), "data": hx(body(r)), "lset": bool(r.randrange(2)), "ld": str(r.choice([0, 1, 5, 30])), **chunks(r)}
    if k == 1: return {"c": "canonhdr", "m": "relaxed", "data": hx(crlf(fieldline(r)))}
    if k == 2:
        fs, eol, b = message(r)
        return {"c": "mail", "data": hx(join(fs, eol, b)), **chunks(r)}
    if k == 3: return {"c": "tags", "data": hx(taglist(r))}
    if k == 4: return {"c": "psig", "data": hx(b"DKIM-Signature: v=1; a=rsa-sha256; d=e%d.x; s=s; h=From:To; bh=QUJD; b=QUJD; i=%c@e%d.x; c=relaxed" % (k, 97 + r.randrange(26), k))}
    if k == 5: return {"c": "pkey", "data": hx(keyrec(r, r.choice(RSA + ED), h=r.choice([None, "sha1", "sha256"]), t=r.choice([None, "s", "y"])))}
    if k == 6: return {"c": "qpdec", "data": hx(mix(r, [b"a", b"=41", b"=3D", b"=FF", b" ", b"z"], r.randrange(0, 30))), "w": bool(r.randrange(2))}
    if k == 7: return {"c": "qpenc", "data": hx(bytes(r.randrange(256) for _ in range(r.randrange(0, 60))))}
    if k == 8: return {"c": "b64enc", "data": hx(bytes(r.randrange(256) for _ in range(r.randrange(0, 90))))}
    if k == 9: return {"c": "b64dec", "data": hx(b64(bytes(r.randrange(256) for _ in range(r.randrange(0, 90)))))}
    if k == 10: return {"c": "ew", "data": hx(encword(r) + b" " + encword(r))}
    if k == 11: return {"c": "vlist", "data": hx(r.choice([b"a:b:c", b"From : To:X", b"", b"a::b"]))}
    if k == 12: return {"c": "addr", "data": hx(r.choice([b"a@b, \"x,y\" <c@d> (no)", b"<a>, <b>", b"\"open", b"x (y (z)) w"]))}
    return {"c": "dns", "herr": r.choice(["", "", "", "notfound", "tryagain"]), "data": hx(dnsmsg(r))}
def C20(c):
    r = c.rng
    v = c.model("MC_Sched", cfg({"Acts": 2, "Segs": c.pick(10, 14), "MaxSwitch": c.pick(2, 4), "EmitOn": "TRUE"}, "Keeps Fair FewRuns Generate"), name="MC_Sched two activities")
    w = c.model("MC_Sched", cfg({"Acts": 3, "Segs": c.pick(3, 4), "MaxSwitch": c.pick(9, 7), "EmitOn": "TRUE"}, "Keeps Fair FewRuns Generate"), name="MC_Sched three activities")
    two, three = [[i - 1 for i in x["sched"]] for x in v], [[i - 1 for i in x["sched"]] for x in w]
    # activities
    n = c.pick(90, 700)
    jobs = []
    for k in range(n):
        fs, b = safe_message(r, r.choice([None, None, None, 9000]) if k % 5 == 0 else None)
        jobs.append((k, Sig(r, fs, type=r.choice(["dkim", "dkim", "arc"]), d=f"d{k}.example", ident=None, plain=True), fs, b))
    acts = []
    for (k, s, fs, b), f in zip(jobs, forged(c, [j[1:] for j in jobs])):
        if f is None: continue
        m = glue(f[0], b if r.randrange(4) else b + b"x\r\n", b"\r\n")
        ev = [{"c": "val", "v": "v", "type": s.type, "data": hx(m), "custom": bool(r.randrange(2)), **chunks(r)}, {"c": "getsig", "v": "v", "k": 1, "s": "s"},
              {"c": "getkey", "v": "v", "s": "s", "p": "p"}, {"c": "check", "v": "v", "k": 1, "s": "s", "p": "p"}]
        if r.randrange(3) == 0: ev += [{"c": "bodyhash", "v": "v", "s": "s"}, {"c": "keyreset", "p": "p"}, {"c": "getkey", "v": "v", "s": "s", "p": "p"}]
        acts.append(("verify", [(s.query, *((True, keyrec(r, s.kid)) if r.randrange(5) else answer(r, s)))], ev))
    for k in range(n):
        fs, m = sign_message(r, r.choice([None] * 5 + [9000]))
        ev = Plan(r, fs, n="o", now=1700000000).ev + [{"c": "signer", "g": "g", "data": hx(m), **chunks(r)}, {"c": "sign", "g": "g", "n": "o"}]
        if r.randrange(3) == 0: ev.append({"c": "optget", "n": "o"})
        acts.append(("sign", [], ev))
    for k in range(n): acts.append(("small", [], [small_calls(r) for _ in range(r.choice([1, 2, 4, 8]))]))
    now = {"c": "now", "d": "1700000000"}
    # groups
    groups = []
    for k in range(c.pick(120, 900)):
        g = r.sample(acts, 3 if k % 4 == 0 else 2)
        if k % 3 == 0: g[1] = r.choice([a for a in acts if a[0] == g[0][0]])
        if k % 16 == 0: g[1] = g[0]                 # the very same work twice
        entries = {}
        for a in g:
            for q in a[1]: entries.setdefault(q[0], q)
        groups.append(([now, table(entries.values())], [renamed(a[2], f"a{i}") for i, a in enumerate(g)]))
    plain = lambda l: [{k: x for k, x in o.items() if k != "what"} for o in l]
    def reqof(g, **k): return {"progs": [g[0] + p for p in g[1]], **k}
    alone = drive(c.work, [reqof(g, how="alone") for g in groups])
    keep = [(g, [plain(x) for x in a["o"]]) for g, a in zip(groups, alone) if "o" in a]     # what fails alone is no fault of company
    def judge(name, reqs, want, variant="asan"):
        """reqs[i] must give want[i]: a result per program"""
        got = drive(c.work, reqs, variant, jobs=max(2, CORES // 2))
        bad = 0
        def wrong(q, x):
            if "o" not in q: return True
            o = q["o"]
            if x[0] == "free": return any(any(plain(t) != y for t in l) for l, y in zip(o, x[1]))
            if x[0] == "nested": return plain(o[0]) != x[1][0] or any(plain(t["o"]) != x[1][t["i"]] for t in o[1])
            return [plain(t) for t in o] != x[1]
        for q, g, x in zip(reqs, got, want):
            if not wrong(g, x): continue
            bad += 1
            for _ in range(4 if x[0] != "free" else 0):
                again = drive(c.work, [q], variant, jobs=1)[0]
                if wrong(again, x): g = again; break
            if len(c.violations) < 5: c.violation(q, g, x[1], name)
        c.validated += len(reqs)
        c.parts.append({"schedules": name, "runs": len(reqs), "variant": variant})
        c.log(f"{name}: {len(reqs)} runs, {bad} differ")
    # every schedule of the model, under one or more groups
    pairs, triples = [x for x in keep if len(x[0][1]) == 2], [x for x in keep if len(x[0][1]) == 3]
    reqs, want = [], []
    for s, pool, times in [(s, pairs, c.pick(3, 4)) for s in two] + [(s, triples, 1) for s in three]:
        for _ in range(times):
            g, a = r.choice(pool)
            reqs.append(reqof(g, how="baton", sched=s)); want.append(("baton", a))
    for g, a in keep:       # a switch at every chance there is
        for s in ([0, 1, 2][:len(a)], [0, 0, 1, 2][:len(a) + 1], [1, 0] if len(a) == 2 else [2, 1, 0]):
            reqs.append(reqof(g, how="baton", sched=s)); want.append(("baton", a))
    judge("scheduled", reqs, want)
    reqs = [reqof((g[0], p), how="nested") for g, a in keep for p in (g[1], g[1][::-1])]
    judge("nested in callbacks", reqs, [("nested", b) for g, a in keep for b in (a, a[::-1])])
    judge("in parallel", [reqof(g, how="free", reps=c.pick(4, 12)) for g, a in keep], [("free", a) for g, a in keep])
    probe = drive(c.work, [reqof(keep[0][0], how="alone")], "tsan", jobs=1)[0]
    if "o" in probe:
        some = keep[:c.pick(60, 500)]
        judge("in parallel under ThreadSanitizer", [reqof(g, how="free", reps=3) for g, a in some], [("free", a) for g, a in some], "tsan")
    else: c.notes.append("ThreadSanitizer does not run here: " + json.dumps(probe)[:300])
    # the specification's own concurrency: recorded activities merged in every order on one state
    logs = [{"pre": [dict(e, o={"r": "ok", "ar": ""}) for e in g[0]], "progs": [merge(p, x[len(g[0]):]) for p, x in zip(g[1], a)]} for g, a in keep if len(a) == 2]
    logs = [l for l in logs if all(len(p) <= 14 for p in l["progs"])][:c.pick(40, 300)]
    bad = c.merges(logs, "every interleaving of recorded calls")
    # one thread, one process: calls of several activities taken in turn; judged only where each alone is as specified
    ses = []
    for n_, (g, a) in enumerate(keep):
        left = [list(p) for p in g[1]]
        ev = list(g[0])
        while any(left):
            p = r.choice([p for p in left if p]); ev.append(p.pop(0))
        ses.append((g, a, ev))
    got = drive(c.work, [{"ev": ev} for _, _, ev in ses])
    for (g, a, ev), q in zip(ses, got):
        it = [iter(x[len(g[0]):]) for x in a]
        own = {id(e): i for i, p in enumerate(g[1]) for e in p}
        x = [None] * len(g[0]) + [next(it[own[id(e)]]) for e in ev[len(g[0]):]]
        if "o" not in q or any(y is not None and plain([o])[0] != y for y, o in zip(x, q["o"])):
            if len(c.violations) < 5: c.violation({"ev": ev}, q, x, "calls in turn")
    c.validated += len(ses)
    c.parts.append({"schedules": "calls in turn", "runs": len(ses)})
    c.log(f"calls in turn: {len(ses)} runs")

# ---------------------------------------------------------------- C23
def hurt(r, t, others):
    """a text damaged: octets changed, cut, repeated, spliced"""
    t = bytes(t)
    for _ in range(r.choice([1, 1, 2, 4, 10])):
        k = r.randrange(9)
        at = r.randrange(len(t) + 1)
        if k == 0: t = t[:at] + bytes([r.randrange(256)]) + t[at + 1:]
        elif k == 1: t = t[:at]
        elif k == 2: t = t[at:]
        elif k == 3: n = r.choice([1, 1, 2, 5, 30]); t = t[:at] + t[at + n:]
        elif k == 4: t = t[:at] + r.choice([b"\r", b"\n", b"\r\n", b"\0", b"\xff", b"=", b";", b":", b"\"", b"\\", b"(", b")", b"<", b">", b"@", b"?", b"=?", b"?=", b",", b" ", b"\t", b"-", b"+", b"%", b"99999999999999999999", b"-1", b"\x80", b"\x7f", b"l=", b"b=", b"i=", b"x="]) + t[at:]
        elif k == 5: u = r.choice(others); t = t[:at] + u[r.randrange(len(u) + 1):]
        elif k == 6 and len(t) < 3000: n = at + r.randrange(1, 9); t = t[:at] + t[at:n] * r.choice([2, 3, 17, 300]) + t[n:]
        elif k == 7: n = r.randrange(at, len(t) + 1); t = t[:at] + t[n:]
        else: t = t[:at] + r.choice([t[:at], bytes(r.randrange(256) for _ in range(r.choice([1, 3, 40])))]) + t[at:]
        if len(t) > 60000: t = t[:60000]
    return t
TEXTCALLS = [{"c": x} for x in ("mail", "tags", "pkey", "qpenc", "b64enc", "b64dec", "ew", "vlist", "addr", "domain", "psig")] + \
    [{"c": "canonhdr", "m": m} for m in ("simple", "relaxed")] + [{"c": "qpdec", "w": w} for w in (False, True)] + [{"c": "dns", "herr": ""}] + \
    [{"c": "canonbody", "m": m, "lset": l, "ld": "1"} for m in ("simple", "relaxed") for l in (False, True)] + [{"c": "ws", "kind": k, "at": 0} for k in ("crlf", "wsp", "loose", "fws")]
def all_calls(t, r, only=None):
    for e in TEXTCALLS:
        if only and e["c"] not in only: continue
        e = dict(e, data=hx(t))
        if "at" in e: e["at"] = r.randrange(len(t) + 1) if len(t) < 100 else 0
        if e["c"] in ("mail", "canonbody"): e.update(stream(r))
        if "ld" in e: e["ld"] = r.choice(["0", "1", "5", str(len(t)), "9223372036854775807", "18446744073709551615"])
        yield e
def plainopts(r): return Plan(r, [b"From: x"], n="o").ev
def looked_at(r, m, extra=(), arc=None):
    """a message looked at in every way"""
    ev = list(extra) + [{"c": "val", "v": "v", "type": arc or r.choice(["dkim", "arc"]), "data": hx(m), "custom": bool(r.randrange(2)), **stream(r)}]
    for k in (1, 2):
        ev += [{"c": "getsig", "v": "v", "k": k, "s": f"s{k}"}, {"c": "getkey", "v": "v", "s": f"s{k}", "p": f"p{k}"}, {"c": "check", "v": "v", "k": k, "s": f"s{k}", "p": f"p{k}"}, {"c": "bodyhash", "v": "v", "s": f"s{k}"}]
    return ev
def damage_seeds(c, n):
    r = c.rng
    # seeds of every kind, damaged
    seeds = {"tags": [taglist(r) for _ in range(30)] + [keyrec(r, k) for k in RSA + ED], "pkey": [keyrec(r, k, h=h, t=t) for k in RSA + ED for h in (None, "sha1:sha256") for t in (None, "y:s")],
             "ew": [encword(r) + b" " + encword(r) for _ in range(30)], "addr": [b", ".join(mailbox(r) for _ in range(3)) for _ in range(30)], "vlist": [b"From:To:Subject", b" a : b\r\n :c"],
             "qpdec": [b"=41=42 x_y=3D", b"a\r\n b"], "b64dec": [b64(bytes(range(n))).encode() for n in (0, 1, 2, 3, 60, 255)], "domain": [domain_text(r) for _ in range(20)],
             "dns": [dnsmsg(r) for _ in range(40)], "ws": [b" \r\n\t x", b"\r\n", b"\t"], "canonhdr": [crlf(fieldline(r)) for _ in range(30)], "canonbody": [body(r) for _ in range(30)],
             "mail": [join(*(lambda x: (x[0], x[1], x[2]))(message(r))) for _ in range(30)]}
    seeds["psig"] = seeds["qpenc"] = seeds["b64enc"] = seeds["mail"]
    everything = [t for l in seeds.values() for t in l if t]
    jobs = [some_sig(r, type="dkim" if k % 3 else "arc") for k in range(n)]
    jobs = [(s, fs, b, f[0][f[1]]) for (s, fs, b), f in zip(jobs, forged(c, jobs)) if f is not None]
    seeds["psig"] = [t for _, _, _, t in jobs]
    everything += seeds["psig"]
    return jobs, seeds, everything
def damaged_session(r, jobs, seeds, everything):
    """a message, a signature, a key record or options, one of them damaged"""
    opts = lambda: plainopts(r)
    session = lambda *a: looked_at(r, *a)
    s, fs, b, t = r.choice(jobs)
    k = r.randrange(6)
    rec = keyrec(r, s.kid)
    if k == 0: rec = hurt(r, rec, seeds["pkey"])
    elif k < 3: t = hurt(r, t, seeds["psig"])
    else: pass
    fields = [t] + fs + ([hurt(r, t, seeds["psig"])] if r.randrange(3) == 0 else [])
    m = glue(fields, b, r.choice([b"\r\n", b"\n"]))
    if k == 4: m = hurt(r, m, everything)
    tab = table([(s.query, *((True, rec) if k != 5 else answer(r, s)))])
    ev = session(m, [{"c": "now", "d": r.choice(["1700000000", "0", "-1", "9223372036854775807", "2147483648"])}, tab], s.type)
    if r.randrange(3) == 0:
        odd = lambda: hurt(r, r.choice([b"example.com", b"s", b"joe@example.com", b"From", b"From:To;x"]), [b"x", b"From"]) 
        ev += opts()
        for _ in range(r.choice([1, 2, 4])):
            f = r.choice(["headers", "addh", "delh", "oversign", "ident", "domain", "selector", "key", "rsakey", "limit", "arc", "ts", "ex"])
            e = opt(f, "o")
            if f in ("headers", "addh", "delh", "oversign"): e["l"] = [hx(odd()) for _ in range(r.choice([0, 1, 3, 50]))]
            elif f in ("ident", "domain", "selector"): e["data"] = hx(odd())
            elif f == "key": kid, form = r.choice([("rsa_a", "pem"), ("rsa_a", "der"), ("ed_a", "seed"), ("ed_a", "b64sk")]); e["data"] = hx(hurt(r, keydata(kid, form), [b"AAAA", b"-----"]))
            elif f == "rsakey": e["data"] = hx(r.choice([b"", keydata("rsa_a", "pem")]))
            elif f in ("limit", "arc"): e["d"] = r.choice(["0", "1", "51", "4294967296", "18446744073709551615"])
            elif f == "ts": e["d"] = r.choice(["-1", "0", "9223372036854775807", "-9223372036854775808", "-2"])
            else: e["d"] = r.choice(["-1", "0", "9223372036854775807", "-9223372036854775808", "60"]); e["abs"] = bool(r.randrange(2))
            ev.append(e)
        ev += [{"c": "signer", "g": "g", "data": hx(m), **stream(r)}, {"c": "sign", "g": "g", "n": "o"}, {"c": "optget", "n": "o"}]
    return ev
def judged(c, name, sessions, want="a result or one of the two declared errors"):
    """sessions run on the real code; each kind of outcome goes past the specification (Outcome)"""
    res = drive(c.work, [{"ev": s} for s in sessions])
    seen, log = {}, []
    for n, (s, q) in enumerate(zip(sessions, res)):
        if "o" not in q:
            again = drive(c.work, [{"ev": s}], jobs=1)[0]
            if "o" in again:
                before = [{"ev": x} for x in sessions[n % CORES:n + 1:CORES]]
                again = drive(c.work, before, jobs=1)[-1]
                if "o" in again: c.notes.append(f"{name}: a crash or hang did not repeat and is not reported"); continue
            if len(c.violations) < 5: c.violation({"ev": s}, again, want, name)
            continue
        for k, (e, o) in enumerate(zip(s, q["o"])):
            if e["c"] in ("table", "now", "errno", "ambient"): continue
            o = dict({f: o[f] for f in ("code", "bytes", "files") if f in o}, c=e["c"], r="exit" if "code" in o else o.get("r", ""), ar=o.get("ar", ""))
            key = tuple(sorted(o.items()))
            if key not in seen: seen[key] = (n, k); log.append(o)
    for k in c.outcomes(log, name):
        n, i = list(seen.values())[k]
        again = drive(c.work, [{"ev": sessions[n][:i + 1]}], jobs=1)[0]
        if len(c.violations) < 5: c.violation({"ev": sessions[n][:i + 1]}, again if "o" not in again else {"call": i, "o": again["o"][i]}, want, name)
    c.validated += len(sessions)
    c.parts.append({"outcomes": name, "sessions": len(sessions), "calls": sum(map(len, sessions)), "kinds": len(log)})
    c.log(f"{name}: {len(sessions)} sessions, {sum(map(len, sessions))} calls, {len(log)} kinds of outcome")
    c.sample(name, [{"ev": s} for s in sessions[:50]], 1)
def C23(c):
    r = c.rng
    judge = lambda *a: judged(c, *a)
    # every short text to every entry point
    v = c.model("MC_Total", cfg({"MaxLen": c.pick(3, 3), "EmitOn": "TRUE"}, "Total Survives Generate"))
    texts = [uh(x["d"]) for x in v]
    judge("every short text", [list(all_calls(t, r)) for t in texts])
    opts = lambda: plainopts(r)
    session = lambda *a: looked_at(r, *a)
    judge("every short text as a message to verify and sign", [session(t) + [{"c": "signer", "g": "g", "data": hx(t)}] + opts() + [{"c": "sign", "g": "g", "n": "o"}] for t in r.sample(texts, c.pick(1500, len(texts)))])
    jobs, seeds, everything = damage_seeds(c, c.pick(60, 400))
    ses = []
    for _ in range(c.pick(2500, 40000)):
        k = r.choice(list(seeds))
        t = hurt(r, r.choice(seeds[k]), everything)
        ses.append(list(all_calls(t, r, [k])) if r.randrange(4) else list(all_calls(t, r)))
    judge("damaged texts", ses)
    judge("damaged messages, signatures, records and options", [damaged_session(r, jobs, seeds, everything) for _ in range(c.pick(1800, 30000))])
    # numbers of every sort where a number is expected
    nums = [b"9" * n for n in range(1, 80)] + [b"1" + b"0" * n for n in range(15, 25)] + [b"%d" % (2 ** k + d) for k in (7, 8, 15, 16, 31, 32, 33, 53, 63, 64, 65, 127, 128) for d in (-1, 0, 1)] + \
        [b"", b"-1", b"-0", b"+1", b" 1", b"1 1", b"1.5", b"1e5", b"0x10", b"-9223372036854775808", b"-9223372036854775809", b"-99999999999999999999", b"0" * 40 + b"5", b"0" * 80, b"a", b"1a", b"--1", b"\t7", b"\r\n 8", b"1:2", b"1/2", b"=31", b"%31"]
    fields = [b"DKIM-Signature: v=1; a=rsa-sha256; d=e.x; s=s; h=From; bh=47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU=; b=AAAA; ", b"ARC-Message-Signature: a=rsa-sha256; d=e.x; s=s; h=From; bh=47DEQpj8HBSa+/TImW+5JCeuQeRkm5NMpJWZG3hSuFU=; b=AAAA; "]
    ses = []
    for n in nums:
        for f in fields:
            for tag in (b"l", b"x", b"t", b"i", b"v", b"z"):
                if f[:1] == b"D" and tag in (b"i", b"v"): continue
                t = f + tag + b"=" + n + (b"; i=3" if f[:1] == b"A" and tag != b"i" else b"")
                ses.append([{"c": "psig", "data": hx(t)}] + (session(t + b"\r\nFrom: x\r\n\r\n", [table([("s._domainkey.e.x", True, keyrec(r, "rsa_a"))])], "dkim" if f[:1] == b"D" else "arc") if tag in (b"l", b"x", b"i") else []))
        ses.append([{"c": "tags", "data": hx(b"l=" + n)}, {"c": "pkey", "data": hx(keyrec(r, "rsa_a") + b"; x=" + n)}])
    judge("numbers of every sort", ses)
    # long and deep
    N = c.pick(12000, 120000)
    units = [b"a", b"(", b")", b"\"", b"\\", b"<", b">", b",", b":", b";", b"=", b"?", b"=?", b"=?a?q?", b"?=", b" ", b"\t", b"\r\n ", b"\r\n", b"\n", b"\r", b"\0", b"\xff", b"=41", b"a=b;", b"From:", b"x: y\r\n", b"\\\"", b"\"\\\"", b"=?a?q?b?= ", b"=?a?b?QQ==?= ", b"\xc0\x0c", b"\x01", b"a.", b"-", b"A\r\n\t", b"()", b"\"\"", b"<>", b"@", b"0", b"QUJD", b"=\r\n"]
    ses = []
    for u in units:
        for p, q in ((b"", b""), (b"x", b"y"), (b"=?u?q?", b"?="), (b"\"", b"\""), (b"(", b")"), (b"A: ", b"\r\n\r\nb"), (b"v=DKIM1; p=", b"; k=rsa")):
            if (p, q) != (b"", b"") and r.randrange(c.pick(3, 1)): continue
            t = p + u * (N // len(u)) + q
            ses += [[e] for e in all_calls(t, r)] if (p, q) == (b"", b"") else [list(all_calls(t, r))]
    for tag in (b"h", b"b", b"bh", b"d", b"s", b"i", b"l", b"x", b"t", b"q", b"c", b"a", b"v", b"z"):
        for u in (b"a", b"From:", b"9", b" ", b"\r\n ", b"AAAA", b"a.", b"=41", b"@", b"0", b"%"):
            t = b"DKIM-Signature: v=1; a=rsa-sha256; d=e.x; s=s; h=From; bh=AAAA; b=AAAA; c=relaxed; ".replace(b" " + tag + b"=", b" x" + tag + b"=") + tag + b"=" + u * (N // len(u) // 4)
            if r.randrange(c.pick(4, 1)): continue
            ses.append(session(t + b"\r\nFrom: x\r\n\r\nbody\r\n", [table([("s._domainkey.e.x", True, keyrec(r, "rsa_a"))])], "dkim"))
    for w in (b" " * 60000, b" \t" * 30000, b"\r\n " * 20000, b"\r\n" * 30000, b" \r\n" * 20000):      # white space that is no folding
        for e in (b"\r\nx", b"\rx", b"\nx", b"x", b"\r\n", b""):
            for p in (b"x", b"", b"\"", b"x:"):
                if r.randrange(c.pick(2, 1)): continue
                t = p + w + e
                ses += [[x] for x in ({"c": "vlist", "data": hx(t)}, {"c": "addr", "data": hx(t)}, {"c": "canonhdr", "m": "relaxed", "data": hx(b"a:" + t)}, {"c": "pkey", "data": hx(b"v=DKIM1; h=" + t + b"; p=AAAA")}, {"c": "ew", "data": hx(t)}, {"c": "qpdec", "w": False, "data": hx(t)}, {"c": "tags", "data": hx(b"a=" + t)})]
    D = c.pick(100000, 400000)
    for u, w in ((b"(", b")"), (b"(", b""), (b"<", b">"), (b"\"", b"\""), (b"(a ", b") "), (b"\\(", b")"), (b"[", b"]"), (b"{", b"}"), (b"=?a?q?", b"?="), (b":", b";"), (b"a=", b";")):       # brackets in brackets
        t = u * D + b"c" + w * D + b"a@b"
        ses += [[e] for e in all_calls(t[:600000], r)]
    for d in (30, 300):        # quoted entries inside quoted entries, comments in comments
        t = b"a"
        for _ in range(min(d, 12)): t = b"\"" + t.replace(b"\\", b"\\\\").replace(b"\"", b"\\\"") + b"\""
        ses.append([{"c": "addr", "data": hx(t)}, {"c": "addr", "data": hx(b"(" * d * 50 + b")" * d * 50)}, {"c": "addr", "data": hx(b"<" * d * 50)}])
    m = b"".join(b"H%d: v\r\n" % (i % 50) for i in range(N // 10)) + b"From: x\r\n\r\n" + b"line\r\n" * (N // 6)
    ses.append([{"c": "signer", "g": "g", "data": hx(m)}, {"c": "optnew", "n": "o"}, opt("alg", "o", a="rsa"), setkey("rsa_a", "pem"), opt("domain", "o", data=hx("e.x")), opt("selector", "o", data=hx("s")), opt("headers", "o", l=[]), {"c": "sign", "g": "g", "n": "o"}] + session(m))
    judge("long and deep texts", ses)
    # the tool
    ses = []
    for _ in range(c.pick(150, 2500)):
        s, fs, b, t = r.choice(jobs)
        m = glue([t if r.randrange(2) else hurt(r, t, seeds["psig"])] + fs, b)
        if r.randrange(3) == 0: m = hurt(r, m, everything)
        argv = r.choice([["-v", "m"], ["-v", "-a", "m"], ["-s", "s", "-d", "e.x", "-k", "key", "m"], ["-s", "s", "-d", "e.x", "-k", "key", "-K", "ed25519", "-A3", "m"]])
        argv = [a if r.randrange(12) else hurt(r, a.encode(), [b"-", b"x"]).replace(b"\0", b"") for a in argv]
        ses.append([table([(s.query, *answer(r, s))]), {"c": "tool", "argv": [hx(a) for a in argv if b"/" not in (a if isinstance(a, bytes) else a.encode())], "files": [tfile("m", m), tfile("key", hurt(r, keydata(*r.choice([("rsa_a", "pem"), ("ed_a", "seed")])), [b"x"]))]}])
    judge("the tool", ses)

# ---------------------------------------------------------------- C27
def own_cmp(x, o):
    return o["r"] == x["r"] and not o["twice"] and o["stray"] == 0 and set(x["must"]) <= set(o["live"]) <= set(x["may"]) and all(o["held"][s] == k for s, k in x["held"].items())
def own_data(r, e):
    """the octets of the keys and records a call of the model stands for"""
    f, s = e["f"], e["s"]
    if f == "make": e = dict(e, data=hx(keydata(r.choice(RSA), "pem")))
    elif f == "load" and s == "p": e = dict(e, data=hx(keyrec(r, r.choice(RSA))))
    elif f == "load": e = dict(e, data=hx(keydata(r.choice(RSA), r.choice(RSAFORMS))))
    elif f == "again":
        whole = lambda: r.choice([keyrec(r, r.choice(RSA)), keyrec(r, r.choice(RSA)), keyrec(r, r.choice(ED)), b"k=rsa", b"k=ed25519; p=", b"p=AAAA", keyrec(r, "rsa_b") + b"; s=other", b"p=" + b64(uh(KEYS["ec"]["spki"])).encode()])
        # one record in parts, told one after another: only the last part ends it
        parts = lambda: r.choice([[b"p=" + b64(uh(KEYS[r.choice(RSA)]["spki"])).encode()] + r.sample([b"k=ed25519", b"k=rsa", b"h=sha256", b"s=email", b"s=other", b"v=DKIM1", b"t=s", b"v=DKIM2", b"n=x"], r.randrange(1, 4)), [b"k=ed25519", b"p=" + b64(uh(KEYS[r.choice(ED)]["pub"])).encode(), b"h=sha1"]])
        e = dict(e, l=[hx(t) for t in (parts() if r.randrange(3) == 0 else [whole() for _ in range(r.choice([2, 2, 3, 5]))])])
    elif f in ("set", "copy", "assign", "drop", "loop", "whole") and s != "p" and r.randrange(4) == 0: e = dict(e, during=True)
    elif f == "bad" and s == "p": e = dict(e, data=hx(r.choice([b"p=", b"p=AAAA", b"v=DKIM2; p=" + b64(uh(KEYS["rsa_a"]["spki"])).encode(), keyrec(r, "rsa_b") + b"; s=other", keyrec(r, "rsa_b") + b"; h=md5", b"p=" + b64(uh(KEYS["ec"]["spki"])).encode(), keyrec(r, "rsa_a") + b"; p=", b"="])))
    elif f == "bad": e = dict(e, data=hx(junk_key(r.choice(RSA), r.choice(["cutpem", "cutder", "short", "empty", "text", "dashes", "edpem", "ecpem", "pub"]))))
    elif f == "ed": e = dict(e, data=hx(keydata(r.choice(ED), r.choice(EDFORMS))))
    return dict(e, c="own")
def C27(c):
    r = c.rng
    def replay(v, name):
        runs = []
        for x in v:
            if any(e["f"] in cannot for e in x["ev"]): continue
            ev = [own_data(r, e) for e in x["ev"]] + [{"c": "own", "f": "end", "s": "m"}]
            runs.append({"ev": ev, "x": x["x"] + [{"r": "ok", "must": [], "may": [], "held": {}}]})
        c.replay_sessions(runs, name, cmp=own_cmp)
    # copies that the library does not let callers make
    probe = [{"c": "own", "f": f, "s": "m", "to": "x"} for f in ("new", "add", "copy", "assign")]
    cannot = {e["f"] for e, o in zip(probe, drive(c.work, [{"ev": probe}])[0]["o"]) if o["r"] == "n/a"}
    v = c.model("MC_Own", cfg({"MaxKeys": 2, "MaxSteps": c.pick(6, 8), "EmitOn": "TRUE"}, "Once NoRest Usable Counted") + "VIEW View\nACTION_CONSTRAINT Each\n", workers=1)
    n = c.pick(9000, 150000)
    replay(v if len(v) <= n else r.sample(v, n), "every call in every state of ownership")
    v = c.model("MC_Own", cfg({"MaxKeys": 4, "MaxSteps": 40, "EmitOn": "TRUE"}, "Once NoRest Usable Counted") + "ACTION_CONSTRAINT AtEnd\n", name="MC_Own long histories", workers=1, allow_partial=True,
                args=("-simulate", f"num={c.pick(80, 1000)}", "-depth", "45", "-seed", str(c.seed)))
    replay(v, "long histories of ownership")
    # everything the library does, again and again
    left = "nothing left behind by calls made again on objects of their own"
    again = [{"c": "again", "n": c.pick(5, 6)}]
    ses = []
    for _ in range(c.pick(150, 1500)):
        fs, m = sign_message(r)
        ses.append(signing(r, Plan(r, fs), m))
    judged(c, "signing and verifying, again and again", [strip(s) + again for s in ses], left)
    ses = []
    odd = [b"x\ry", b"a\nb", b"\r", b"\r\n", b"a\r\nb", b"", b"a;b", b"a:b", b"\0", b"\xff", b"A" * 90]
    spoil = [lambda i: opt("oversign", l=[hx("From"), hx(r.choice(odd))]), lambda i: opt("addh", l=[hx(r.choice(odd))]), lambda i: opt("digest", a="sha1"), lambda i: opt("alg", i=i, a=r.choice(["rsa", "ed25519"])),
             lambda i: opt("addsig"), lambda i: opt("limit", d="99999999"), lambda i: opt("arc", d="51"), lambda i: opt("rsakey", i=i, data="", free=True), lambda i: opt("ident", data=hx(b"@elsewhere.x")),
             lambda i: opt("ch", a="relaxed"), lambda i: opt("domain", i=i, data=""), lambda i: opt("key", i=i, data=hx(r.choice([b"", b"-----", b"AAAA"]))), lambda i: setkey(r.choice(SMALL), "der", i=i)]
    for _ in range(c.pick(400, 4000)):
        fs, m = sign_message(r)
        p = Plan(r, fs)
        if r.randrange(4) == 0: m = hurt(r, m, [b"\r", b"\n", b":", b"\r\n\r\n"])
        ses.append(strip(with_key_data(p.ev)) + [r.choice(spoil)(r.randrange(1, len(p.sigs) + 1)) for _ in range(r.choice([1, 1, 2]))] + [{"c": "signer", "g": "g", "data": hx(m), **stream(r)}, {"c": "sign", "g": "g", "n": "o"}] + again)
    judged(c, "signing that fails, again and again", ses, left)
    jobs, seeds, everything = damage_seeds(c, c.pick(40, 300))
    ses = []
    own = [some_sig(r, type="dkim" if k % 3 else "arc") for k in range(c.pick(40, 300))]
    for (s, fs, b), f in zip(own, forged(c, own)):
        if f is None: continue
        for op in TAMPERING:
            x = op(r, s, f[0], b, f[1])
            if x is None or x[1] is None: continue
            ses.append(strip(verify(glue(*x), s.type, 1, table([(s.query, *answer(r, s))]), r, now=s.now)) + again)
    judged(c, "signed messages altered, again and again", ses, left)
    judged(c, "damaged messages, signatures, records and options, again and again", [damaged_session(r, jobs, seeds, everything) + again for _ in range(c.pick(700, 10000))], left)
    ses = []
    for _ in range(c.pick(700, 10000)):
        k = r.choice(list(seeds))
        t = hurt(r, r.choice(seeds[k]), everything)
        ses.append(list(all_calls(t, r, [k])) if r.randrange(4) else list(all_calls(t, r)))
    judged(c, "damaged texts, again and again", [s + again for s in ses], left)
    ses = []
    for spki in [KEYS[k][x] for k, x in (("ec", "spki"), ("ed_a", "spki"), ("ed_a", "pub"), ("rsa_a", "spki"), ("rsa_t", "spki"))] + [KEYS["rsa_a"]["spki"][:n] for n in (0, 20, 100, 300)] + [KEYS["rsa_a"]["spki"] + "00"]:
        for tags in (b"", b"k=rsa; ", b"k=ed25519; ", b"k=dsa; ", b"h=md5; ", b"s=other; ", b"t=y:s; ", b"v=DKIM2; "):
            for tail in (b"", b"; s=", b"; h=", b"; p="):
                ses.append(list(all_calls(tags + b"p=" + b64(uh(spki)).encode() + tail, r, ["pkey"])))
    judged(c, "records of every kind of key, again and again", [s + again for s in ses], left)
    ses = []
    for form in RSAFORMS + EDFORMS + JUNKFORMS:
        for kid in ("rsa_a", "ed_a"):
            if (form in RSAFORMS and kid != "rsa_a") or (form in EDFORMS and kid != "ed_a"): continue
            for i in (1, 2):
                ev = [{"c": "optnew", "n": "o"}, opt("addsig"), opt("headers", l=[hx("From")])]
                for j in (1, 2): ev += [opt("domain", i=j, data=hx("e.x")), opt("selector", i=j, data=hx(f"s{j}")), opt("alg", i=j, a=r.choice(["rsa", "ed25519"]) if form in JUNKFORMS else "rsa" if kid == "rsa_a" else "ed25519")]
                ev += [setkey(kid, form, i=i), setkey(*(("rsa_a", "pem") if kid == "rsa_a" else ("ed_a", "seed")), i=3 - i), setkey(kid, form, i=i)]
                ses.append(with_key_data(ev) + [{"c": "signer", "g": "g", "data": hx(b"From: a\r\n\r\nbody\r\n")}, {"c": "sign", "g": "g", "n": "o"}] + again)
    judged(c, "keys in every form, again and again", ses, left)

# ---------------------------------------------------------------- C28
def ambients(c):
    """what an application may have set about its process"""
    l = locales()
    return [("locale", x) for x in l] + [("cxx", x) for x in ("odd", "grouped", l[1])] + [("tz", "XXX+11"), ("tz", ":Nowhere"), ("round", "up"), ("round", "down"), ("ssl", "3"), ("umask", "077")]
def ambient(r, am):
    # the locale most of all; both of them at times
    f, a = r.choice([x for x in am if x[0] == "locale"] * 3 + [x for x in am if x[0] == "cxx"] * 2 + am + [("locale", "C"), ("cxx", "classic")])
    return {"c": "ambient", "f": f, "a": a}
def shaken(r, ev, am, often=3):
    """the same calls, the process around them changing"""
    out = [ambient(r, am) for _ in range(r.choice([1, 1, 2, 3]))]
    for e in ev:
        out.append(e)
        if r.randrange(often) == 0: out.append(ambient(r, am))
    return out
INAMES = ["LIST-ID", "MIME-Version", "In-Reply-To", "Message-ID", "X-I", "I", "Iii"]
ODD8 = [b"\xdd", b"\xfd", b"\xc4", b"\xe4", b"\xd6", b"\xc3\x84", b"\xc4\xb0", b"\xa0", b"\x85", b"\xa4\xa2", b"\xe2\x80\xa8", b"I", b"i"]
def foreign(r, t):
    """letters and octets that mean something else elsewhere"""
    t = bytearray(t)
    for _ in range(r.choice([0, 1, 1, 3])):
        at = r.randrange(len(t) + 1)
        t[at:at + r.randrange(2)] = r.choice(ODD8 + [b"1,5", b"1.000", b"\xa0", b"I", b"L=1"])
    return bytes(t)
def foreign_message(r):
    fs, b = safe_message(r)
    for _ in range(r.choice([1, 2, 3])): fs.insert(r.randrange(len(fs) + 1), crlf(fieldline(r, r.choice(INAMES))))
    if r.randrange(3) == 0: fs.insert(r.randrange(len(fs) + 1), r.choice([b"X-\xdd: a", b"\xc4B: c", b"X\xa0: y", b"X-A:\xa0\x85 z \xa0"]))
    return fs, (b[:len(b) // 2] + r.choice([b"\xa0", b"a\x85 \xa0", b"I", b"\xdd "]) + b[len(b) // 2:]) if r.randrange(2) else b
IDOM = ["I.EXAMPLE", "MAIL.Iii.example", "e.x", "XI--I.NET"]
def C28(c):
    r = c.rng
    am = ambients(c)
    # without a sanitizer: those answer some C functions themselves, and never by the locale
    histories(c, c.pick(4, 5), c.pick([8], [1, 8]), ["good"], ["again", "ambient"], "short histories under one setting after the other", ambients=[am[1], am[4], am[-3]] if c.thorough else [am[1], am[4]], variant="plain")
    # each text call, under each setting
    ses = []
    texts = {"tags": [b"i=I; I=i; a1=1", b" I = I\xa0;b=\xdd"], "ws": [b" \r\n\t ", b"\xa0 ", b"\x85\t", b"\x0b\x0c"], "domain": [b"I.EXAMPLE", b"\xdd.x", b"a\xe4.x", b"i.x"], "vlist": [b"FROM:LIST-ID:I", b"a\xa0: b"],
             "ew": [b"=?ISO-8859-1?Q?I=49?=", b"=?utf-8?b?SQ==?= I"], "b64dec": [b"SUlJaWlp", b"SUk=\xa0", b"\xc4\xe4SU"], "qpdec": [b"=49=C4", b"=\xc4\xe4", b"_I"], "addr": [b"I@I.EXAMPLE, \"\xdd\" <i@I>", b"(\xa0) a@b"],
             "canonhdr": [b"LIST-ID: I  i", b"X-\xdd\xc4I: \xa0 x \xa0", b"I:\t\x85\x0b i"], "canonbody": [b"I  i\xa0 \r\n\xa0\r\n", b"\x85 \x0b\r\n\xa4\xa2  x\r\n"], "mail": [b"LIST-ID: a\r\n\xa0b\r\nI\xa0: x\r\n\r\nbody", b"\xdd: x\r\n\x85\r\n\r\n"],
             "psig": [b"DKIM-SIGNATURE: v=1; a=rsa-sha256; d=MAIL.I.EXAMPLE; s=I; h=FROM:LIST-ID; i=I@I.MAIL.I.EXAMPLE; bh=SUlJ; b=SUlJ; c=simple; t=1; x=9", b"ARC-MESSAGE-SIGNATURE: i=11; a=rsa-sha256; d=I; s=I; h=FROM; bh=SUlJ; b=SUlJ; l=12"],
             "pkey": [b"v=DKIM1; p=" + b64(uh(KEYS["rsa_a"]["spki"])).encode() + b"; t=s", keyrec(r, "rsa_a"), keyrec(r, "ed_a")]}
    for f, a in am:
        for n, l in texts.items():
            for t in l:
                for u in [t] + [foreign(r, t) for _ in range(c.pick(1, 12))]: ses.append({"ev": [{"c": "ambient", "f": f, "a": a}] + [e for e in all_calls(u, r, (n,))]})
    # 8-bit octets and letters everywhere, under every setting at once after another
    for o in list(range(65, 91)) + [0x0b, 0x0c] + list(range(128, 256)):
        x, ev = bytes([o]), []
        for e in [("canonhdr", b"X" + x + b": " + x + b"  a " + x), ("canonbody", b"a " + x + b" \r\n" + x + b"\r\n"), ("tags", b"a=1; " + x + b"=b"), ("tags", b"a=1; t" + x + b"2=b"), ("tags", b"a=1; b=c" + x), ("psig", b"DKIM-Signature: v=1; a=rsa-sha256; d=a" + x + b".b; s=s; h=From; bh=QUJD; b=QUJD"), ("psig", b"DKIM-Signature: v=1; a=rsa-sha256; d=a.b; s=s" + x + b"; h=From; bh=QU" + x + b"JD; b=QUJD"), ("domain", b"a" + x + b".b"), ("vlist", b"a" + x + b":b"), ("b64dec", b"QUJ" + x + b"QUJD"), ("ws", x), ("mail", b"A" + x + b": b\r\n" + x + b"c\r\n\r\n"), ("qpdec", b"=4" + x)]:
            ev.append(ambient(r, am[:6])); ev += list(all_calls(e[1], r, (e[0],)))
        ses.append({"ev": ev})
    for _ in range(c.pick(400, 4000)): ses.append({"ev": shaken(r, [small_calls(r) for _ in range(r.choice([2, 5, 12]))], am, 2)})
    c.traces(ses, "texts read and written under every setting", variant="plain", chunk=3000)
    # verification
    jobs = []
    for n in range(c.pick(300, 2500)):
        fs, b = foreign_message(r)
        jobs.append((Sig(r, fs, type=r.choice(["dkim"] * 3 + ["arc"]), d=r.choice(IDOM), s=r.choice(["I", "s.I", "sel"]), x=r.choice([None, 1700000000, 1700000001])), fs, b))
    ses = []
    for (s, fs, b), f in zip(jobs, forged(c, jobs)):
        if f is None: continue
        f2, i = f
        op = r.choice(TOLERATED + TAMPERING + [None] * 20)
        x = op(r, s, f2, b, i) if op else None
        f3, b3 = x if x and x[1] is not None else (f2, b)
        rec = [(s.query, *((True, keyrec(r, s.kid)) if r.randrange(4) else answer(r, s)))]
        ses.append({"ev": shaken(r, verify(glue(f3, b3), s.type, 1, table(rec), r, now=s.now), am)})
    c.traces(ses, "forged signatures verified under changing settings", variant="plain", chunk=2000)
    # signing here, verifying there
    ses = []
    for _ in range(c.pick(300, 2500)):
        fs, b = foreign_message(r)
        ev = signing(r, Plan(r, fs, d=r.choice(IDOM)), glue(fs, b), claims=False)
        ses.append({"ev": shaken(r, ev, am, 4)})
    for n in c.pick([0, 100], [0, 30, 100, 300]):      # numbers of every length
        for t in (0, 1, 999, 1000, 1234567, 1700000000, 99999999999):
            fs = [b"From: a@b", b"LIST-ID: x"] + [b"I%d: y" % k for k in range(n)]
            p = Plan(r, fs, now=t, arc=r.choice([0, 7, 50]), d="I.x", limit=None, ts=True, x=None, heads=1)
            p.ev += [opt("ts", p.n, d=str(t)), opt("ex", p.n, abs=bool(t % 2), d=str(t + 1000000))]
            ses.append({"ev": shaken(r, signing(r, p, glue(fs, b"x" * 1234), claims=False), am, 4)})
    c.traces(ses, "signed under one setting and verified under another", variant="plain", chunk=1000)
    # option calls, objects by themselves, the tool
    ses = []
    for _ in range(c.pick(250, 2500)):
        ev = [{"c": "optnew", "n": "o"}] + [fix_rsakey(optcall(r)) for _ in range(r.choice([3, 8, 15]))]
        ev += [opt("domain", data=hx(foreign(r, b"I.EXAMPLE"))), opt("selector", data=hx(foreign(r, b"sel.I"))), opt("headers", l=[hx(x) for x in INAMES]), opt("delh", l=[hx("list-id"), hx("iII"), hx("\xc4")]), {"c": "optget", "n": "o"}]
        ses.append({"ev": shaken(r, ev, am)})
    for _ in range(c.pick(60, 600)):
        fs, b = foreign_message(r)
        m = glue(fs, b)
        alg, kid, form = somekey(r)
        items = [("s", "I"), ("d", "MAIL.I.x"), ("k", "key"), ("K", alg), "mail"] + ([("A", "12")] if r.randrange(3) == 0 else [])
        ev = [{"c": "now", "d": str(r.choice([1700000000, 1234567]))}, tool(r, items, [tfile("mail", m), tfile("key", keydata(kid, form), kid, form)], mail=m)]
        ev += [table([("I._domainkey.mail.i.x", True, keyrec(r, kid))]), {"c": "val", "v": "v", "type": "arc" if ("A", "12") in items else "dkim", "last": True, "custom": False}]
        ev += [{"c": "getsig", "v": "v", "k": 1, "s": "s"}, {"c": "getkey", "v": "v", "s": "s", "p": "p"}, {"c": "check", "v": "v", "k": 1, "s": "s", "p": "p"}]
        ses.append({"ev": shaken(r, ev, am)})
    c.traces(ses, "options and the tool under every setting", variant="plain", chunk=1000)

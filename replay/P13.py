"""translation tables of every version with distinct keys, zero-terminated texts (also not UTF-8) and encrypted blocks, read from a file or a file object; looked up by key text, hash and other values, for game versions around the changes of hash width and function; wrong magic codes, versions and truncated tables"""
from lib import *
import io, os, struct, base64
import cdtb.rstfile as R
from xxhash import xxh3_64_intdigest, xxh64_intdigest

GAMES = [0, 1, 1400, 1414, 1415, 1416, 1501, 1502, 1503, 1600]
NAMES = ["a", "Game_Character_Displayname", "ÉTÉ", "x y", "", "AB", "ab_c"]

def text(rng):
    return rng.choice([b"", b"a", "é\u2019".encode(), b"it\x92s", b"\x80\x81", bytes(rng.randrange(1, 255) for _ in range(rng.choice([1, 3, 30, 300]))), b"\xff" if rng.random() < .2 else b"<b>"])

def generate(rng, hints):
    version = rng.choice([2, 3, 4, 5, 5])
    es = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 9])):
        key = rng.choice([("name", rng.choice(NAMES)), ("num", rng.getrandbits(64)), ("num", rng.choice([0, 1, 2**38 - 1, 2**38, 2**39 - 1, 2**39]))])
        es.append((key, rng.random() < .4, text(rng), rng.choice([0, 0, 1, 5]), rng.random() < .2))
    return (version, rng.choice(GAMES), rng.choice([0, 0, 1, 255]), rng.random() < .5, rng.choice([b"", b"font", "é".encode()]), es, rng.choice(["file", "path"]),
            rng.choice([None] * 6 + ["magic", "version", "cut"]), rng.randrange(256))

def smaller(case):
    for c in drop_one(case[5]): yield case[:5] + (c,) + case[6:]
    if case[7]: yield case[:7] + (None,) + case[8:]

def check(case, tmp):
    version, game, trenc, font, config, es, how, damage, which = case
    bits = 40 if version < 4 else 38 if game >= 1502 else 39
    hashed = lambda s: (xxh3_64_intdigest if game >= 1415 else xxh64_intdigest)(s.lower())
    data, table, want, order = b"", [], {}, []
    if version >= 5: trenc = 0
    for key, block, t, gap, share in es:
        full = hashed(key[1]) if key[0] == "name" else key[1]
        h = full % 2 ** bits
        if h in want: continue
        data += b"\x01" * gap
        off = len(data)
        if share and table and not (trenc and block):
            off = table[-1][0]; t = None
        if t is None:
            want[h] = want[order[-1]]
        elif trenc and block:
            data += b"\xff" + struct.pack("<H", len(t)) + t
            want[h] = base64.b64encode(t).decode()
        else:
            if trenc: t = t.lstrip(b"\xff")
            t = t.replace(b"\0", b"")
            data += t + b"\0"
            want[h] = t.decode("utf-8", "replace")
        order.append(h)
        table.append((off, h))
    head = b"RST" + bytes([version])
    if version == 2: head += b"\1" + struct.pack("<L", len(config)) + config if font else b"\0"
    head += struct.pack("<L", len(table)) + b"".join(struct.pack("<Q", (o << bits) | h) for o, h in table)
    if version < 5: head += bytes([trenc])
    raw = head + data
    if damage == "magic":
        b = bytearray(raw); b[which % 3] ^= 1 + which % 255; raw = bytes(b)
    if damage == "version":
        if which in (2, 3, 4, 5): return
        raw = raw[:3] + bytes([which]) + raw[4:]
    if damage == "cut": raw = head[:which % len(head)]
    if how == "path":
        p = os.path.join(tmp, "t.stringtable")
        with open(p, "wb") as f: f.write(raw)
        got = outcome(R.RstFile, p, game)
    else: got = outcome(R.RstFile, io.BytesIO(raw), game)
    if damage:
        need(got[0] == "exc", f"a table with damage ({damage}) is accepted")
        if damage != "cut": need(isinstance(got[2], ValueError), f"a table with a wrong {damage}: {short(got[2])} instead of a ValueError")
        return
    if got[0] == "exc": raise Bad(f"a version {version} table fails with {short(got[2])}")
    r = got[1]
    same(r.entries, want, "texts by key")
    same(r.hash_bits, bits, "hash width")
    same(r.version, version, "version")
    same(r.font_config, config.decode() if version == 2 and font else None, "font configuration")
    for key in NAMES + [k[1] for k, *_ in es] + order + [h + 2 ** bits for h in order] + [5, 2 ** bits]:
        h = (hashed(key) if isinstance(key, str) else key) % 2 ** bits
        same(key in r, h in want, f"membership of {key!r}")
        same(r.get(key), want.get(h), f"get({key!r})")
        same(r.get(key, "d"), want.get(h, "d"), f"get({key!r}, 'd')")
        o = outcome(lambda: r[key])
        if h in want: same(o[:2], ("ok", want[h]), f"[{key!r}]")
        else: same(o[:2], ("exc", "KeyError"), f"[{key!r}]")
    for key in (None,):
        same((key in r, r.get(key, "d"), outcome(lambda: r[key])[:2]), (False, "d", ("exc", "KeyError")), f"lookups of {key!r}")
    same(r.entries, want, "texts after the lookups")

"""bodies of 0-60 bytes cut into random chunks; random sequences of copy/skip/skip_to on one RequestStreamReader, compared with slices of the body; some bodies are scaled up to 40 MiB"""
from lib import *
from cdtb.storage import RequestStreamReader

class Resp:
    def __init__(self, chunks): self.chunks = chunks
    def iter_content(self, *a, **k): return iter(self.chunks)

def generate(rng, hints):
    data = rbytes(rng, rng.choice([0, 1, 5, 20, 60]))
    chunks = cuts(rng, data)
    ops, pos = [], 0
    borders = [0]
    for c in chunks: borders.append(borders[-1] + len(c))
    for _ in range(rng.randint(1, 8)):
        op = rng.choice(["copy", "copy", "skip", "skip_to", "back"])
        if op == "back":
            if pos: ops.append(("back", rng.randrange(pos)))
            continue
        end = rng.choice([pos, len(data), rng.randint(pos, len(data)), max(pos, rng.choice(borders)), min(len(data), max(pos, rng.choice(borders) + rng.choice([-1, 1])))])
        ops.append((op, end if op == "skip_to" else end - pos))
        pos = end
    return (chunks, ops, 1 if rng.random() < .99 or len(data) > 20 else rng.choice([2 ** 20, 1500000, 2 ** 21 + 1]), rng.choice([None, None, 1, 3, 10]))

def smaller(case):
    chunks, ops, unit, size = case
    for o in drop_one(ops): yield (chunks, o, unit, size)
    for c in drop_one(chunks): yield (c, ops, unit, size)
    if size is not None: yield (chunks, ops, unit, None)

def check(case, tmp):
    chunks, ops, unit, size = case
    RequestStreamReader.DOWNLOAD_CHUNK_SIZE = size or 10 * 1024 ** 2
    if unit > 1: chunks, ops = [b"".join(bytes([x]) * unit for x in c) for c in chunks], [(o, n * unit) for o, n in ops]
    data = b"".join(chunks)
    taken = []
    def feed():
        for c in chunks:
            taken.append(c)
            yield c
    r = RequestStreamReader(Resp([]))
    r = RequestStreamReader(type("R", (), {"iter_content": lambda self, *a, **k: feed()})())
    pos = 0
    for op, n in ops:
        got = []
        if op == "back":
            if n >= pos: continue
            k = len(taken)
            o = outcome(r.skip_to, n)
            same(o[:2], ("exc", "AssertionError"), f"skip_to({n}) at {pos}")
            same(len(taken), k, "chunks read by a refused seek")
            same(r.pos, pos, "position after a refused seek")
            continue
        end = n if op == "skip_to" else pos + n
        if end > len(data) or end < pos: continue
        if op == "copy": o = outcome(r.copy, got.append, n)
        elif op == "skip": o = outcome(r.skip, n)
        else: o = outcome(r.skip_to, n)
        same(o[0], "ok", f"{op}({n}) at {pos} ({short(o)})")
        got, want = b"".join(got), data[pos:end] if op == "copy" else b""
        if got != want: raise Bad(f"bytes written by {op}({n}) at {pos}: got {short(got[:100])}, expected {short(want[:100])}")
        pos = end
        same(r.pos, pos, f"position after {op}({n})")

import gzip, struct
import pyzstd
from xxhash import xxh3_64_intdigest

def wad(version, entries, minor=0, count=None, magic=b"RW", pad=0, header=None):
    """entries: dicts with path_hash, offset, csize, size, type byte, dup, sub, checksum"""
    major = version
    head = {1: 8, 2: 100, 3: 268}.get(major, 12)
    out = bytearray(magic + bytes([major, minor]))
    fill = header or b""
    out += (fill + bytes(head))[:head - 4]
    out += struct.pack("<I", len(entries) if count is None else count)
    for e in entries: out += entry(major, minor, e)
    return bytes(out) + bytes(pad)

def entry(major, minor, e):
    if major == 1: return struct.pack("<QIIII", e["path_hash"], e["offset"], e["csize"], e["size"], e["type"])
    b = struct.pack("<QIIIB", e["path_hash"], e["offset"], e["csize"], e["size"], e["type"] & 255)
    if major < 3 or minor < 4:
        return b + bytes([e["dup"]]) + struct.pack("<H", e["sub"] & 0xffff) + struct.pack("<Q", e["checksum"])
    return b + bytes([e["sub"] >> 16 & 255]) + struct.pack("<H", e["sub"] & 0xffff) + struct.pack("<Q", e["checksum"])

def entry_size(major): return 24 if major == 1 else 32

"""Writes well-formed FlatBuffers with varying layouts, and reads shipped keys.

A table is {field number: value}; values are ("u8", number), ..., ("f32", bits),
("str", bytes), a table (dict), or a list of tables.
"""
import struct

SIZES = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "f32": 4, "u64": 8, "i64": 8, "f64": 8}


class Writer:
    def __init__(self, r):
        self.r, self.buf, self.vtables = r, bytearray(4), {}
        if r.random() < 0.3:
            self.buf += b"NPPT"  # file identifier

    def align(self, size):
        while len(self.buf) % size:
            self.buf.append(self.r.randrange(256) if self.r.random() < 0.5 else 0)

    def gap(self):
        if self.r.random() < 0.3:
            self.buf += bytes(self.r.randrange(256) for _ in range(4 * self.r.randrange(1, 3)))

    def point(self, where):
        struct.pack_into("<I", self.buf, where, len(self.buf) - where)

    def build(self, root):
        self.todo = [(0, root)]
        while self.todo:
            where, val = self.todo.pop(self.r.randrange(len(self.todo)) if where_any(self.r) else 0)
            self.gap()
            if isinstance(val, dict):
                self.table(where, val)
            elif isinstance(val, list):
                self.align(4)
                self.point(where)
                self.buf += struct.pack("<I", len(val))
                first = len(self.buf)
                self.buf += bytes(4 * len(val))
                self.todo += [(first + 4 * i, t) for i, t in enumerate(val)]
            else:
                self.align(4)
                self.point(where)
                self.buf += struct.pack("<I", len(val[1])) + val[1] + b"\0"
        self.align(4)
        return list(self.buf)

    def table(self, where, fields):
        r = self.r
        count = max(fields, default=-1) + 1
        count += r.choice((0, 0, 1, 3))  # trailing absent fields may be stored or not
        order = list(fields)
        r.shuffle(order)
        # inline layout
        off, places = 4, {}
        for f in order:
            val = fields[f]
            size = SIZES[val[0]] if isinstance(val, tuple) and val[0] in SIZES else 4
            off += -off % min(size, 4)
            if r.random() < 0.1:
                off += 4
            places[f] = off
            off += size
        off += -off % 4
        vtable = struct.pack("<HH", 4 + 2 * count, off) + b"".join(struct.pack("<H", places.get(f, 0)) for f in range(count))
        after = r.random() < 0.3
        vt = self.vtables.get(vtable) if r.random() < 0.7 else None
        if vt is None and not after:
            self.align(2)
            vt = len(self.buf)
            self.buf += vtable
            self.vtables[vtable] = vt
        self.align(4)
        self.point(where)
        start = len(self.buf)
        self.buf += bytes(off) if r.random() < 0.5 else bytes(r.randrange(256) for _ in range(off))
        if vt is None:
            vt = len(self.buf)
            self.buf += vtable
            self.vtables[vtable] = vt
        struct.pack_into("<i", self.buf, start, start - vt)
        for f in order:
            val, at = fields[f], start + places[f]
            if isinstance(val, tuple) and val[0] in SIZES:
                size = SIZES[val[0]]
                self.buf[at:at + size] = (val[1] & ((1 << 8 * size) - 1)).to_bytes(size, "little")
            else:
                self.todo.append((at, val))


def where_any(r):
    return r.random() < 0.5


def write(r, root):
    return Writer(r).build(root)


def field(buf, table, number):
    vt = table - struct.unpack_from("<i", buf, table)[0]
    size = struct.unpack_from("<H", buf, vt)[0]
    off = struct.unpack_from("<H", buf, vt + 4 + 2 * number)[0] if 4 + 2 * number < size else 0
    return table + off if off else 0


def follow(buf, at):
    return at + struct.unpack_from("<I", buf, at)[0]


def rows(buf):
    at = field(buf, follow(buf, 0), 0)
    vec = follow(buf, at)
    return [follow(buf, vec + 4 + 4 * i) for i in range(struct.unpack_from("<I", buf, vec)[0])]


def ids(buf, number=0):
    """the 64-bit identifiers of a shipped table's rows, as words"""
    out = []
    for row in rows(buf):
        val = struct.unpack_from("<Q", buf, field(buf, row, number))[0]
        out.append([s32(val >> 32), s32(val)])
    return out


def pairs(buf):
    """the 32-bit first two fields of a shipped table's rows"""
    out = []
    for row in rows(buf):
        out.append([struct.unpack_from("<i", buf, at)[0] if at else 0 for at in (field(buf, row, 0), field(buf, row, 1))])
    return out


def s32(v):
    v &= 0xFFFFFFFF
    return v - (1 << 32) if v >> 31 else v

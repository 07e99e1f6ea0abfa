"""A small FlatBuffer decoder and encoder, written from the format's description only."""
import struct

U16, I32, U32, U64, F32, I8 = "<H", "<i", "<I", "<Q", "<f", "<b"


class Table:
    """a table at a position of a buffer; fields by index"""

    def __init__(self, buf, pos=None):
        self.buf = buf
        self.pos = struct.unpack_from(U32, buf, 0)[0] if pos is None else pos
        self.vtable = self.pos - struct.unpack_from(I32, buf, self.pos)[0]
        self.slots = (struct.unpack_from(U16, buf, self.vtable)[0] - 4) // 2

    def at(self, index):
        if index >= self.slots:
            return None
        offset = struct.unpack_from(U16, self.buf, self.vtable + 4 + 2 * index)[0]
        return self.pos + offset if offset else None

    def get(self, index, fmt, default=0):
        at = self.at(index)
        return default if at is None else struct.unpack_from(fmt, self.buf, at)[0]

    def follow(self, at):
        return at + struct.unpack_from(U32, self.buf, at)[0]

    def child(self, index):
        at = self.at(index)
        return None if at is None else Table(self.buf, self.follow(at))

    def children(self, index):
        at = self.at(index)
        if at is None:
            return []
        vector = self.follow(at)
        count = struct.unpack_from(U32, self.buf, vector)[0]
        return [Table(self.buf, self.follow(vector + 4 + 4 * i)) for i in range(count)]


class Builder:
    """Lays out tables in any field order, with or without trailing vtable entries and shared vtables.

    A table is ("table", size, {index: value}, order) with values (fmt, number), ("string", bytes),
    ("object", table), ("array", [tables]); None stands for an absent field.
    """

    def __init__(self, share_vtables=False, vtable_after=False, pad=0):
        self.buf = bytearray(b"\0\0\0\0" + b"\0" * pad)
        self.share, self.vtable_after = share_vtables, vtable_after
        self.vtables = {}

    def align(self, n):
        while len(self.buf) % n:
            self.buf.append(0xEE)

    def table(self, count, fields, order=None):
        """position of a table; `count` entries in its vtable, `order` of its inline fields"""
        order = list(fields) if order is None else order
        offsets, at = [0] * count, 4
        for index in order:
            value = fields[index]
            size = struct.calcsize(value[0]) if value[0].startswith("<") else 4
            at += -at % size
            offsets[index] = at
            at += size
        body = at
        words = (4 + 2 * count, body, *offsets)
        vt = self.vtables.get(words) if self.share else None
        if vt is None and not self.vtable_after:
            self.align(2)
            vt = len(self.buf)
            self.buf += struct.pack(f"<{len(words)}H", *words)
            self.vtables[words] = vt
        self.align(8)
        pos = len(self.buf)
        self.buf += b"\xEE" * body
        if vt is None:
            self.align(2)
            vt = len(self.buf)
            self.buf += struct.pack(f"<{len(words)}H", *words)
            self.vtables[words] = vt
        struct.pack_into(I32, self.buf, pos, pos - vt)
        for index in order:
            value, where = fields[index], pos + offsets[index]
            if value[0].startswith("<"):
                struct.pack_into(value[0], self.buf, where, value[1])
            else:
                target = self.put(value)
                struct.pack_into(U32, self.buf, where, target - where)
        return pos

    def put(self, value):
        if value[0] == "object":
            return self.table(*value[1])
        self.align(4)
        pos = len(self.buf)
        if value[0] == "string":
            self.buf += struct.pack(U32, len(value[1])) + value[1] + b"\0"
            return pos
        self.buf += struct.pack(U32, len(value[1])) + b"\0" * (4 * len(value[1]))
        for i, child in enumerate(value[1]):
            target = self.table(*child)
            where = pos + 4 + 4 * i
            struct.pack_into(U32, self.buf, where, target - where)
        return pos

    def finish(self, count, fields, order=None):
        root = self.table(count, fields, order)
        struct.pack_into(U32, self.buf, 0, root)
        return bytearray(self.buf)

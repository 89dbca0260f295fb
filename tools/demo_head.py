import sys, os, subprocess, zlib, struct, random, re
BIN = sys.argv[1]

def run(cmd, data, out=subprocess.PIPE):
    p = subprocess.run([BIN, cmd], input=data, stdout=out, stderr=subprocess.PIPE, timeout=60)
    return p.returncode, p.stdout

HEADER = bytes([31, 139, 8, 0, 0, 0, 0, 0, 0, 3])
def wrap(raw, content):
    return HEADER + raw + struct.pack("<II", zlib.crc32(content), len(content) & 0xffffffff)

def deflate(content, level=6, **kw):
    c = zlib.compressobj(level, zlib.DEFLATED, -15, **kw)
    return c.compress(content) + c.flush()

def gz(content, level=6):
    return wrap(deflate(content, level), content)

def stored(blocks):
    out = b""
    for i, b in enumerate(blocks):
        out += struct.pack("<BHH", i + 1 == len(blocks), len(b), len(b) ^ 0xffff) + b
    return out

class Bits:
    def __init__(self): self.b = []
    def put(self, n, v):
        for i in range(n): self.b.append(v >> i & 1)
    def huff(self, n, v):
        for i in reversed(range(n)): self.b.append(v >> i & 1)
    def sym(self, s):
        if s < 144: self.huff(8, 0x30 + s)
        elif s < 256: self.huff(9, 0x190 + s - 144)
        elif s < 280: self.huff(7, s - 256)
        else: self.huff(8, 0xC0 + s - 280)
    def data(self):
        while len(self.b) % 8: self.b.append(0)
        return bytes(sum(self.b[i + j] << j for j in range(8)) for i in range(0, len(self.b), 8))


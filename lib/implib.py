"""Writes import libraries in the format of link.exe (both linker members, short import members)."""
import struct
def implib(dll, funcs):
    """funcs: [(symbol, ordinal or None, hint)]; ordinal: imported by ordinal."""
    members = []; syms = []
    for name, ordinal, hint in funcs:
        data = name.encode() + b'\0' + dll.encode() + b'\0'
        h = struct.pack('<HHHHIIHH', 0, 0xffff, 0, 0x8664, 0, len(data), ordinal if ordinal is not None else hint, (0 if ordinal is not None else 1) << 2)
        syms += [(name.encode(), len(members)), (b'__imp_' + name.encode(), len(members))]; members.append(h + data)
    syms.sort(); strings = b''.join(s + b'\0' for s, _ in syms)
    def hdr(n, size): return (n.ljust(16) + '0'.ljust(12) + ''.ljust(6) * 2 + '0'.ljust(8) + str(size).ljust(10) + '`\n').encode()
    l1 = 4 + 4 * len(syms) + len(strings); l2 = 8 + 4 * len(members) + 2 * len(syms) + len(strings); pad = lambda n: n + (n & 1)
    at = 8 + 60 + pad(l1) + 60 + pad(l2); ln = dll + '/' if len(dll) < 16 else '/0'; longn = b'' if len(dll) < 16 else dll.encode() + b'\0'
    if longn: at += 60 + pad(len(longn))
    offs = []
    for m in members: offs.append(at); at += 60 + pad(len(m))
    out = b'!<arch>\n'
    def add(n, d):
        nonlocal out; out += hdr(n, len(d)) + d + (b'\n' if len(d) & 1 else b'')
    add('/', struct.pack('>I', len(syms)) + b''.join(struct.pack('>I', offs[i]) for _, i in syms) + strings)
    add('/', struct.pack('<I', len(members)) + b''.join(struct.pack('<I', o) for o in offs) + struct.pack('<I', len(syms)) + b''.join(struct.pack('<H', i + 1) for _, i in syms) + strings)
    if longn: add('//', longn)
    for m in members: add(ln, m)
    return out

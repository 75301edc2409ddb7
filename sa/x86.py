"""Decoder for the code templates of the JIT (x86-64), and a forward analysis of a decoded template.

Bytes of a template are constants or symbolic (linear forms over register numbers); opcodes and ModRM bytes must be
constants, displacements and immediates may be symbolic."""
from .emit import K, V, add, mul

R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"]
JCC = ["jo", "jno", "jb", "jae", "je", "jne", "jbe", "ja", "js", "jns", "jp", "jnp", "jl", "jge", "jle", "jg"]
ALU = ["add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"]
SH = ["rol", "ror", "rcl", "rcr", "shl", "shr", "sal", "sar"]


class Bad(Exception):
    def __init__(s, pos, msg): s.pos, s.msg = pos, msg


class Ins:
    __slots__ = ("pos", "end", "op", "dst", "src", "w", "where", "rel")
    def __repr__(s): return "%d: %s %s %s" % (s.pos, s.op, s.dst, s.src)


def mem(base, disp, index=None, scale=1): return ("mem", base, disp, index, scale)


class Decoder:
    def __init__(s, t):
        s.t, s.at = t, {}
        for it in t.items:
            s.at[it[0]] = it
        s.p = 0

    def item(s, n, what):
        """n bytes at the cursor as one value"""
        it = s.at.get(s.p)
        pat = s.t.patches.get(s.p)
        if pat is not None and pat[0] == n:
            s.p += n
            return pat[1]
        if it is not None and it[1] == n:
            s.p += n
            return it[2]
        # assemble from constant bytes
        v = 0
        q = s.p
        k = 0
        while k < n:
            j = s.at.get(q)
            if j is None or j[2].c is None or k + j[1] > n: raise Bad(s.p, "%d-byte %s is not emitted as one value" % (n, what))
            v |= (j[2].c & ((1 << (8 * j[1])) - 1)) << (8 * k)
            k += j[1]; q += j[1]
        s.p = q
        if n in (4, 8) and v >> (8 * n - 1): v -= 1 << (8 * n)
        return K(v)

    def byte(s):
        it = s.at.get(s.p)
        if it is None: raise Bad(s.p, "code ends, or a multi-byte value is read, in the middle of an instruction")
        if it[1] != 1:
            raise Bad(s.p, "a %d-byte value where an opcode is expected" % it[1])
        if it[2].c is None: raise Bad(s.p, "a computed byte where an opcode is expected")
        s.p += 1
        return it[2].c & 255

    def modrm(s, rex):
        m = s.byte()
        mod, reg, rm = m >> 6, (m >> 3) & 7 | (8 if rex & 4 else 0), m & 7
        if mod == 3: return reg, ("r", R64[rm | (8 if rex & 1 else 0)])
        idx, sc = None, 1
        if rm == 4:
            sib = s.byte()
            i = (sib >> 3) & 7 | (8 if rex & 2 else 0)
            idx = None if i == 4 else R64[i]
            sc = 1 << (sib >> 6)
            b = sib & 7
            base = R64[b | (8 if rex & 1 else 0)]
            if b == 5 and mod == 0: base = None
        else:
            base = R64[rm | (8 if rex & 1 else 0)]
            if rm == 5 and mod == 0: base = "rip"
        if mod == 1: disp = ("d8", s.item(1, "displacement"))
        elif mod == 2 or (mod == 0 and base in (None, "rip")): disp = ("d32", s.item(4, "displacement"))
        else: disp = ("d0", K(0))
        return reg, mem(base, disp, idx, sc)

    def all(s):
        out = []
        while s.p < s.t.len:
            out.append(s.one())
        return out

    def one(s):
        I = Ins()
        I.pos, I.dst, I.src, I.rel, I.w = s.p, None, None, None, 4
        it = s.at.get(s.p)
        I.where = it[3].where if it else "?"
        pre = set()
        b = s.byte()
        while b in (0x66, 0xF2, 0xF3):
            pre.add(b); b = s.byte()
        rex = 0
        if 0x40 <= b <= 0x4F: rex = b; b = s.byte()
        W = 8 if rex & 8 else 2 if 0x66 in pre else 4
        I.w = W
        R = lambda n: ("r", R64[n])
        if b < 0x40 and (b & 7) in (1, 3):
            reg, rm = s.modrm(rex)
            I.op = ALU[b >> 3]
            I.dst, I.src = (rm, R(reg)) if (b & 7) == 1 else (R(reg), rm)
        elif b < 0x40 and (b & 7) in (0, 2):
            reg, rm = s.modrm(rex)
            I.op = ALU[b >> 3]; I.w = 1
            I.dst, I.src = (rm, R(reg)) if (b & 7) == 0 else (R(reg), rm)
        elif b < 0x40 and (b & 7) == 4: I.op, I.dst, I.src, I.w = ALU[b >> 3], R(0), ("i", s.item(1, "immediate")), 1
        elif b < 0x40 and (b & 7) == 5: I.op, I.dst, I.src = ALU[b >> 3], R(0), ("i", s.item(4, "immediate"))
        elif 0x50 <= b <= 0x57: I.op, I.src = "push", R(b - 0x50 | (8 if rex & 1 else 0))
        elif 0x58 <= b <= 0x5F: I.op, I.dst = "pop", R(b - 0x58 | (8 if rex & 1 else 0))
        elif b == 0x63:
            reg, rm = s.modrm(rex); I.op, I.dst, I.src = "movsxd", R(reg), rm
        elif b in (0x69, 0x6B):
            reg, rm = s.modrm(rex); I.op, I.dst, I.src = "imul3", R(reg), rm; s.item(4 if b == 0x69 else 1, "immediate")
        elif 0x70 <= b <= 0x7F: I.op, I.rel = JCC[b & 15], (1, s.p, s.item(1, "jump distance"))
        elif b in (0x80, 0x81, 0x83):
            reg, rm = s.modrm(rex)
            I.op, I.dst, I.src = ALU[reg & 7], rm, ("i", s.item(4 if b == 0x81 else 1, "immediate"))
            if b == 0x80: I.w = 1
        elif b in (0x84, 0x85):
            reg, rm = s.modrm(rex); I.op, I.dst, I.src = "test", rm, R(reg)
        elif b in (0x88, 0x89, 0x8A, 0x8B):
            reg, rm = s.modrm(rex)
            I.op = "mov"
            I.dst, I.src = (rm, R(reg)) if b < 0x8A else (R(reg), rm)
            if not b & 1: I.w = 1
        elif b == 0x8D:
            reg, rm = s.modrm(rex); I.op, I.dst, I.src = "lea", R(reg), rm
        elif b == 0x90: I.op = "nop"
        elif b == 0x98: I.op, I.dst, I.src = "cdqe", R(0), R(0)
        elif b == 0x99: I.op, I.dst, I.src = "cdq", R(2), R(0)
        elif b == 0xA8: I.op, I.dst, I.src, I.w = "test", R(0), ("i", s.item(1, "immediate")), 1
        elif b == 0xA9: I.op, I.dst, I.src = "test", R(0), ("i", s.item(4, "immediate"))
        elif 0xB8 <= b <= 0xBF:
            I.op, I.dst, I.src = "mov", R(b - 0xB8 | (8 if rex & 1 else 0)), ("i", s.item(8 if W == 8 else 4, "immediate"))
        elif b in (0xC0, 0xC1):
            reg, rm = s.modrm(rex); I.op, I.dst, I.src = SH[reg & 7], rm, ("i", s.item(1, "immediate"))
        elif b == 0xC3: I.op = "ret"
        elif b in (0xC6, 0xC7):
            reg, rm = s.modrm(rex)
            if reg & 7: raise Bad(I.pos, "invalid opcode")
            I.op, I.dst, I.src = "mov", rm, ("i", s.item(4 if b == 0xC7 else 1, "immediate"))
        elif b == 0xC9: I.op = "leave"
        elif b == 0xCC: I.op = "int3"
        elif b in (0xD0, 0xD1, 0xD2, 0xD3):
            reg, rm = s.modrm(rex); I.op, I.dst = SH[reg & 7], rm
            I.src = ("i", K(1)) if b < 0xD2 else ("r", "rcx")
        elif b == 0xE8: I.op, I.rel = "callrel", (4, s.p, s.item(4, "jump distance"))
        elif b == 0xE9: I.op, I.rel = "jmp", (4, s.p, s.item(4, "jump distance"))
        elif b == 0xEB: I.op, I.rel = "jmp", (1, s.p, s.item(1, "jump distance"))
        elif b in (0xF6, 0xF7):
            reg, rm = s.modrm(rex)
            I.op, I.dst = ["test", "test", "not", "neg", "mul", "imul1", "div", "idiv"][reg & 7], rm
            if b == 0xF6: I.w = 1
            if (reg & 7) < 2: I.src = ("i", s.item(1 if b == 0xF6 else 4, "immediate"))
        elif b in (0xFE, 0xFF):
            reg, rm = s.modrm(rex)
            x = ["inc", "dec", "call", None, "jmpind", None, "push", None][reg & 7]
            if x is None or (b == 0xFE and (reg & 7) > 1): raise Bad(I.pos, "invalid opcode")
            I.op, I.dst = x, rm
        elif b == 0x0F:
            c = s.byte()
            if 0x80 <= c <= 0x8F: I.op, I.rel = JCC[c & 15], (4, s.p, s.item(4, "jump distance"))
            elif 0x90 <= c <= 0x9F:
                reg, rm = s.modrm(rex); I.op, I.dst, I.w = "set" + JCC[c & 15][1:], rm, 1
            elif 0x40 <= c <= 0x4F:
                reg, rm = s.modrm(rex); I.op, I.dst, I.src = "cmov" + JCC[c & 15][1:], R(reg), rm
            elif c == 0xAF:
                reg, rm = s.modrm(rex); I.op, I.dst, I.src = "imul", R(reg), rm
            elif c in (0xB6, 0xB7, 0xBE, 0xBF):
                reg, rm = s.modrm(rex); I.op, I.dst, I.src = "movx", R(reg), rm
            elif c in (0x10, 0x28, 0x2A, 0x2C, 0x2D, 0x2E, 0x2F, 0x51, 0x54, 0x57, 0x58, 0x59, 0x5C, 0x5E, 0x6E, 0xEF):
                reg, rm = s.modrm(rex)
                I.op = {0x10: "movsd", 0x28: "movapd", 0x2A: "cvtsi2sd", 0x2C: "cvttsd2si", 0x2D: "cvtsd2si", 0x2E: "ucomisd", 0x2F: "comisd",
                        0x51: "sqrtsd", 0x54: "andpd", 0x57: "xorpd", 0x58: "addsd", 0x59: "mulsd", 0x5C: "subsd", 0x5E: "divsd", 0x6E: "movq",
                        0xEF: "pxor"}[c]
                I.dst = R(reg) if c in (0x2C, 0x2D) else ("x", reg)
                I.src = rm if c in (0x10, 0x2A, 0x6E) or rm[0] == "mem" else ("x", R64.index(rm[1]))
            elif c == 0x11:
                reg, rm = s.modrm(rex); I.op, I.dst, I.src = "movsd", rm, ("x", reg)
            elif c == 0x1F:
                s.modrm(rex); I.op = "nop"
            else: raise Bad(I.pos, "unknown opcode 0f %02x" % c)
        else: raise Bad(I.pos, "unknown opcode %02x" % b)
        I.end = s.p
        return I


def disp_value(d):
    """displacement as a linear form, sign-extended where it is a byte; None when it cannot be a byte's value"""
    kind, v = d
    if v.c is not None:
        c = v.c
        if kind == "d8":
            c &= 255
            c = c - 256 if c >= 128 else c
        return K(c)
    if v.l is None: return None
    if kind == "d8": return add(v, K(256), -1) if v.l.get(1, 0) > 127 else v
    return v

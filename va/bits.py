"""Bit provenance of integer terms: every result bit is 0, 1 or one bit of the input."""
from .dom import *


def prov(v, src, maxbits):
    """list of bits, least significant first (up to 64), or None when unknown.
    A bit is 0, 1 or ('c', i): bit i of `src`, whose value is below 2**maxbits."""
    if v == src:
        return [('c', i) if i < maxbits else 0 for i in range(64)]
    k = v[0]
    if k == 'i':
        if v[1] < 0:
            return None
        return [(v[1] >> i) & 1 for i in range(64)]
    if k == 't':
        op = v[1]
        if op == 'Trunc':
            b = prov(v[3], src, maxbits)
            w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(v[2])
            if b is None or w is None:
                return None
            return b[:w] + [0] * (64 - w)
        if op in ('Shr', 'Shl') and v[4][0] == 'i':
            b = prov(v[3], src, maxbits)
            if b is None:
                return None
            n = v[4][1]
            w = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}.get(v[2], 64)
            if op == 'Shr':
                return b[n:] + [0] * n
            return ([0] * n + b[:64 - n])[:w] + [0] * (64 - w)
        if op in ('And', 'Or', 'Xor'):
            a, b = prov(v[3], src, maxbits), prov(v[4], src, maxbits)
            if a is None or b is None:
                return None
            out = []
            for x, y in zip(a, b):
                if op == 'And':
                    if x == 0 or y == 0:
                        out.append(0)
                    elif x == 1:
                        out.append(y)
                    elif y == 1 or x == y:
                        out.append(x)
                    else:
                        return None
                elif op == 'Or':
                    if x == 1 or y == 1:
                        out.append(1)
                    elif x == 0:
                        out.append(y)
                    elif y == 0 or x == y:
                        out.append(x)
                    else:
                        return None
                else:
                    if x == 0:
                        out.append(y)
                    elif y == 0:
                        out.append(x)
                    elif x == y:
                        out.append(0)
                    else:
                        return None
            return out
    if k == 'lin':
        # a sum of bit-disjoint parts is their union
        parts = [prov(('i', v[1]), src, maxbits)] if v[1] >= 0 else [None]
        for t, c in v[2]:
            if c <= 0 or c & (c - 1):
                return None
            b = prov(t, src, maxbits)
            if b is None:
                return None
            n = c.bit_length() - 1
            parts.append(([0] * n + b)[:64])
        if any(p is None for p in parts):
            return None
        out = [0] * 64
        for p in parts:
            for i, x in enumerate(p):
                if x != 0:
                    if out[i] != 0:
                        return None
                    out[i] = x
        return out
    return None


def utf8_expected(n):
    """bits of the n bytes of the UTF-8 form of a character (n >= 2), most significant byte first"""
    out = []
    for j in range(n):
        sh = 6 * (n - 1 - j)
        if j == 0:
            w = {2: 5, 3: 4, 4: 3}[n]
            bits = [('c', sh + i) for i in range(w)]
            lead = {2: 0xC0, 3: 0xE0, 4: 0xF0}[n]
            for i in range(w, 8):
                bits.append((lead >> i) & 1)
        else:
            bits = [('c', sh + i) for i in range(6)] + [0, 1]
        out.append(bits)
    return out

"""Words as sequences of bit fields.

slices(e, w): e as a sum of disjoint fields, each a part of one atom (a value below 2^w whose
arithmetic is not looked into), or None.  build() turns the fields back into one canonical term, so
that two ways of writing the same word become the same term.  Only identities of div, mod and
multiplication by powers of two on non-negative integers are used."""
import z3
from sym import is_c, poly, norm


W = 64   # atoms are taken to be below 2^64; a term built by the executor divides only such values


def atom(t):
    """fields of the term t"""
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ITE and z3.is_int_value(t.arg(1)) and z3.is_int_value(t.arg(2)):
            a, b = t.arg(1).as_long(), t.arg(2).as_long()
            if {a, b} == {0, 1}:
                return [(0, 1, t, 0, 1)]
        if k in (z3.Z3_OP_MOD, z3.Z3_OP_IDIV) and z3.is_int_value(t.arg(1)):
            c = t.arg(1).as_long()
            if 0 < c < (1 << W) and c & (c - 1) == 0:
                n = c.bit_length() - 1
                s = slices(t.arg(0), W)
                if s is None:
                    return None
                return clip(s, 0, n) if k == z3.Z3_OP_MOD else shift(s, -n)
    return [(0, W, t, 0, W)]


def clip(s, lo, hi):
    out = []
    for p, n, t, q, aw in s:
        a, b = max(p, lo), min(p + n, hi)
        if a < b:
            out.append((a, b - a, t, q + a - p, aw))
    return out


def shift(s, d):
    if d < 0:
        s = clip(s, -d, 1 << 30)
    return [(p + d, n, t, q, aw) for p, n, t, q, aw in s]


ONE = z3.IntVal(1)


def slices(e, w):
    """[(pos, len, atom, atom position, atom width)], sorted and disjoint, within w bits; None if not of that form"""
    if w > W:
        return None
    p = poly(e)
    out = []
    c = p[0]
    if c < 0 or c >> w:
        return None
    if c == 0 and len(p[1]) == 1:
        c, t = list(p[1].values())[0]
        s = atom(t) if c == 1 else None
        if s is not None and len(s) == 1 and s[0][3] == 0 and s[0][2].eq(t):
            return [(0, min(w, s[0][1]), t, 0, min(w, s[0][4]))]   # a w-bit value as it is
        c = 0
    for c, t in [(c, None)] + list(p[1].values()):
        if c < 0:
            return None
        if t is None:
            s = None
        else:
            s = atom(t)
            if s is None:
                return None
        i = 0
        while c >> i:
            if (c >> i) & 1:
                if t is None:
                    out.append((i, 1, ONE, 0, 1))
                else:
                    out += shift(s, i)
            i += 1
    out.sort(key=lambda x: x[0])
    end = 0
    for p_, n, t, q, aw in out:
        if p_ < end:
            return None
        end = p_ + n
    if end > w:
        return None
    return merge(out)


def merge(s):
    out = []
    for p, n, t, q, aw in s:
        if out:
            p0, n0, t0, q0, aw0 = out[-1]
            if p0 + n0 == p and t0.eq(t) and q0 + n0 == q and aw == aw0:
                out[-1] = (p0, n0 + n, t0, q0, aw0)
                continue
        out.append((p, n, t, q, aw))
    return out


def build(s):
    e = 0
    for p, n, t, q, aw in merge(sorted(s, key=lambda x: x[0])):
        if t is ONE or z3.is_int_value(t):
            f = 1
        else:
            f = t if q == 0 else t / (1 << q)
            if q + n < aw:
                f = f % (1 << n)
        e = e + f * (1 << p)
    return norm(e) if z3.is_expr(e) else e


def band(e, mask, w):
    s = slices(e, w)
    if s is None:
        return None
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            out += clip(s, i, j)
            i = j
        else:
            i += 1
    return build(out)


def bor(a, b, w):
    x, y = slices(a, w), slices(b, w)
    if x is None or y is None:
        return None
    s = sorted(x + y, key=lambda v: v[0])
    end = 0
    for p, n, t, q, aw in s:
        if p < end:
            return None
        end = p + n
    return build(s)


def field(e, lo, n, w=64):
    """bits lo..lo+n of the word e"""
    if is_c(e):
        return (e >> lo) % (1 << n)
    s = slices(e, w)
    if s is None:
        e = e / (1 << lo) if lo else e
        return e % (1 << n) if lo + n < w else e
    return build(shift(clip(s, lo, lo + n), -lo))

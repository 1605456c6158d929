"""contract objects for the bit streams (proved against the real classes in C03): a stream of (width, value) items.

Reading with the widths that were written, in the same order, returns the values (C03 bit_writer/bit_reader: the bits are
appended / taken in order, nothing else moves).  Items may also be runs of unknown length, introduced by loop contracts:
  ("rep", n, v, count)      count times the same n-bit value
  ("chars", S, i, count)    the 8-bit codes of S[i], S[i+1], ...
"""
class GhostBits:
    def __init__(m, ctx): m.ctx, m.items, m.pos_, m.sub = ctx, [], 0, 0
    # -- writer
    def bits(m, n, v):
        ctx = m.ctx
        v = v + 0      # a truth value counts as 0 or 1
        ctx.prove("bits(): the value fits its width", ctx.and_(n >= 0, v >= 0, (v >> n) == 0))
        m.items.append(("bits", n, v))
    def bit(m, v): m.bits(1, v)
    def flush(m): m.items.append(("flush",))

class GhostReader:
    def __init__(m, ctx, items): m.ctx, m.items, m.k, m.sub = ctx, list(items), 0, 0
    def bits(m, n):
        ctx = m.ctx
        while True:
            ctx.prove("reader does not run past what was written", m.k < len(m.items))
            it = m.items[m.k]
            if it[0] == "bits":
                ctx.prove("read with the width that was written", it[1] == n)
                m.k += 1; m.sub = 0
                return it[2]
            if it[0] == "rep":
                if m.sub < it[3]:
                    ctx.prove("read with the width that was written", it[1] == n)
                    m.sub = m.sub + 1
                    return it[2]
            elif it[0] == "chars":
                if m.sub < it[3]:
                    ctx.prove("read with the width that was written", n == 8)
                    c = it[1].raw(it[2] + m.sub)
                    m.sub = m.sub + 1
                    return c
            else:
                ctx.prove("reader does not run past what was written", False)
            m.k += 1; m.sub = 0
    def bit(m): return m.bits(1) != 0
    def done(m):
        k, sub = m.k, m.sub
        while k < len(m.items):
            it = m.items[k]
            if it[0] == "flush": k += 1; continue
            if it[0] in ("rep", "chars"):
                if not (sub == it[3]): return False
                k += 1; sub = 0; continue
            return False
        return True

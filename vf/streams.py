"""Recording server streams with scripted fragmentation."""


class Stream:
    """read(n) returns at most the next scripted amount; records every request."""

    def __init__(self, data, sched=(), pad=b''):
        self.data, self.sched, self.pos = data + pad, list(sched), 0
        self.calls = []          # (requested n, position before, returned length)
        self.k = 0

    def read(self, n=-1):
        rest = len(self.data) - self.pos
        want = rest if n is None or n < 0 else min(n, rest)
        if self.sched and want > 0:
            want = max(1, min(want, self.sched[self.k % len(self.sched)]))
            self.k += 1
        out = self.data[self.pos:self.pos + want]
        self.calls.append((n, self.pos, len(out)))
        self.pos += want
        return out

    def readline(self, *a):
        raise AssertionError('readline is not expected')


def problems(st, limit):
    """reads that ask for data beyond `limit`"""
    for n, pos, got in st.calls:
        if n is None or n < 0:
            return f'unbounded read({n}) at offset {pos}'
        if pos + n > limit and n > 0 and pos < limit:
            return f'read({n}) at offset {pos} goes beyond Content-Length {limit}'
        if pos >= limit and n > 0:
            return f'read({n}) at offset {pos}, Content-Length is {limit}'
    return None

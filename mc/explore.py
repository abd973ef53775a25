"""Stateless exhaustive explorer over choice sequences (CHESS style, deviation bounded).

`explore(run, bound)` calls run(chooser) once for every choice sequence whose number of
deviations (choices other than 0) is at most `bound` (None: no bound).  Replaying a prefix must
meet the same choice points; a divergence is a hard error.
"""


class Divergence(Exception):
    pass


class Chooser:
    __slots__ = ("prefix", "trace", "widths", "labels")

    def __init__(self, prefix=()):
        self.prefix = prefix
        self.trace = []
        self.widths = []
        self.labels = []

    def choose(self, n, label=""):
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Divergence(f"choice {c} of {n} at {i} ({label})")
        else:
            c = 0
        self.trace.append(c)
        self.widths.append(n)
        self.labels.append(label)
        return c

    def pick(self, options, label=""):
        return options[self.choose(len(options), label)]


class Stats:
    __slots__ = ("states", "transitions", "traces", "capped")

    def __init__(self):
        self.states = self.transitions = self.traces = self.capped = 0


def explore(run, bound=None, stats=None, max_traces=None):
    """Yields (result, chooser) for every execution."""
    stack = [((), 0)]
    n = 0
    st = stats if stats is not None else Stats()
    st.states += 1  # the initial state
    while stack:
        prefix, dev = stack.pop()
        ch = Chooser(prefix)
        res = run(ch)
        if len(ch.trace) < len(prefix):
            raise Divergence(f"run stopped at {len(ch.trace)} inside prefix {prefix}")
        new = len(ch.trace) - max(0, len(prefix) - 1) if prefix else len(ch.trace)
        st.states += new
        st.transitions += new
        st.traces += 1
        n += 1
        yield res, ch
        if max_traces is not None and n >= max_traces and (stack or len(ch.trace) > len(prefix)):
            st.capped += 1
            return
        alts = []
        for i in range(len(prefix), len(ch.trace)):
            if bound is not None and dev + 1 > bound:
                break
            for a in range(1, ch.widths[i]):
                alts.append((tuple(ch.trace[:i]) + (a,), dev + 1))
        stack.extend(reversed(alts))

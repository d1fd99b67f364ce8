"""Summaries of `fn(&str) -> bool` written as a loop over the characters: the loop is
closed when the state at its head repeats up to the iterator position, so the function
is either "all characters in C" or "some character in C"."""
from engine import *
import models as M
from spec_sm import SMClient, rewrite

TERM = ('symstr', 'probe')


class PredClient(SMClient):
    def __init__(self, prog):
        self.p = prog
        self.live = {}
        self.fail = False
        self.cont, self.early, self.end = [], [], set()
        self.kind = set()
        self.notes = {}

    def attach(self, E):
        self.E = E

    def chars(self, st):
        n = 0
        while st.facts.get(('x', 'morechars', TERM, n)):
            n += 1
        ended = st.facts.get(('x', 'morechars', TERM, n)) is False
        base = ((0, 255),) if 'bytes' in self.kind else M.FULL
        return n, ended, [st.facts.get(('c', M.S('chr', TERM, i)), base) for i in range(n)]

    def loop_head(self, E, st, fr, count):
        self.gc(st)

        def f(v):
            if v[0] == 'IT' and len(v) == 5 and v[1] == 'chars' and v[2] == TERM:
                self.kind.add(v[4])
                return ('IT', 'chars', TERM, 0, v[4])
            return None
        mem = {c: rewrite(v, f) for c, v in st.mem.items()}
        n, ended, cs = self.chars(st)
        hk = ('pred', fr.depth, fr.block)
        if hk not in st.aux:
            if n:
                self.fail = True
                return 'stop'
            st.aux[hk] = mem
            return None
        if n == 1 and not ended and mem == st.aux[hk]:
            self.cont.append(cs[0])
        else:
            self.fail = True
        return 'stop'

    def on_return(self, E, st, v):
        n, ended, cs = self.chars(st)
        if not isinstance(v, bool) or st.taint:
            self.fail = True
        elif n == 0 and ended:
            self.end.add(v)
        elif n == 1 and not ended:
            self.early.append((cs[0], v))
        else:
            self.fail = True

    def signature(self, st):
        return None

    def on_diverge(self, E, st, msg):
        self.on_panic(E, st, msg)

    def on_panic(self, E, st, msg):
        self.fail = True

    def on_undecided(self, E, st, msg):
        self.fail = True


def summarise(prog, models, body, pre):
    c = PredClient(prog)
    E = Engine(prog, M.Models(prog), c)
    E.MAX_STEPS = 20000
    c.attach(E)
    st = St()
    try:
        E.call_body(st, body, list(pre) + [M.S(*TERM)], None, None)
        E.run(st)
    except (Undecided, Fork, PanicExc):
        return None
    vals = {v for _, v in c.early}
    if c.fail or len(c.end) != 1 or len(vals) > 1 or len(c.kind) != 1:
        return None
    end = c.end.pop()
    if vals and end in vals:
        return None
    cont = M.CharSet.norm([x for s in c.cont for x in s])
    ear = M.CharSet.norm([x for s, _ in c.early for x in s])
    try:
        if 'bytes' in c.kind:
            cont, ear = M.bytes_to_chars(cont), M.bytes_to_chars(ear)
    except Undecided:
        return None
    if M.CharSet.inter(cont, ear) or M.CharSet.norm(list(cont) + list(ear)) != M.FULL:
        return None
    return ('all', cont) if end else ('any', ear)

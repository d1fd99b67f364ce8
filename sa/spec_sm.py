"""Product of the documented grammar of derive(StructMeta) with the analysed parser.

The specification is the automaton described in the crate documentation; it reads the
same facts about the abstract token stream as the analysed code.  Loops of the analysed
code are closed at loop heads: specification and code are brought to the same input
position, per-argument symbols are renamed, and states are merged (`join`).
"""
from engine import *
from engine import _setfact
import models as M
from models import KINDS, S, ask, ask_kind, ask_name, single_name, names_at, can_parse, after, value_at, OTHER, strv, str_all
from collections import namedtuple
import re

SNAKE = ((48, 57), (95, 95), (97, 122))
COMMA_T = 'syn::token::Comma'

Spec = namedtuple('Spec', 'ctl pos named_used uidx slots rest err new newrest')
# ctl: REQ i | FIRST | AFTER_ARG | AFTER_COMMA | END | ERR


class Field:
    """one field of the analysed struct, as documented"""
    __slots__ = ('idx', 'mode', 'name', 'kind', 'T', 'opt', 'whole')

    def __init__(self, idx, mode, name, kind, T, opt=False, whole=None):
        # mode: req opt var named rest; kind: bool flag val vec nv nvo na nao nav naov
        self.idx, self.mode, self.name, self.kind, self.T, self.opt, self.whole = idx, mode, name, kind, T, opt, whole or T

    @property
    def styles(self):
        return {'bool': 'F', 'flag': 'F', 'val': 'V', 'vec': 'A', 'nv': 'V', 'nvo': 'FV', 'na': 'A', 'nao': 'FA',
                'nav': 'A', 'naov': 'FA'}[self.kind]


class Witness:
    def __init__(self, id, path, fields, filt=False, near=(), idlen=0):
        self.id, self.path, self.fields, self.filt, self.near = id, path, fields, filt, near
        self.idlen = idlen
        self.req = [f for f in fields if f.mode == 'req']
        self.optf = [f for f in fields if f.mode == 'opt']
        self.var = [f for f in fields if f.mode == 'var']
        self.named = [f for f in fields if f.mode == 'named']
        rest = [f for f in fields if f.mode == 'rest']
        self.rest = rest[0] if rest else None
        self.by_name = {f.name: f for f in self.named}
        self.no_unnamed = not self.optf and not self.var
        self.may = {s: any(s in f.styles for f in self.named) or (self.rest is not None and s in self.rest.styles)
                    for s in 'FVA'}

    def universe(self):
        return tuple(sorted(set(self.by_name) | set(self.near)))


class Mismatch(Exception):
    def __init__(self, tags, what, key):
        self.tags, self.what, self.key = tags, what, key


def span(p):
    return S('span', p)


ADT_NV = 'structmeta::arg_types::NameValue'
ADT_NA = 'structmeta::arg_types::NameArgs'
ADT_FLAG = 'structmeta::arg_types::Flag'


def list_val(T, pos):
    return S('list', T, COMMA_T, 'term', pos)


def widen(v):
    """collections of values from earlier iterations that the specification does not know"""
    if v[0] in ('VEC', 'MAP') and len(v) == 3 and type(v[2]) is tuple and sum(1 for x in v[2] if mentions(x, ('OLD',))) > 2:
        return ('?', ('widened', v[0]), None)
    return None


def ispos(v):
    if not v or type(v[0]) is not str:
        return False
    t = v[0]
    if t in ('in0', 'L', 'OLD'):
        return len(v) == 1
    if t in ('id', 'pu', 'g', 'in', 'tt'):
        return len(v) == 2 and type(v[1]) is tuple and ispos(v[1])
    if t == 'v':
        return len(v) == 3 and type(v[2]) is tuple and ispos(v[2])
    return False


def parent(p):
    return None if len(p) == 1 else p[-1]


def mentions(v, x):
    if v == x:
        return True
    return type(v) is tuple and any(mentions(y, x) for y in v)


def rewrite(v, f):
    if type(v) is not tuple or not v:
        return v
    r = f(v)
    if r is not None:
        return r
    new = None
    for i, x in enumerate(v):
        if type(x) is tuple:
            y = rewrite(x, f)
            if y is not x:
                if new is None:
                    new = list(v)
                new[i] = y
    return v if new is None else tuple(new)


# ------------------------------------------------------------- specification
def fork_slot(k, statuses):
    def alt(s):
        def m(st):
            set_slot(st, k, s)
        return m
    raise Fork([alt(s) for s in statuses])


def set_slot(st, k, s):
    sl = list(st.spec.slots)
    sl[k] = (s,)
    st.spec = st.spec._replace(slots=tuple(sl))

    def f(v):
        if v[0] == 'G' and v[1] == k:
            for a, x in v[2]:
                if a == s:
                    return rewrite(x, f)
            raise Undecided('slot status')
        return None
    for c, v in list(st.mem.items()):
        n = rewrite(v, f)
        if n is not v:
            st.mem[c] = n


def slot_status(st, sp, k):
    ss = sp.slots[k]
    if len(ss) > 1:
        fork_slot(k, ss)
    return ss[0]


class SpecErr(Exception):
    def __init__(self, reason, detail=None, payload=None):
        self.reason, self.detail, self.payload = reason, detail, payload


class Free(Exception):
    """the specification needs information the code never looked at"""


def known(st, pos):
    """does the analysed code know anything about the token at pos?"""
    return ('k', pos) in st.facts or any(k[0] in ('p', 'n') and k[-1] == pos for k in st.facts)


def lexical(st, sp):
    """properties about the tokens at the place itself"""
    t = ()
    if sp.ctl[0] != 'AFTER_ARG' and st.facts.get(('k', sp.pos)) == frozenset(['COMMA']):
        t += ('S07',)
    if st.facts.get(('k', ('id', sp.pos)), KINDS) <= frozenset(['EQJ', 'EQEQ', 'FATARROW']):
        t += ('S12',)
    return t


class SpecRun:
    def __init__(self, E, W):
        self.E, self.W = E, W

    def start(self):
        W = self.W
        return Spec(('REQ', 0) if W.req else ('FIRST',), ('in0',), False, 0, tuple(('-',) for _ in W.fields), '-', None, (), ())

    def step(self, st, sp):
        """one step of the automaton (an argument or a separator)"""
        W = self.W
        c = sp.ctl
        try:
            if c[0] == 'REQ':
                i = c[1]
                f = W.req[i]
                if i > 0:
                    # separator before the next required argument
                    if c[1:] == (i,) and len(c) == 2:
                        if ask_kind(st, sp.pos, {'END'}):
                            raise SpecErr('missing', f)
                        if not ask_kind(st, sp.pos, {'COMMA'}):
                            raise SpecErr('comma')
                        return sp._replace(ctl=('REQ', i, 1), pos=('pu', sp.pos))
                sp2 = self.value(st, sp, f, f.whole, sp.pos)
                sp2 = self.set(sp2, f, 'U', value_at(f.whole, sp.pos))
                return sp2._replace(ctl=('REQ', i + 1) if i + 1 < len(W.req) else ('AFTER_ARG',))
            if c[0] == 'FIRST' or c[0] == 'AFTER_COMMA':
                if ask_kind(st, sp.pos, {'END'}):
                    return self.finish(st, sp)
                return self.arg(st, sp)
            if c[0] == 'AFTER_ARG':
                if ask_kind(st, sp.pos, {'END'}):
                    return self.finish(st, sp)
                if not ask_kind(st, sp.pos, {'COMMA'}):
                    raise SpecErr('comma')
                return sp._replace(ctl=('AFTER_COMMA',), pos=('pu', sp.pos))
        except SpecErr as e:
            return sp._replace(ctl=('ERR',), err=(e.reason, e.detail.idx if isinstance(e.detail, Field) else e.detail, e.payload, lexical(st, sp)))
        raise AssertionError(c)

    def set(self, sp, f, status, val):
        k = f.idx
        sl = list(sp.slots)
        sl[k] = (status,)
        new = tuple(x for x in sp.new if x[0] != k) + ((k, status, val),)
        return sp._replace(slots=tuple(sl), new=new)

    def value(self, st, sp, f, T, pos):
        if not can_parse(st, T, pos):
            raise SpecErr('value', f, S('perr', T, pos))
        return sp._replace(pos=after(T, pos, st))

    def arg(self, st, sp):
        W, E = self.W, self.E
        p = sp.pos
        if (W.no_unnamed or any(W.may.values())) and ask_kind(st, p, {'IDENT'}) and self.filter_ok(st, p):
            q = ('id', p)
            style = None
            for s, kinds in (('F', ('COMMA', 'END')), ('V', ('EQ', 'EQJ')), ('A', ('PAREN',))):
                if (W.no_unnamed or W.may[s]) and ask_kind(st, q, kinds):
                    style = s
                    break
            if style is not None or W.no_unnamed:
                n = single_name(st, p)
                f = W.by_name.get(n)
                if style is not None:
                    if f is not None and style in f.styles:
                        return self.claim(st, sp, f, style)
                    if W.rest is not None and style in W.rest.styles:
                        return self.claim_rest(st, sp, style)
                if f is not None:
                    raise SpecErr('style', f)
                raise SpecErr('unknown')
        if W.no_unnamed:
            raise SpecErr('toomany')
        if sp.named_used:
            raise SpecErr('order')
        if sp.uidx < len(W.optf):
            f = W.optf[sp.uidx]
            sp2 = self.value(st, sp, f, f.T, p)
            sp2 = self.set(sp2, f, 'U', value_at(f.T, p))
            return sp2._replace(ctl=('AFTER_ARG',), uidx=sp.uidx + 1)
        if W.var:
            f = W.var[0]
            sp2 = self.value(st, sp, f, f.T, p)
            prev = [x for x in sp.new if x[0] == f.idx]
            elems = (prev[0][2] if prev else ()) + (value_at(f.T, p),)
            sp2 = self.set(sp2, f, 'U', elems)
            return sp2._replace(ctl=('AFTER_ARG',))
        raise SpecErr('toomany')

    def filter_ok(self, st, p):
        if not self.W.filt:
            return True
        n = single_name(st, p)
        if n != OTHER:
            return all(any(a <= ord(c) <= b for a, b in SNAKE) for c in n)
        return str_all(self.E, st, ('istr', p), SNAKE)

    def payload(self, st, sp, f, style, p, T):
        """-> (expected inner value, spec with position after the argument)"""
        q = ('id', p)
        k = f.kind
        if style == 'F':
            pos = q
            if k in ('bool', 'flag'):
                return span(p), sp._replace(pos=pos)
            if k == 'nvo':
                return ('A', ADT_NV, 0, (span(p), none())), sp._replace(pos=pos)
            return ('A', ADT_NA, 0, (span(p), none())), sp._replace(pos=pos)
        if style == 'V':
            q2 = ('pu', q)
            if k == 'val':
                sp2 = self.value(st, sp, f, T, q2)
                return value_at(T, q2), sp2
            sp2 = self.value(st, sp, f, T, q2)
            v = value_at(T, q2)
            return ('A', ADT_NV, 0, (span(p), some(v) if k == 'nvo' else v)), sp2
        inn = ('in', q)
        if k in ('vec', 'nav', 'naov'):
            key = ('pl', T, COMMA_T, 'term')
            if ('p', key, inn) not in st.facts and (('k', inn) in st.facts or ('p', T, inn) in st.facts):
                v = self.elements(st, f, T, inn)
            else:
                if not ask(st, 'p', key, inn):
                    raise SpecErr('value', f, S('perr', key, inn))
                v = list_val(T, inn)
        else:
            if not can_parse(st, T, inn):
                raise SpecErr('value', f, S('perr', T, inn))
            v = value_at(T, inn)
        if k in ('nao', 'naov'):
            v = some(v)
        if k != 'vec':
            v = ('A', ADT_NA, 0, (span(p), v))
        return v, sp._replace(pos=('g', q))

    def elements(self, st, f, T, c):
        """the code reads the list value by value"""
        out = ()
        while not ask_kind(st, c, {'END'}):
            if len(out) > 6:
                raise Undecided('long list')
            if not can_parse(st, T, c):
                raise SpecErr('value', f, S('perr', T, c))
            out += (value_at(T, c),)
            c = after(T, c, st)
            if ask_kind(st, c, {'END'}):
                break
            if not ask_kind(st, c, {'COMMA'}):
                raise SpecErr('list comma', f)
            c = ('pu', c)
        return ('VEC', 'empty', out)

    def claim(self, st, sp, f, style):
        p = sp.pos
        if slot_status(st, sp, f.idx) != '-':
            raise SpecErr('dup', f)
        v, sp2 = self.payload(st, sp, f, style, p, f.T)
        sp2 = self.set(sp2, f, style, v)
        return sp2._replace(ctl=('AFTER_ARG',), named_used=True)

    def claim_rest(self, st, sp, style):
        p = sp.pos
        f = self.W.rest
        key = S('istr', p)
        if self.rest_has(st, sp, key):
            raise SpecErr('dup', f)
        v, sp2 = self.payload(st, sp, f, style, p, f.T)
        sp2 = sp2._replace(newrest=sp.newrest + ((key, v),))
        return sp2._replace(ctl=('AFTER_ARG',), named_used=True)

    def rest_has(self, st, sp, key):
        for ek, _ in sp.newrest:
            r = M.deep_eq(self.E, st, ek, key)
            if r is None:
                raise Undecided('rest key')
            if r:
                return True
        if sp.rest == '-':
            return False
        return rest_has_fact(st, key)

    def finish(self, st, sp):
        for f in self.W.fields:
            if f.mode == 'named' and not f.opt and f.kind not in ('bool', 'flag'):
                if slot_status(st, sp, f.idx) == '-':
                    raise SpecErr('missing', f)
        return sp._replace(ctl=('END',))

    def run_to(self, st, sp, pos):
        """bring the specification to input position pos; None if it is never exactly there"""
        n = 0
        while sp.pos != pos:
            if sp.ctl[0] in ('END', 'ERR'):
                return sp
            if any_ancestor(sp.pos, pos):
                return None
            if n and not known(st, sp.pos):
                raise Undecided('the code reads the input differently')
            sp = self.step(st, sp)
            n += 1
            if n > 60:
                raise Undecided('spec run')
        return sp


def own_value_error(v, sp):
    """a repeated argument may also be rejected for its own value"""
    q = ('id', sp.pos)
    return sp.err[0] == 'dup' and type(v) is tuple and v[0] == 'S' and v[1][0] == 'perr' and (v[1][2] == ('pu', q) or mentions(v[1][2], ('in', q)))


def err_place(v):
    """token position an error points at, 'callsite', or None"""
    if type(v) is not tuple or v[0] != 'S':
        return None
    if v[1][0] == 'perr':
        return v[1][2]
    if v[1][0] != 'err' or len(v[1]) != 3:
        return None
    return span_place(v[1][1])


def span_place(s):
    if type(s) is not tuple or s[0] != 'S':
        return None
    t = s[1]
    if t[0] in ('span', 'bufspan', 'pspan', 'ident', 'punct', 'cursor'):
        return t[1]
    if t[0] == 'tok':
        return t[2]
    if t[0] == 'callsite':
        return 'callsite'
    if t[0] == 'spanof':
        return span_place(t[1])
    return None


def err_text(v):
    if type(v) is tuple and v[0] == 'S' and v[1][0] == 'err' and len(v[1]) == 3:
        t = v[1][2]
        if type(t) is tuple and (t[0] == 'str' or t[0] == 'S' and t[1][0] in ('cat', 'istr')):
            return t
    return None


def has_word(text, w):
    for m in re.finditer(re.escape(w), text):
        a, b = text[m.start() - 1:m.start()], text[m.end():m.end() + 1]
        if not (a and (a.isalnum() or a == '_')) and not (b and (b.isalnum() or b == '_')):
            return True
    return False


def any_ancestor(p, target):
    """is target a proper prefix of p (the specification has already moved past it)?"""
    p = parent(p)
    while p is not None:
        if p == target:
            return True
        p = parent(p)
    return False


REPRESENTATIVES = [ord(c) for c in 'qzQZ_xyabcdefghijklmnoprstuvwABC'] + [0x436, 0x65e5] + list(range(48, 58))


def resemble(a, b):
    """one character inserted, removed or replaced, or two neighbours swapped"""
    if len(a) > len(b):
        a, b = b, a
    if len(b) - len(a) > 1:
        return False
    if len(a) < len(b):
        return any(a == b[:i] + b[i + 1:] for i in range(len(b)))
    d = [i for i in range(len(a)) if a[i] != b[i]]
    return len(d) < 2 or len(d) == 2 and d[1] == d[0] + 1 and a[d[0]] == b[d[1]] and a[d[1]] == b[d[0]]


def rest_has_fact(st, key):
    pos = key[1][1] if key[0] == 'S' else None
    if pos is not None:
        n = single_name(st, pos)
        if n != OTHER:
            return ask(st, 'x', 'rhas', n)
        return ask(st, 'x', 'rhasother', pos)
    return ask(st, 'x', 'rhas', key[1])


# ------------------------------------------------------------------- client
class SMClient:
    CAP = 60

    def __init__(self, W, prog):
        self.W = W
        self.p = prog
        self.spec = None
        self.table = {}
        self.results = []          # (kind, tags, key, text)
        self.decided = 0
        self.undecided = 0
        self.und_why = {}
        self.outcomes = {}
        self.notes = {}
        self.joined = 0
        self.live = {}
        self.dom = {}

    def attach(self, E):
        self.E = E
        self.spec = SpecRun(E, self.W)

    def note(self, kind, msg):
        self.notes[(kind, msg)] = self.notes.get((kind, msg), 0) + 1

    def resolve_g(self, E, st, v):
        k = v[1]
        fork_slot(k, [a for a, _ in v[2] if a in st.spec.slots[k]])

    def rest_has(self, E, st, base, key):
        return rest_has_fact(st, key)

    # -------------------------------------------------------------- verdicts
    def violation(self, st, tags, key, text):
        if st.taint:
            self.on_undecided(self.E, st, 'tainted: ' + key)
            return
        self.results.append((tuple(sorted(tags)), key, text, st.aux.get('sites', ())))

    def outcome(self, k):
        self.decided += 1
        self.outcomes[k] = self.outcomes.get(k, 0) + 1

    def on_undecided(self, E, st, msg):
        self.undecided += 1
        self.und_why[msg] = self.und_why.get(msg, 0) + 1

    def on_panic(self, E, st, msg):
        fr = st.frames[-1] if st.frames else None
        if st.taint:
            return self.on_undecided(E, st, 'tainted panic')
        if self.contradicts(st):
            return
        self.results.append((('C05',), 'panic:%s' % (fr.body['path'] if fr else '?'),
                             'reachable panic: %s; %s' % (msg, self.describe(st)), st.aux.get('sites', ())))

    def on_diverge(self, E, st, msg):
        fr = st.frames[-1]
        if st.taint or self.contradicts(st):
            return self.on_undecided(E, st, 'divergence')
        self.results.append((('C06',), 'diverge:%s' % fr.body['path'], 'the parser does not return: %s; %s' % (msg, self.describe(st)), st.aux.get('sites', ())))

    def signature(self, st):
        """everything the rest of the path depends on; None if part of it is abstract"""
        st = st.copy()
        self.gc(st)

        def vague(v):
            return type(v) is tuple and (v[:1] == ('?',) or v[:2] == ('IT', 'sym') or any(vague(x) for x in v))
        if any(vague(v) for v in st.mem.values()):
            return None
        return (tuple((f.body['id'], f.block, f.stmt) for f in st.frames), frozenset(st.mem.items()), frozenset(st.bufs.items()), frozenset(st.facts.items()))

    def contradicts(self, st):
        """is an unlisted identifier spelled like a listed one?"""
        for k, n in st.facts.items():
            if k[0] == 'idlen':
                cs = [st.facts[('c', S('chr', ('istr', k[1]), i))] for i in range(n)]
                if all(len(c) == 1 and c[0][0] == c[0][1] for c in cs) and ''.join(chr(c[0][0]) for c in cs) in st.aux['universe']:
                    return True
        return False

    def on_return(self, E, st, v):
        v = E.res(st, v)
        if type(v) is not tuple or v[0] != 'A' or not v[1].endswith('Result'):
            return self.on_undecided(E, st, 'result shape')
        if v[2] == 0:
            self.check_ok(E, st, v[3][0])
        else:
            self.check_err(E, st, v[3][0])

    def describe(self, st):
        sp = st.spec
        fs = []
        for k, x in sorted(st.facts.items(), key=lambda kv: repr(kv[0])):
            if k[0] == 'k':
                fs.append('%s:%s' % (pp(k[1]), '|'.join(sorted(x)) if len(x) < 5 else '%d kinds' % len(x)))
            elif k[0] == 'n':
                fs.append('%s named %s' % (pp(k[1]), '|'.join(sorted(x))))
            elif k[0] == 'p':
                fs.append('%s %s as %s' % (pp(k[2]), 'parses' if x else 'does not parse', k[1]))
        return 'given=%s; %s' % (','.join('%s=%s' % (self.W.fields[i].name or '#%d' % i, '/'.join(s)) for i, s in enumerate(sp.slots)), '; '.join(fs))

    def check_ok(self, E, st, val):
        sp = st.spec
        n = 0
        while sp.ctl[0] not in ('END', 'ERR'):
            sp = self.spec.step(st, sp)
            n += 1
            if n > 60:
                return self.on_undecided(E, st, 'spec end')
        if sp.ctl[0] == 'ERR':
            r, k, _, lex = sp.err
            tags, what = ERR_TAGS[r]
            tags = set(tags)
            f = self.W.fields[k] if k is not None else None
            if self.W.filt and r in ('unknown', 'style', 'order', 'toomany'):
                tags |= {'S08', 'S09'}
            if f is not None and f.mode == 'rest':
                tags.add('S03')
            if f is not None and f.mode in ('req', 'opt', 'var'):
                tags.add('S06')
            tags |= set(lex)
            self.violation(st, tags, 'accept:%s:%s' % (r, fkey(f)), 'accepts input the specification rejects (%s): %s' % (what, self.describe(st)))
            return
        # compare values
        val = E.res(st, E.strip(st, val))
        if type(val) is not tuple or val[0] != 'A' or len(val[3]) != len(self.W.fields):
            return self.on_undecided(E, st, 'value shape')
        bad = False
        for f in self.W.fields:
            act = val[3][f.idx]
            others = {k for k in gslots(act) if k != f.idx and len(sp.slots[k]) > 1}
            if others:
                k = min(others)
                fork_slot(k, sp.slots[k])
            for status in sp.slots[f.idx]:
                a = self.restrict(act, tuple((status,) if i == f.idx else x for i, x in enumerate(sp.slots)))
                exp = self.expected(st, sp, f, status)
                r, why = self.compare(E, st, exp, a)
                if r == 'ne':
                    bad = True
                    if f.mode == 'rest':
                        status = sp.rest
                        tags = {'S03'}
                    elif f.mode in ('req', 'opt', 'var'):
                        tags = {'S06'}
                    else:
                        tags = {'S04'}
                        if status == '-':
                            tags.add('S02')
                        if f.kind in ('nvo', 'nao', 'naov'):
                            tags.add('S05')
                    if why == 'span':
                        tags.add('S11')
                    if f.kind in ('vec', 'nav', 'naov') and f.mode == 'named':
                        tags.add('S17')
                    self.violation(st, tags, 'value:%s:%s%s' % (fkey(f), status, ':span' if why == 'span' else ''),
                                   'field %s gets %s, expected %s; %s' % (f.name or '#%d' % f.idx, pv(a), pv(exp), self.describe(st)))
                elif r == 'unk':
                    bad = True
                    self.on_undecided(E, st, 'unknown part of field value')
        if not bad:
            self.outcome('accepted')

    def expected(self, st, sp, f, status):
        """expected value of a field at the end"""
        k = f.idx
        if f.mode == 'rest':
            base = 'empty' if sp.rest == '-' else ('restall', k)
            return ('MAP', base, sp.newrest)
        new = [x for x in sp.new if x[0] == k]
        if f.mode == 'var':
            base = 'empty' if status == '-' or (new and not st.aux.get('varall')) else ('all', k)
            return ('VEC', base, new[0][2] if new else ())
        if status == '-':
            inner = None
        elif new:
            inner = new[0][2]
        else:
            inner = self.slot_shape(f, status)
        if f.mode == 'req':
            return inner
        if f.mode == 'opt':
            return none() if inner is None else some(inner)
        if f.opt:
            return none() if inner is None else some(inner)
        if f.kind == 'bool':
            return inner is not None
        if f.kind == 'flag':
            return ('A', ADT_FLAG, 0, (none() if inner is None else some(inner),))
        return inner

    def slot_shape(self, f, status):
        """the renamed expected value of a field that was given in an earlier iteration"""
        k = f.idx
        if f.mode in ('req', 'opt'):
            return S('slot', k, 'val')
        sp = S('slot', k, 'span')
        v = S('slot', k, 'val')
        if f.kind in ('bool', 'flag'):
            return sp
        if status == 'F':
            return ('A', ADT_NV if f.kind == 'nvo' else ADT_NA, 0, (sp, none()))
        if f.kind in ('val', 'vec'):
            return v
        if f.kind in ('nvo', 'nao', 'naov'):
            v = some(v)
        return ('A', ADT_NV if f.kind in ('nv', 'nvo') else ADT_NA, 0, (sp, v))

    def compare(self, E, st, exp, act):
        act = E.res(st, act)
        n = 0
        while is_ref(act) and n < 5:
            act = E.res(st, E.deref_raw(st, act))
            n += 1
        if exp == act:
            return 'eq', None
        if type(act) is tuple and act[0] == '?':
            return 'unk', None
        if isinstance(exp, (bool, int)):
            return ('unk', None) if type(act) is tuple and act[0] != 'A' else ('ne', 'value')
        if exp[0] == 'A':
            if type(act) is not tuple or act[0] != 'A':
                return 'ne', 'value'
            if exp[1].rsplit('::', 1)[-1] != act[1].rsplit('::', 1)[-1] or exp[2] != act[2] or len(exp[3]) != len(act[3]):
                return 'ne', 'value'
            res = 'eq'
            why = None
            for a, b in zip(exp[3], act[3]):
                r, w = self.compare(E, st, a, b)
                if r == 'ne':
                    if w != 'span':
                        return r, w
                    res, why = 'ne', w
                elif r == 'unk' and res == 'eq':
                    res = 'unk'
            return res, why
        if exp[0] == 'VEC':
            if type(act) is tuple and act[0] == 'VEC':
                if act[1] == exp[1] and len(act[2]) == len(exp[2]):
                    for a, b in zip(exp[2], act[2]):
                        r, w = self.compare(E, st, a, b)
                        if r != 'eq':
                            return r, w
                    return 'eq', None
                return 'ne', 'value'
            return 'unk', None
        if exp[0] == 'MAP':
            if type(act) is tuple and act[0] == 'MAP':
                if act[1] != exp[1] or len(act[2]) != len(exp[2]):
                    return 'ne', 'value'
                for (ka, va), (kb, vb) in zip(exp[2], act[2]):
                    if ka != kb:
                        q = M.deep_eq(E, st, ka, kb)
                        if q is None:
                            return 'unk', None
                        if not q:
                            return 'ne', 'value'
                    r, w = self.compare(E, st, va, vb)
                    if r != 'eq':
                        return r, w
                return 'eq', None
            return 'unk', None
        if exp[0] == 'S':
            if type(act) is tuple and act[0] == 'S':
                sp = exp[1][0] == 'span' or (exp[1][0] == 'slot' and exp[1][2] == 'span')
                if act[1][0] in ('collected', 'all-of', 'popped', 'elems', 'rev', 'inserted', 'fld'):
                    return 'unk', None
                return 'ne', 'span' if sp else 'value'
            if type(act) is tuple and act[0] in ('VEC', 'A', 'MAP'):
                return 'ne', 'value'
            return 'unk', None
        return 'unk', None

    def check_err(self, E, st, payload):
        sp = st.spec
        n = 0
        last = None
        lex = set()
        while True:
            if sp.ctl[0] in ('END', 'ERR'):
                break
            if n > 60:
                return self.on_undecided(E, st, 'spec err')
            # is there an input consistent with everything the code looked at that is accepted?
            if sp.ctl[0] != 'REQ' or len(sp.ctl) == 3 or sp.ctl[1] == 0:
                if not known(st, sp.pos) and n > 0:
                    if sp.ctl[0] in ('AFTER_ARG',):
                        break
                    if sp.ctl[0] == 'AFTER_COMMA':
                        break
            elif not known(st, sp.pos) and n > 0:
                break
            if n == 0 and not known(st, sp.pos) and not self.anyfact(st, sp.pos):
                break
            last = sp
            lex |= set(lexical(st, sp))
            sp = self.spec.step(st, sp)
            n += 1
        if sp.ctl[0] == 'ERR':
            if sp.err[2] is not None:
                p = payload
                r = self.payload_ok(E, st, sp.err[2], p)
                if r == 'ne':
                    f = self.W.fields[sp.err[1]] if sp.err[1] is not None else None
                    self.violation(st, {'S10'}, 'error:%s' % fkey(f), 'the error of the value parser is replaced: returns %s; %s' % (pv(p), self.describe(st)))
                    return
                if r == 'unk':
                    return self.on_undecided(E, st, 'unknown error value')
            elif sp.err[0] != 'list comma' and not own_value_error(E.res(st, payload), sp):
                self.check_place(E, st, sp, payload)
                self.check_text(E, st, sp, payload)
            self.outcome('rejected:' + sp.err[0])
            return
        tags = {'S07'} if sp.ctl[0] != 'END' else {'S02', 'S07'}
        what = 'separator'
        g = None
        if last is not None:
            g = self.last_claim(st.spec, sp)
            if g is not None:
                if g.mode == 'rest':
                    tags = {'S03', 'S01'}
                elif g.mode == 'named':
                    tags = {'S04', 'S05', 'S01'}
                    if g.kind in ('vec', 'nav', 'naov', 'na', 'nao'):
                        tags.add('S17')
                else:
                    tags = {'S06', 'S08'}
                if self.W.filt:
                    tags |= {'S08', 'S09'}
                if sp.ctl[0] == 'END':
                    tags.add('S02')
        tags |= lex
        if last is not None and last.ctl[0] == 'AFTER_COMMA':
            tags.add('S07')
        self.violation(st, tags, 'reject:%s:%s' % (fkey(g), sp.ctl[0]),
                       'rejects input the specification accepts (%s): %s; error %s' % (fkey(g), self.describe(st), pv(payload)))

    def check_place(self, E, st, sp, payload):
        """S15: where does the error point?"""
        reason, fi = sp.err[0], sp.err[1]
        loc = err_place(E.res(st, payload))
        if loc is None:
            self.outcomes['place unknown'] = self.outcomes.get('place unknown', 0) + 1
            return
        self.outcomes['place:' + reason] = self.outcomes.get('place:' + reason, 0) + 1
        exp = (sp.pos,)
        if reason == 'missing':
            exp += ('callsite',)
        if loc not in exp:
            f = self.W.fields[fi] if fi is not None else None
            self.violation(st, {'S15'}, 'place:%s:%s' % (reason, fkey(f)),
                           'the error (%s) points at %s instead of %s; %s' % (reason, pp(loc) if loc != 'callsite' else 'the macro call', pp(sp.pos), self.describe(st)))

    def check_text(self, E, st, sp, payload):
        """S16: what does the error say?"""
        reason, fi = sp.err[0], sp.err[1]
        if reason not in ('dup', 'missing', 'style', 'unknown'):
            return
        f = self.W.fields[fi] if fi is not None else None
        if f is not None and reason == 'missing' and f.name is None:
            return
        t = err_text(E.res(st, payload))
        if t is None:
            self.outcomes['text unknown'] = self.outcomes.get('text unknown', 0) + 1
            return
        name = single_name(st, sp.pos) if reason != 'missing' else f.name
        if name == OTHER:
            name = None
        ps = [name if name is not None and type(p) is tuple and p == ('S', ('istr', sp.pos)) else p for p in (t[1][1:] if t[0] == 'S' and t[1][0] == 'cat' else (t[1],) if t[0] == 'str' else (t,))]
        part = any(type(p) is not str and p != ('S', ('istr', sp.pos)) for p in ps)
        text = ''.join(p if type(p) is str else '\0' if p == ('S', ('istr', sp.pos)) else '\1' for p in ps)
        k = 'text:%s' % reason
        n = '\0' if name is None else name
        if st.taint:
            self.outcomes['text unknown'] = self.outcomes.get('text unknown', 0) + 1
            return
        what = None
        if not has_word(text, n):
            if part:
                self.outcomes['text unknown'] = self.outcomes.get('text unknown', 0) + 1
                return
            what = 'does not name the parameter'
        elif reason in ('style', 'unknown') and not part:
            have = set(f.styles) if f is not None else set()
            if self.W.rest is not None:
                have |= set(self.W.rest.styles)
            head = text.split(', found')[0]
            for s, form in (('V', '`%s = ...`' % n), ('A', '`%s(...)`' % n), ('F', 'flag `%s`' % n)):
                if (form in head) != (s in have):
                    what = ('does not offer' if s in have else 'offers') + ' the form ' + form.replace('\0', 'NAME')
            if not have:
                said = [w for w in re.findall(r'`(\w+)`', text) if w != n]
                for w in said:
                    if w not in self.W.by_name:
                        what = 'suggests a parameter that does not exist: ' + w
                for x in () if what else self.spellings(st, sp.pos, name):
                    like = [w for w in self.W.by_name if w is not None and resemble(w, x)]
                    for w in said:
                        if w not in like and w != x:
                            what = 'suggests %s, which does not resemble %s' % (w, x)
                    if len(like) == 1 and like[0] not in said:
                        what = 'does not suggest %s, the only parameter that resembles %s' % (like[0], x)
                    if what:
                        break
        elif reason == 'missing' and not part:
            for s, form in (('V', '`%s = ...`' % n), ('A', '`%s(...)`' % n), ('F', '`%s`' % n)):
                if form in text and s not in f.styles:
                    what = 'asks for the form %s, which the parameter does not have' % form
        k += ' (in part)' if part else ''
        self.outcomes[k] = self.outcomes.get(k, 0) + 1
        if what:
            self.violation(st, {'S16'}, 'text:%s:%s' % (reason, fkey(f)),
                           'the message of the error (%s) %s: "%s"; %s' % (reason, what, text.replace('\0', 'NAME').replace('\1', '..'), self.describe(st)))

    def spellings(self, st, pos, name):
        """spellings of the identifier at pos for which the path is taken: one, or those that differ from a parameter by one edit, and one more"""
        if name is not None:
            return [name]
        n = st.facts.get(('idlen', pos))
        if n is None or any(mentions(k, ('istr', pos)) for k in st.facts if k[0] != 'c'):
            return []
        cs = [st.facts[('c', S('chr', ('istr', pos), i))] for i in range(n)]
        reps = [[chr(c) for c in REPRESENTATIVES if any(a <= c <= b for a, b in cs[i])] for i in range(n)]
        if not all(reps):
            return []
        one = ''.join(r[0] for r in reps)
        out = [one]
        for w in self.W.by_name:
            if w is None or abs(len(w) - n) > 1:
                continue
            near = [w[:i] + w[i + 1:] for i in range(len(w))] + [w[:i] + w[i + 1] + w[i] + w[i + 2:] for i in range(len(w) - 1)]
            for i in range(n):
                near += [w[:i] + r + w[i + 1:] for r in reps[i][:2]] + [w[:i] + r + w[i:] for r in reps[i][:2]]
            out += [x for x in near if len(x) == n and all(any(a <= ord(x[i]) <= b for a, b in cs[i]) for i in range(n))]
        return [x for x in dict.fromkeys(out) if x not in self.W.by_name and x not in st.aux['universe']]

    def anyfact(self, st, pos):
        return any(mentions(k, pos) for k in st.facts)

    def last_claim(self, a, b):
        if b.newrest != a.newrest:
            return self.W.rest
        old = {x[0]: x[2] for x in a.new}
        r = None
        for k, s, v in b.new:
            if old.get(k) != v:
                r = self.W.fields[k]
        return r

    def payload_ok(self, E, st, exp, act):
        act = E.res(st, act)
        if act == exp:
            return 'eq'
        if type(act) is tuple and act[0] == 'S':
            return 'ne' if act[1][0] in ('err', 'perr') else 'unk'
        return 'unk'

    # ------------------------------------------------------------ loop heads
    def loop_head(self, E, st, fr, count):
        cur = st.bufs.get(0)
        hk = ('hp', fr.depth, fr.block)
        prev = st.aux.get(hk)
        if prev is None:
            st.aux[hk] = cur
            return None
        if prev == cur:
            inner = tuple(sorted((b, p) for b, p in st.bufs.items() if b))
            ik = ('hi', fr.depth, fr.block)
            if st.aux.get(ik, inner) != inner and count > 3:
                raise Undecided('loop over a group')
            st.aux[ik] = inner
            return None
        if prev != ('OLD',) and not mentions(cur, prev):
            raise Undecided('the input moves backwards')
        sp = st.spec
        if sp.ctl[0] != 'ERR':
            sp = self.spec.run_to(st, sp, cur)
            if sp is None:
                return None
        # ---- nothing below raises Fork
        return self.sync(E, st, fr, sp, cur)

    def sync(self, E, st, fr, sp, cur):
        W = self.W
        # 1. forget everything that is not live
        self.gc(st)
        # 2. expected new values -> slot symbols
        leaf = {}
        vecs, maps = {}, {}
        for k, status, v in sp.new:
            f = W.fields[k]
            if f.mode == 'var':
                base = ('all', k) if st.aux.get('varall') else 'empty'
                vecs[('VEC', base, v)] = ('VEC', ('all', k), ())
                continue
            for a, b in zip_shape(v, self.slot_shape(f, status)):
                if a == ('VEC', 'empty', ()):
                    raise Undecided('empty list read value by value')
                leaf[a] = b
        if sp.newrest:
            k = W.rest.idx
            base = ('restall', k) if sp.rest != '-' else 'empty'
            maps[('MAP', base, sp.newrest)] = ('MAP', ('restall', k), ())

        def f1(v):
            if v in leaf:
                return leaf[v]
            if v[0] == 'VEC' and v in vecs:
                return vecs[v]
            if v[0] == 'MAP' and v in maps:
                return maps[v]
            return None

        def ren(v):
            if v == cur:
                return ('L',)
            if ispos(v):
                if v == ('OLD',):
                    return v
                if mentions(v, cur):
                    return None
                return ('OLD',)
            return None
        mem = {}
        for c, v in st.mem.items():
            mem[c] = rewrite(rewrite(rewrite(v, f1), ren), widen)
        bufs = {b: rewrite(p, ren) for b, p in st.bufs.items()}
        facts = {}
        for k, v in st.facts.items():
            if k[0] in ('k', 'n', 'p', 'xname') and mentions(k, cur):
                facts[rewrite(k, ren)] = v
        if any(x[0] in [f.idx for f in W.var] for x in sp.new):
            st.aux['varall'] = True
        rest = 'all' if (sp.newrest or sp.rest != '-') else '-'
        err = sp.err
        if err is not None:
            err = (err[0], err[1], None if err[2] is None else ('perr', 'OLD'), err[3])
        sp2 = sp._replace(pos=('L',), new=(), newrest=(), rest=rest, err=err)
        st.mem, st.bufs, st.facts, st.spec = mem, bufs, facts, sp2
        aux = {}
        for k, v in st.aux.items():
            if k[0] == 'hi':
                continue
            if k[0] == 'hp':
                if k[1] > fr.depth or (k[1] == fr.depth and k[2] != fr.block and self.dominates(fr.body, fr.block, k[2])):
                    continue
                aux[k] = rewrite(v, ren)
            else:
                aux[k] = v
        aux[('hp', fr.depth, fr.block)] = ('L',)
        st.aux = aux
        st.visits = {k: v for k, v in st.visits.items() if k[0] < fr.depth}
        self.canon(st)
        key = (tuple((f.body['id'], f.block, f.stmt) for f in st.frames), sp2.ctl, sp2.named_used, sp2.uidx, sp2.rest, sp2.err,
               bool(st.aux.get('varall')), frozenset(facts.items()), st.taint > 0, frozenset(bufs.items()),
               tuple(sp2.slots[f.idx] for f in W.fields if f.mode != 'named'))
        bucket = self.table.setdefault(key, [])
        for e in bucket:
            if self.subsumed(e, st):
                return 'stop'
        for i, e in enumerate(bucket):
            j = self.join(e, st, len(bucket) >= 4)
            if j is not None:
                self.joined += 1
                st.spec = st.spec._replace(slots=j[0])
                st.mem = j[1]
                bucket[i] = (j[0], dict(j[1]))
                return None
        if sp2.ctl[0] in ('ERR', 'END') and len(bucket) >= 2:
            raise Undecided('already past a specified error')
        bucket.append((st.spec.slots, dict(st.mem)))
        if len(bucket) > self.CAP:
            raise Undecided('too many loop states')
        return None

    def dominates(self, body, a, b):
        k = (body['id'], a)
        if k not in self.dom:
            seen, work = {a, 0}, [0] if a else []
            while work:
                for x in succs(body['blocks'][work.pop()]):
                    if x not in seen:
                        seen.add(x)
                        if body['blocks'][x] is not None:
                            work.append(x)
            self.dom[k] = seen if a else set()
        return b not in self.dom[k]

    def gc(self, st):
        roots = []
        for i, f in enumerate(st.frames):
            if i == len(st.frames) - 1:
                live = self.live_in(f.body)[f.block]
            else:
                nf = st.frames[i + 1]
                if nf.to is None:
                    live = set()
                else:
                    live = self.live_in(f.body)[nf.to]
            roots += [(f.depth, l) for l in live]
            if f.dest is not None and f.dest[0] == 'R':
                roots.append(f.dest[1])
        seen = set()
        work = [r for r in roots if r in st.mem]
        while work:
            c = work.pop()
            if c in seen:
                continue
            seen.add(c)
            refs(st.mem[c], work, st.mem)
        st.mem = {c: v for c, v in st.mem.items() if c in seen}
        used = {0}
        for v in st.mem.values():
            bufs_in(v, used)
        st.bufs = {b: p for b, p in st.bufs.items() if b in used}

    def live_in(self, body):
        k = body['id']
        if k in self.live:
            return self.live[k]
        n = len(body['blocks'])
        live = [set() for _ in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                bl = body['blocks'][b]
                if bl is None:
                    continue
                s = set()
                for x in succs(bl):
                    s |= live[x]
                s = block_live(bl, s)
                if s != live[b]:
                    live[b] = s
                    changed = True
        self.live[k] = live
        return live

    def canon(self, st):
        m = {}
        order = sorted(k for k in st.mem if k[0] >= 0)

        def f(v):
            if v[0] == 'R' and v[1][0] == -1 and len(v) == 4:
                if v[1] not in m:
                    m[v[1]] = (-1, ('c', len(m)))
                    if v[1] in st.mem:
                        rewrite(st.mem[v[1]], f)
                return ('R', m[v[1]], v[2], v[3])
            if v[0] == '?' and len(v) == 3 and isinstance(v[1], int):
                if v not in m:
                    m[v] = ('?', ('c', len(m)), v[2])
                return m[v]
            return None
        mem = {}
        for k in order:
            mem[k] = rewrite(st.mem[k], f)
        for k in [k for k in st.mem if k[0] == -1]:
            if k in m:
                mem[m[k]] = rewrite(st.mem[k], f)
        st.mem = mem

    # --------------------------------------------------------------- merging
    def restrict(self, v, slots):
        def f(x):
            if x[0] == 'G':
                ss = slots[x[1]]
                al = tuple((a, rewrite(y, f)) for a, y in x[2] if a in ss)
                if len(al) == 1 and len(ss) == 1:
                    return al[0][1]
                return ('G', x[1], al)
            return None
        return rewrite(v, f)

    def subsumed(self, e, st):
        es, em = e
        ns = st.spec.slots
        for a, b in zip(ns, es):
            if not set(a) <= set(b):
                return False
        if set(em) != set(st.mem):
            return False
        for c, v in st.mem.items():
            w = em[c]
            if v != w and v != self.restrict(w, ns):
                if not self.covers(self.restrict(w, ns), v):
                    return False
        return True

    def covers(self, w, v):
        if w == v:
            return True
        if type(w) is tuple and w[0] == 'ge':
            if isinstance(v, int) and not isinstance(v, bool):
                return v >= w[1]
            return type(v) is tuple and v[0] == 'ge' and v[1] >= w[1]
        if type(w) is tuple and type(v) is tuple and len(w) == len(v) and w[0] == v[0] and w[0] in ('A', 't', 'arr', 'C'):
            return all((self.covers(a, b) if type(a) is tuple or type(b) is tuple else a == b) for a, b in zip(w, v))
        if type(w) is tuple and type(v) is tuple and len(w) == len(v) and (not w or type(w[0]) is not str):
            return all(self.covers(a, b) for a, b in zip(w, v))
        return False

    def join(self, e, st, big):
        es, em = e
        ns = st.spec.slots
        if set(em) != set(st.mem):
            return None
        diff = [k for k in range(len(ns)) if set(ns[k]) != set(es[k])]
        disj = [k for k in diff if not set(ns[k]) & set(es[k])]
        out = {}

        def jv(a, b):
            if a == b:
                return a
            ga = type(a) is tuple and a and a[0] == 'G'
            gb = type(b) is tuple and b and b[0] == 'G'
            if ga or gb:
                k = a[1] if ga else b[1]
                al = {}
                for x, ss, isg in ((a, es, ga), (b, ns, gb)):
                    if isg and x[1] == k:
                        items = x[2]
                    else:
                        items = tuple((s, x) for s in ss[k])
                    for s, y in items:
                        if s in al and al[s] != y:
                            al[s] = jv(al[s], y)
                        else:
                            al[s] = y
                return ('G', k, tuple(sorted(al.items(), key=lambda t: t[0])))
            if type(a) is tuple and type(b) is tuple and len(a) == len(b) and a and b and a[0] == b[0] and a[0] in ('A', 't', 'arr', 'C', 'IT') \
                    and (a[0] != 'A' or a[1:3] == b[1:3]):
                if a[0] == 'A':
                    return ('A', a[1], a[2], tuple(jv(x, y) for x, y in zip(a[3], b[3])))
                if a[0] in ('t', 'arr') and len(a[1]) == len(b[1]):
                    return (a[0], tuple(jv(x, y) for x, y in zip(a[1], b[1])))
                if a[0] == 'C' and a[1] == b[1]:
                    return ('C', a[1], tuple(jv(x, y) for x, y in zip(a[2], b[2])))
            if big and isint(a) and isint(b):
                return ('ge', min(lo(a), lo(b)))
            cands = disj
            if len(cands) != 1:
                ment = slots_in(a) | slots_in(b)
                cands = [k for k in disj if k in ment]
            if len(cands) != 1:
                raise KeyError
            k = cands[0]
            al = {s: a for s in es[k]}
            al.update({s: b for s in ns[k]})
            return ('G', k, tuple(sorted(al.items(), key=lambda t: t[0])))
        try:
            for c, v in st.mem.items():
                out[c] = jv(em[c], v)
        except KeyError:
            return None
        slots = tuple(tuple(sorted(set(a) | set(b))) for a, b in zip(es, ns))
        return slots, out


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (type(v) is tuple and v and v[0] == 'ge')


def lo(v):
    return v if isinstance(v, int) else v[1]


def gslots(v, acc=None):
    acc = set() if acc is None else acc
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'G':
            acc.add(v[1])
        for x in v:
            gslots(x, acc)
    return acc


def slots_in(v, acc=None):
    acc = set() if acc is None else acc
    if type(v) is tuple:
        if len(v) == 3 and v[0] == 'slot':
            acc.add(v[1])
        for x in v:
            slots_in(x, acc)
    return acc


def refs(v, work, mem):
    if type(v) is tuple:
        if v and v[0] == 'R' and len(v) == 4:
            if v[1] in mem:
                work.append(v[1])
            for e in v[2]:
                if e[0] == 'i' and isinstance(e[1], tuple) and e[1] in mem:
                    work.append(e[1])
            return
        for x in v:
            if type(x) is tuple:
                refs(x, work, mem)


def bufs_in(v, acc):
    if type(v) is tuple:
        if len(v) == 2 and v[0] == 'B':
            acc.add(v[1])
            return
        for x in v:
            if type(x) is tuple:
                bufs_in(x, acc)


def place_uses(pl, s):
    s.add(pl[0])
    for e in pl[1]:
        if e[0] == 'i':
            s.add(e[1])


def op_uses(o, s):
    p = o.get('c') or o.get('m')
    if p:
        place_uses(p, s)


def rv_uses(rv, s):
    for k in ('o', 'a', 'b'):
        x = rv.get(k)
        if isinstance(x, dict):
            op_uses(x, s)
        elif isinstance(x, list):
            for y in x:
                op_uses(y, s)
    if isinstance(rv.get('p'), list):
        place_uses(rv['p'], s)


def block_live(bl, out):
    s = set(out)
    t = bl['t']
    if t['t'] == 'call':
        if not t['d'][1]:
            s.discard(t['d'][0])
        else:
            place_uses(t['d'], s)
        op_uses(t['f'], s)
        for a in t['a']:
            op_uses(a, s)
    elif t['t'] in ('switch', 'assert'):
        op_uses(t['o'], s)
    elif t['t'] == 'return':
        s.add(0)
    for pl, rv in reversed(bl['s']):
        if rv is None:
            s.discard(pl)
            continue
        if not pl[1]:
            s.discard(pl[0])
        else:
            place_uses(pl, s)
        rv_uses(rv, s)
    return s


def zip_shape(v, shape):
    """pairs (symbol, slot symbol) of two values of the same shape"""
    if v == shape:
        return
    if shape[0] == 'S':
        yield v, shape
        return
    if v[0] == 'A' and shape[0] == 'A':
        for a, b in zip(v[3], shape[3]):
            yield from zip_shape(a, b)


def fkey(f):
    if f is None:
        return '-'
    return '%s%s/%s%s' % (f.mode, '' if f.mode != 'named' else '', f.kind, '?' if f.opt else '')


def pp(p):
    if p == ('in0',):
        return 'start'
    if p == ('L',):
        return 'here'
    if p[0] == 'v':
        return pp(p[2]) + '+' + str(p[1] if isinstance(p[1], str) else 'list').rsplit('::', 1)[-1]
    if len(p) == 1:
        return p[0]
    return pp(p[1]) + '+' + p[0] if ispos(p) else repr(p)


def pv(v):
    if type(v) is tuple:
        if v[0] == 'A':
            n = v[1].rsplit('::', 1)[-1]
            if n == 'Option':
                return 'None' if v[2] == 0 else 'Some(%s)' % pv(v[3][0])
            return '%s(%s)' % (n, ', '.join(pv(x) for x in v[3]) if type(v[3]) is tuple else '..')
        if v[0] == 'S':
            t = v[1]
            return '<%s>' % ' '.join(pp(x) if type(x) is tuple and ispos(x) else str(x) for x in t)
        if v[0] == '?':
            return '<unknown>'
        if v[0] == 'G':
            return 'G%d{%s}' % (v[1], ', '.join('%s: %s' % (a, pv(x)) for a, x in v[2]))
        if v[0] == 'VEC':
            return 'vec[%s; %s]' % (v[1], ', '.join(pv(x) for x in v[2]))
        if v[0] == 'MAP':
            return 'map[%s; %s]' % (v[1], ', '.join('%s: %s' % (pv(k), pv(x)) for k, x in v[2]))
    return repr(v)


ERR_TAGS = {
    'dup': ({'S01'}, 'parameter given twice'),
    'missing': ({'S02'}, 'required parameter missing'),
    'unknown': ({'S03'}, 'unknown name'),
    'style': ({'S05', 'S03'}, 'wrong argument style'),
    'order': ({'S06'}, 'unnamed parameter after named parameter'),
    'toomany': ({'S06', 'S03'}, 'too many unnamed parameters'),
    'comma': ({'S07'}, 'missing separator'),
    'list comma': ({'S17', 'S07'}, 'missing separator in a parenthesised list'),
    'value': ({'S10', 'S04'}, 'value cannot be parsed'),
}


def find_body(prog, W):
    """the `Parse` implementation of the witness (whatever its generic parameters)"""
    r = re.compile(re.escape(W.path) + r'(<.*>)? as syn::parse::Parse>::parse$')
    bs = [b for p, bs in prog.by_path.items() if p.startswith(W.path) and r.match(p) for b in bs]
    return bs[0] if bs else None


def analyse(prog, W, body, max_steps=900000):
    c = SMClient(W, prog)
    E = Engine(prog, M.Models(prog), c)
    E.MAX_STEPS = max_steps
    c.attach(E)
    st = St()
    st.bufs[0] = ('in0',)
    st.aux['universe'] = W.universe()
    if W.idlen:
        st.aux['idlen'] = W.idlen
        E.SNAP_STEPS = 40000
    st.spec = c.spec.start()
    st.sync = ('in0',)
    E.call_body(st, body, [('V', ('B', 0))], None, None)
    try:
        E.run(st)
    except Undecided as e:
        c.on_undecided(E, st, 'aborted: %s' % e)
    return c, E

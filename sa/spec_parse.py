"""derive(Parse): the documented layout of fields, delimiters and enum alternatives,
compared with the analysed parser on the same facts about the input."""
import re
from engine import *
import models as M
from models import S, ask, ask_kind, can_parse, after, value_at, peek
from spec_sm import SMClient, pp, pv, ispos

OPEN = {'(': 'PAREN', '[': 'BRACKET', '{': 'BRACE'}
CLOSE = {')': 'PAREN', ']': 'BRACKET', '}': 'BRACE'}
TOK = {'PAREN': 'Paren', 'BRACKET': 'Bracket', 'BRACE': 'Brace'}
MACRO_DELIM = 'syn::mac::MacroDelimiter'


SPELLINGS = 6


def spell(n, tt, flags):
    """the attributes of a field in the n-th of the ways in which they may be written"""
    lit = (lambda c: 'r"%s"' % c) if n & 1 else (lambda c: '"%s"' % c)
    if n == 0:      # one literal per delimiter
        a = ['#[to_tokens(%s)]' % ', '.join('"%s"' % c for c in tt)] if tt else []
        b = ['#[parse(%s)]' % ', '.join(flags[::-1])] if flags else []
    elif n == 1:    # one attribute per delimiter and per mark, others between them
        a = ['#[to_tokens(%s)] #[allow(unused)]' % lit(c) for c in tt]
        b = ['#[doc = "any"] #[parse(%s)]' % f for f in flags]
    elif n == 2:    # the marks first, trailing commas
        b = ['#[to_tokens(%s,)]' % ', '.join(lit(c) for c in tt)] if tt else []
        a = ['#[parse(%s,)]' % f for f in flags[::-1]]
    elif n == 3:    # a mark between the delimiters, marks repeated
        a = ['#[to_tokens(%s)]' % lit(c) for c in tt[:1]] + ['#[parse(%s)]' % ', '.join([f, f]) for f in flags]
        b = ['#[to_tokens(%s)]' % ', '.join(lit(c) for c in tt[1:])] if tt[1:] else []
    elif n == 4:    # empty attributes and literals
        a = ['#[to_tokens()] #[parse()] #[to_tokens("", "%s", "")] #[to_tokens()]' % tt] if tt else ['#[to_tokens()] #[to_tokens("")]']
        b = ['#[parse(%s)] #[parse()]' % ', '.join(flags)] if flags else ['#[parse()]']
    else:           # conditional attributes
        a = ['#[cfg_attr(all(), to_tokens(%s))]' % lit(tt)] if tt else []
        b = ['#[cfg_attr(all(), parse(%s), doc = "")]' % ', '.join(flags)] if flags else []
    return ' '.join(a + b) + ' '


class PF:
    """field: type text, rendered type, delimiters given in `to_tokens`, `parse` flags"""

    def __init__(self, ty, T, tt=None, peek=False, any=False, term=None, name=None, attr=None, pk=None):
        self.ty, self.T, self.tt, self.peek, self.any, self.term, self.name = ty, T, tt or '', peek, any, term, name
        self.attr, self.pk = attr, pk
        self.sp = None

    def text(self):
        if self.attr is not None:
            a = self.attr
        else:
            fl = [x for x, on in (('any', self.any), ('terminated', self.term), ('peek', self.peek)) if on]
            if self.sp is not None:
                a = spell(self.sp, self.tt, fl)
            else:
                a = ('#[to_tokens("%s")] ' % self.tt if self.tt else '') + ('#[parse(%s)] ' % ', '.join(fl) if fl else '')
        return a + ('%s: ' % self.name if self.name else '') + self.ty

    @property
    def is_delim(self):
        return any(c in OPEN for c in self.tt)


class Variant:
    def __init__(self, name, fields, shape):
        self.name, self.fields, self.shape = name, fields, shape
        self.peeks = []
        depth = 0
        for f in fields:
            root = depth == 0
            for c in f.tt:
                depth += 1 if c in OPEN else -1
                if depth == 0:
                    root = True
            if f.peek and root:
                self.peeks.append(f)
            elif root:
                break

    def text(self):
        fs = ', '.join(f.text() for f in self.fields)
        return {'unit': self.name, 'tuple': '%s(%s)' % (self.name, fs), 'named': '%s { %s }' % (self.name, fs)}[self.shape]


class Fail(Exception):
    def __init__(self, reason, f, payload):
        self.reason, self.f, self.payload = reason, f, payload


def run_fields(st, fields, pos):
    """-> (values, position after the last field)"""
    scopes = [pos]
    vals = []
    for f in fields:
        v = None
        for c in f.tt:
            if c in CLOSE:
                scopes.pop()
                continue
            p = scopes[-1]
            if f.T == MACRO_DELIM:
                for i, k in enumerate(('PAREN', 'BRACKET', 'BRACE')):
                    if ask_kind(st, p, {k}):
                        break
                else:
                    raise Fail('delim', f, None)
                v = ('A', MACRO_DELIM, ('PAREN', 'BRACE', 'BRACKET').index(k), (S('tok', TOK[k], p),))
            else:
                k = OPEN[c]
                if not ask_kind(st, p, {k}):
                    raise Fail('delim', f, S('perr', k, p))
                v = S('tok', TOK[k], p)
            scopes[-1] = ('g', p)
            scopes.append(('in', p))
        if v is None:
            p = scopes[-1]
            if f.term:
                T, P = f.term
                key = ('pl', T, P, 'term any' if f.any else 'term')
                if not ask(st, 'p', key, p):
                    raise Fail('term', f, S('perr', key, p))
                v = S('plist', T, P, key[3], p)
                scopes[-1] = ('v', key, p)
            elif f.any:
                if not ask_kind(st, p, {'IDENT'}):
                    raise Fail('any', f, S('perr', 'any ident', p))
                v = S('ident', p)
                scopes[-1] = ('id', p)
            else:
                if not can_parse(st, f.T, p):
                    raise Fail('value', f, S('perr', f.T, p))
                v = value_at(f.T, p)
                scopes[-1] = after(f.T, p, st)
        vals.append(v)
    return vals, scopes[0]


class PClient(SMClient):
    def __init__(self, prog, item):
        super().__init__(_NoFields(), prog)
        self.item = item      # list of Variant; struct = one variant with name None

    def attach(self, E):
        self.E = E

    def loop_head(self, E, st, fr, count):
        return None

    def resolve_g(self, E, st, v):
        raise Undecided('G')

    def describe(self, st):
        fs = []
        for k, x in sorted(st.facts.items(), key=lambda kv: repr(kv[0])):
            if k[0] == 'k':
                fs.append('%s:%s' % (pp(k[1]), '|'.join(sorted(x)) if len(x) < 5 else '%d kinds' % len(x)))
            elif k[0] == 'p':
                fs.append('%s %s as %s' % (pp(k[2]), 'parses' if x else 'does not parse', k[1]))
            elif k[:2] == ('x', 'peek'):
                fs.append('%s %s %s' % (pp(k[3]), 'looks like' if x else 'does not look like', k[2]))
        return '; '.join(fs)

    def spec_run(self, st):
        """-> ('ok', variant index, values, pos) | ('err', reason, field, payload or None)"""
        pos = ('in0',)
        it = self.item
        if len(it) == 1 and it[0].name is None:
            try:
                v, p = run_fields(st, it[0].fields, pos)
                return ('ok', 0, v, p)
            except Fail as e:
                return ('err', e.reason, e.f, e.payload)
        last = None
        for i, va in enumerate(it):
            if va.peeks:
                if all(peek(st, f.pk or ('Ident::peek_any' if f.any else f.T.rsplit('::', 1)[-1]), n, pos) for n, f in enumerate(va.peeks)):
                    try:
                        v, p = run_fields(st, va.fields, pos)
                        return ('ok', i, v, p)
                    except Fail as e:
                        return ('err', 'peek', e.f, e.payload)
                continue
            try:
                v, p = run_fields(st, va.fields, pos)
                return ('ok', i, v, p)
            except Fail as e:
                last = e
        return ('err', 'alt', last.f if last else None, None)

    def on_return(self, E, st, v):
        v = E.res(st, v)
        if type(v) is not tuple or v[0] != 'A' or not v[1].endswith('Result'):
            return self.on_undecided(E, st, 'result shape')
        enum = self.item[0].name is not None if self.item else True
        sp = self.spec_run(st)
        if v[2] == 1:
            if sp[0] == 'err':
                if sp[3] is not None:
                    r = self.payload_ok(E, st, sp[3], v[3][0])
                    if r == 'ne':
                        return self.violation(st, {'P06'}, 'error:%s' % fk(sp[2]), 'the error of a field parser is replaced: returns %s; %s' % (pv(v[3][0]), self.describe(st)))
                    if r == 'unk':
                        return self.on_undecided(E, st, 'unknown error value')
                self.outcome('rejected:' + sp[1])
                return
            va = self.item[sp[1]]
            tags = {'P03'} if enum else {'P01'}
            if enum and va.peeks or any(x.peeks for x in self.item):
                tags.add('P04')
            tags |= layout_tags(va.fields)
            return self.violation(st, tags, 'reject:%s' % va.name, 'rejects input the specification accepts%s: %s' % (
                ' (variant %s)' % va.name if enum else '', self.describe(st)))
        val = E.res(st, E.strip(st, v[3][0]))
        if sp[0] == 'err':
            tags = {'delim': {'P02'}, 'value': {'P01', 'P06'}, 'any': {'P05', 'P01'}, 'term': {'P05', 'P01'}, 'peek': {'P04', 'P06'}, 'alt': {'P03'}}[sp[1]]
            if enum:
                tags = tags | {'P03'}
                if any(x.peeks for x in self.item):
                    tags = tags | {'P04'}
            return self.violation(st, tags, 'accept:%s:%s' % (sp[1], fk(sp[2])), 'accepts input the specification rejects: %s' % self.describe(st))
        if type(val) is not tuple or val[0] != 'A' or val[1] == '?':
            return self.on_undecided(E, st, 'value shape')
        va = self.item[sp[1]]
        if enum and val[2] != sp[1]:
            tags = {'P03'} | ({'P04'} if any(x.peeks for x in self.item) else set())
            return self.violation(st, tags, 'variant:%s' % va.name, 'returns variant %s, expected %s: %s' % (
                self.item[val[2]].name, va.name, self.describe(st)))
        bad = False
        for f, e, a in zip(va.fields, sp[2], val[3]):
            r, why = self.compare(E, st, e, a)
            if r == 'ne':
                bad = True
                tags = {'P01'} | layout_tags(va.fields) | ({'P03'} if enum else set())
                self.violation(st, tags, 'value:%s' % fk(f), 'field %s gets %s, expected %s: %s' % (f.name or f.ty, pv(a), pv(e), self.describe(st)))
            elif r == 'unk':
                bad = True
                self.on_undecided(E, st, 'unknown field value')
        end = st.bufs[0]
        if end != sp[3]:
            bad = True
            tags = ({'P03'} if enum else {'P01'}) | layout_tags(va.fields)
            self.violation(st, tags, 'position:%s' % va.name, 'input left at %s, expected %s: %s' % (pp(end), pp(sp[3]), self.describe(st)))
        if not bad:
            self.outcome('accepted')


class _NoFields:
    fields = []
    filt = False


def layout_tags(fields):
    t = set()
    if any(f.tt for f in fields):
        t.add('P02')
    if any(f.any or f.term for f in fields):
        t.add('P05')
    return t


def fk(f):
    return '-' if f is None else (f.name or f.T.rsplit('::', 1)[-1])


def analyse(prog, item, body):
    c = PClient(prog, item)
    E = Engine(prog, M.Models(prog), c)
    E.MAX_STEPS = 300000
    c.attach(E)
    st = St()
    st.bufs[0] = ('in0',)
    E.call_body(st, body, [('V', ('B', 0))], None, None)
    try:
        E.run(st)
    except Undecided as e:
        c.on_undecided(E, st, 'aborted: %s' % e)
    return c, E


# ------------------------------------------------------------------ ToTokens
class TClient(PClient):
    """analysed `to_tokens`: the emitted token tree against the declared layout"""

    def __init__(self, prog, item, vi, vals):
        super().__init__(prog, item)
        self.vi, self.vals = vi, vals

    def on_return(self, E, st, v):
        got = st.mem[(-1, 'out')]
        if type(got) is not tuple or got[0] != 'TS':
            return self.on_undecided(E, st, 'token stream')
        exp = expected_events(self.item[self.vi].fields, self.vals)
        act = norm_events(E, st, got[1])
        if act is None:
            return self.on_undecided(E, st, 'unknown tokens')
        if act == exp:
            self.outcome('emitted')
            return
        fields = self.item[self.vi].fields
        tags = {'T01'}
        if any(f.tt for f in fields):
            tags |= {'T02'}
        self.violation(st, tags, 'tokens:%s' % (self.item[self.vi].name or 'struct'),
                       'emits %s, expected %s' % (show(act), show(exp)))


def expected_events(fields, vals):
    out = [[]]
    stack = []
    for f, v in zip(fields, vals):
        emit = True
        for c in f.tt:
            if c in OPEN:
                stack.append((v, f.T == MACRO_DELIM))
                out.append([])
                emit = False
            else:
                close(out, stack)
        if emit:
            out[-1].append(('emit', v))
    while stack:
        close(out, stack)
    return tuple(out[0])


def close(out, stack):
    v, md = stack.pop()
    inner = tuple(out.pop())
    if md:
        k = ('Paren', 'Brace', 'Bracket')[v[2]]
        out[-1].append(('group', k, v[3][0], inner))
    else:
        out[-1].append(('group', v[1][1], v, inner))


def norm_events(E, st, evs):
    out = []
    for e in evs:
        if e[0] == 'emit':
            x = E.strip(st, e[1])
            if type(x) is tuple and x[0] == '?':
                return None
            out.append(('emit', x))
        elif e[0] == 'group':
            inner = norm_events(E, st, e[3])
            if inner is None:
                return None
            out.append(('group', e[1], E.strip(st, e[2]), inner))
        elif e[0] == 'extend' and type(e[1]) is tuple and e[1][0] == 'TS':
            inner = norm_events(E, st, e[1][1])
            if inner is None:
                return None
            out += list(inner)
        else:
            return None
    return tuple(out)


def show(evs):
    return ' '.join('#%s' % e[1][1][2] if e[0] == 'emit' and e[1][0] == 'S' and e[1][1][0] == 'fld' else
                    '%s%s(%s)' % (e[1], '' if e[2][1][0] in ('fld', 'fldtok') else ' [span: %s]' % e[2][1][0], show(e[3])) if e[0] == 'group' else pv(e[1]) for e in evs)


def field_value(f, i, k):
    """symbolic value of field i; delimiter k (0..2) of a MacroDelimiter"""
    if f.is_delim:
        if f.T == MACRO_DELIM:
            return ('A', MACRO_DELIM, k, (S('fldtok', ('Paren', 'Brace', 'Bracket')[k], i),))
        op = [c for c in f.tt if c in OPEN][0]
        return S('fld', TOK[OPEN[op]], i)
    return S('fld', 'v', i)


def analyse_tt(prog, item, body, adt):
    """one abstract run per variant and kind of macro delimiter"""
    cs = []
    for vi, va in enumerate(item):
        md = any(f.is_delim and f.T == MACRO_DELIM for f in va.fields)
        for k in ((0, 1, 2) if md else (0,)):
            vals = [field_value(f, i, k) for i, f in enumerate(va.fields)]
            c = TClient(prog, item, vi, vals)
            E = Engine(prog, M.Models(prog), c)
            E.MAX_STEPS = 100000
            c.attach(E)
            st = St()
            st.mem[(-1, 'self')] = ('A', adt, vi, tuple(vals))
            st.mem[(-1, 'out')] = ('TS', ())
            E.call_body(st, body, [('R', (-1, 'self'), (), False), ('R', (-1, 'out'), (), True)], None, None)
            try:
                E.run(st)
            except Undecided as e:
                c.on_undecided(E, st, 'aborted: %s' % e)
            cs.append((c, E))
    return cs


def find_body(prog, path, trait):
    r = re.compile(re.escape(path) + r'(<.*>)? as ' + re.escape(trait) + '$')
    bs = [b for p, bs in prog.by_path.items() if p.startswith(path) and r.match(p) for b in bs]
    return bs[0] if bs else None

"""Abstract semantics of the library functions at the boundary of the analysed code:
syn's ParseBuffer API over an abstract token stream, proc_macro2 identifiers, and the
parts of core / alloc that generated code and helpers use.

A position is a term: ('in0',) start of the input, ('L',) the position at a loop head,
('id',p) after an identifier, ('pu',p) after a punctuation token, ('v',T,p) after a value
of type T, ('g',p) after a group, ('in',p) inside a group, ('tt',p) after one token tree.
The facts known about a position are the possible kinds of the next token, the possible
names if it is an identifier, and whether a value of some type can be parsed there.
"""
import re

from engine import *
from engine import _setfact

KINDS = frozenset(['END', 'COMMA', 'EQ', 'EQJ', 'EQEQ', 'FATARROW', 'PUNCT', 'PAREN', 'BRACKET', 'BRACE',
                   'IDENT', 'LIT', 'OTHER'])
EQLIKE = frozenset(['EQ', 'EQJ', 'EQEQ', 'FATARROW'])
PUNCTS = EQLIKE | {'COMMA', 'PUNCT'}
RUST_KW = set('''as break const continue crate dyn else enum extern false fn for if impl in let loop match mod
move mut pub ref return self Self static struct super trait true type unsafe use where while async await abstract
become box do final macro override priv typeof unsized virtual yield try gen _'''.split())

OTHER = '*'


def S(*t):
    return ('S', t)


# ---------------------------------------------------------------- facts
def ask_kind(st, pos, want):
    ks = st.facts.get(('k', pos), KINDS)
    want = frozenset(want)
    i = ks & want
    if not i:
        return False
    if i == ks:
        return True
    o = ks - want
    raise Fork([_setfact(('k', pos), i), _setfact(('k', pos), o)])


def ask(st, *key):
    if key in st.facts:
        return st.facts[key]
    raise Fork([_setfact(key, True), _setfact(key, False)])


def names_at(st, pos):
    n = st.facts.get(('n', pos))
    if n is None:
        n = frozenset(st.aux.get('universe', ())) | {OTHER}
    return n


def ask_name(st, pos, s):
    ns = names_at(st, pos)
    if s in ns:
        if len(ns) == 1:
            return True
        raise Fork([_setfact(('n', pos), frozenset([s])), _setfact(('n', pos), ns - {s})])
    if OTHER not in ns or s in st.aux.get('universe', ()):
        return False
    # a name that is not in the universe: one particular "other" name
    cur = st.facts.get(('xname', pos))
    if cur is not None:
        return cur == s
    if ns != frozenset([OTHER]):
        raise Fork([_setfact(('n', pos), frozenset([OTHER])), _setfact(('n', pos), ns - {OTHER})])
    if ('notname', pos, s) in st.facts:
        return False

    def yes(x):
        x.facts[('xname', pos)] = s
    raise Fork([yes, _setfact(('notname', pos, s), True)])


def single_name(st, pos):
    """the exact name, or OTHER"""
    ns = names_at(st, pos)
    if len(ns) == 1:
        n = next(iter(ns))
        if n == OTHER:
            return st.facts.get(('xname', pos), OTHER)
        return n
    raise Fork([_setfact(('n', pos), frozenset([n])) for n in sorted(ns)])


def ask_keyword(st, pos):
    n = single_name(st, pos)
    if n != OTHER:
        return n in RUST_KW
    return ask(st, 'x', 'kw', pos)


def spelled_len(st, pos):
    """witnesses whose messages are analysed: the number of characters of an unlisted identifier, up to a bound"""
    cap = st.aux.get('idlen')
    if not cap:
        return None
    k = st.facts.get(('idlen', pos))
    if k is not None:
        return k

    def spell(n):
        def f(x):
            x.facts[('idlen', pos)] = n
            for i in range(n):
                x.facts[('c', S('chr', ('istr', pos), i))] = IDCHAR if i else IDSTART
        return f
    raise Fork([spell(n) for n in range(1, cap + 1)])


# characters of identifiers (all of them inside these ranges)
IDSTART = ((65, 90), (95, 95), (97, 122), (0xAA, 0x10FFFF))
IDCHAR = ((35, 35), (48, 57)) + IDSTART       # with the # of raw identifiers


class CharSet:
    """finite union of intervals of code points"""
    @staticmethod
    def norm(iv):
        iv = sorted(iv)
        out = []
        for a, b in iv:
            if a > b:
                continue
            if out and a <= out[-1][1] + 1:
                out[-1] = (out[-1][0], max(out[-1][1], b))
            else:
                out.append((a, b))
        return tuple(out)

    @staticmethod
    def inter(x, y):
        out = []
        for a, b in x:
            for c, d in y:
                lo, hi = max(a, c), min(b, d)
                if lo <= hi:
                    out.append((lo, hi))
        return CharSet.norm(out)

    @staticmethod
    def minus(x, y):
        out = list(x)
        for c, d in y:
            n = []
            for a, b in out:
                if d < a or c > b:
                    n.append((a, b))
                else:
                    if a < c:
                        n.append((a, c - 1))
                    if d < b:
                        n.append((d + 1, b))
            out = n
        return CharSet.norm(out)


MAXCH = 0x10FFFF
FULL = ((0, MAXCH),)
_uni = {}


def uniset(name):
    if name not in _uni:
        f = {'lower': str.islower, 'upper': str.isupper, 'alpha': str.isalpha, 'alnum': str.isalnum, 'num': str.isnumeric}[name]
        iv = []
        for c in range(MAXCH + 1):
            if 0xD800 <= c <= 0xDFFF:
                continue
            if f(chr(c)):
                iv.append((c, c))
        _uni[name] = CharSet.norm(iv)
    return _uni[name]


def ask_char(st, ch, cset):
    """is the symbolic char in cset?"""
    key = ('c', ch)
    cur = st.facts.get(key, st.aux.get('charfull', FULL))
    i = CharSet.inter(cur, cset)
    o = CharSet.minus(cur, cset)
    if not i:
        return False
    if not o:
        return True
    raise Fork([_setfact(key, i), _setfact(key, o)])


# -------------------------------------------------------------- positions
def after(T, pos, st=None):
    if st is not None and T in SINGLE and st.facts.get(('k', pos)) == frozenset(['IDENT']) and \
            st.facts.get(('k', ('id', pos)), KINDS) <= frozenset(['COMMA', 'END']):
        return ('id', pos)      # a lone identifier
    if T in PUNCT_T:
        return ('pu', pos)
    if T == IDENT_T:
        return ('id', pos)
    return ('v', T, pos)


SINGLE = {'syn::expr::Expr', 'syn::ty::Type'}
IDENT_T = 'proc_macro2::Ident'
PUNCT_T = {'syn::token::Comma': frozenset(['COMMA']), 'syn::token::Eq': EQLIKE,
           'syn::token::EqEq': frozenset(['EQEQ']), 'syn::token::FatArrow': frozenset(['FATARROW'])}


# first tokens a value of the type can start with (syn's own types, as documented)
_VAL = frozenset(['PUNCT', 'PAREN', 'BRACKET', 'BRACE', 'IDENT', 'LIT', 'OTHER'])
FIRST = {'syn::lit::LitInt': frozenset(['LIT', 'PUNCT', 'OTHER']), 'syn::lit::LitStr': frozenset(['LIT', 'OTHER']),
         'syn::lit::LitChar': frozenset(['LIT', 'OTHER']), 'syn::lit::LitBool': frozenset(['IDENT', 'OTHER']),
         'syn::expr::Expr': _VAL, 'syn::ty::Type': _VAL - {'LIT', 'BRACE'}}


def can_parse(st, T, pos):
    if T in PUNCT_T:
        return ask_kind(st, pos, PUNCT_T[T])
    if T == IDENT_T:
        return ask_kind(st, pos, {'IDENT'}) and not ask_keyword(st, pos)
    key = ('p', T, pos)
    if key in st.facts:
        return st.facts[key]
    al = FIRST.get(T)
    if al is not None:
        ks = st.facts.get(('k', pos), KINDS)
        if not ks & al:
            return False

        def yes(x):
            x.facts[key] = True
            x.facts[('k', pos)] = ks & al
        raise Fork([yes, _setfact(key, False)])
    return ask(st, *key)


def value_at(T, pos):
    if T == IDENT_T:
        return S('ident', pos)
    return S('val', T, pos)


PEEK_KIND = {'Comma': PUNCT_T['syn::token::Comma'], 'Eq': EQLIKE, 'EqEq': frozenset(['EQEQ']),
             'FatArrow': frozenset(['FATARROW']), 'Paren': frozenset(['PAREN']),
             'Bracket': frozenset(['BRACKET']), 'Brace': frozenset(['BRACE'])}


def peek(st, name, n, pos):
    for _ in range(n):
        pos = ('tt', pos)
    if name in PEEK_KIND:
        return ask_kind(st, pos, PEEK_KIND[name])
    if name == 'Ident::peek_any':
        return ask_kind(st, pos, {'IDENT'})
    if name == 'Ident':
        return ask_kind(st, pos, {'IDENT'}) and not ask_keyword(st, pos)
    if name == 'End':
        return ask_kind(st, pos, {'END'})
    return ask(st, 'x', 'peek', name, pos)


# ---------------------------------------------------------------- models
class Models:
    def __init__(self, prog):
        self.p = prog
        self.table = TABLE
        self.cache = {}
        self.unmodelled = {}
        self.strsummary = {}

    def lookup(self, E, ty):
        d = ty['def']
        k = (d, ty['s'])
        if k in self.cache:
            return self.cache[k]
        f = self.table.get(d)
        if f is not None and getattr(f, 'when', None) and not f.when(self, E, ty):
            f = None
        if f is None and ty.get('rpath') and ty['rpath'] != d:
            f = self.table.get(ty['rpath'])
        self.cache[k] = f
        return f

    def unknown(self, E, st, call):
        """a function without model and without inspectable body"""
        d = call.ty['def']
        self.unmodelled[d] = self.unmodelled.get(d, 0) + 1
        spy(E, st, call)
        for a in call.args:
            if self.reaches_buffer(E, st, a):
                raise Undecided('unmodelled function over the input: ' + d)
        for a in call.args:
            if type(a) is tuple and a[0] == 'R' and a[3]:
                v = E.deref_raw(st, a)
                if type(v) is tuple and v[0] == 'TS':
                    raise Undecided('unmodelled function over tokens: ' + d)
                E.store_ref(st, a, st.fresh(None))
        r = st.fresh(call.dt)
        return r

    def pred_call(self, E, st, body, inst, args):
        """call of an analysed `fn(&str) -> bool` with a loop, on an unknown string: by its summary"""
        if not args or self.p.ts(body['locals'][0]) != 'bool' or not self.p.heads(body):
            return None
        if len(args) != 1 and not (len(args) == 2 and type(E.strip(st, args[0])) is tuple and E.strip(st, args[0])[0] == 'C' and not E.strip(st, args[0])[2]):
            return None
        v = strv(E, st, args[-1])
        if v is None or v[0] != 'S' or v[1][0] != 'istr' or single_name(st, v[1][1]) != OTHER:
            return None
        if inst not in self.strsummary:
            import predsum
            self.strsummary[inst] = None
            self.strsummary[inst] = predsum.summarise(self.p, self, body, args[:-1])
        r = self.strsummary[inst]
        if r is None:
            return None
        if r[0] == 'all':
            return str_all(E, st, v[1], r[1])
        return not str_all(E, st, v[1], CharSet.minus(FULL, r[1]))

    def reaches_buffer(self, E, st, v, depth=0):
        if type(v) is not tuple or depth > 8:
            return False
        if v[0] == 'B':
            return True
        if v[0] in ('R', 'V'):
            try:
                return self.reaches_buffer(E, st, E.deref_raw(st, v), depth + 1)
            except (Undecided, Fork):
                return True
        if v[0] == 'A' and type(v[3]) is tuple:
            return any(self.reaches_buffer(E, st, x, depth + 1) for x in v[3])
        if v[0] in ('t', 'arr'):
            return any(self.reaches_buffer(E, st, x, depth + 1) for x in v[1])
        if v[0] == 'C':
            return any(self.reaches_buffer(E, st, x, depth + 1) for x in v[2])
        if v[0] == 'S' and v[1] and v[1][0] == 'cursor':
            return True
        return False

    def on_drop(self, E, st, fr, t):
        pass

    def length(self, E, st, a):
        v = E.strip(st, a)
        if type(v) is tuple:
            if v[0] == 'arr':
                return len(v[1])
            if v[0] == 'VEC':
                if v[1] == 'empty':
                    return len(v[2])
                return ('ge', max(1, len(v[2])))
            if v[0] == 'str':
                return len(v[1].encode())
            if v[0] == 'S' and v[1][0] == 'istr':
                n = single_name(st, v[1][1])
                if n != OTHER:
                    return len(n.encode())
                k = spelled_len(st, v[1][1])
                if k is not None:
                    return sum(1 if ask_char(st, S('chr', v[1], i), ((0, 127),)) else 2 if ask_char(st, S('chr', v[1], i), ((128, 2047),)) else 3
                               if ask_char(st, S('chr', v[1], i), ((2048, 65535),)) else 4 for i in range(k))
                return S('ilen', v[1][1])
            if v[0] in ('?', 'S'):
                return ('?', ('len', v), None)
        raise Undecided('length')

    def sym_field(self, E, st, v, i):
        return S('fld', v[1], i)

    def sym_downcast(self, E, st, v, vi):
        return None

    def sym_discr(self, E, st, v):
        raise Undecided('discriminant of symbol %r' % (v,))

    def sym_binop(self, E, st, op, a, b):
        fl = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le'}
        if isinstance(a, int) and type(b) is tuple and b[0] == 'S' and op in fl:
            return self.sym_binop(E, st, fl[op], b, a)
        if type(a) is tuple and a[0] == 'S' and isinstance(b, int):
            k = a[1][0]
            if k == 'chr' and op in fl:
                if op in ('Eq', 'Ne'):
                    cs = ((b, b),)
                elif op == 'Lt':
                    cs = ((0, b - 1),) if b else ()
                elif op == 'Le':
                    cs = ((0, b),)
                elif op == 'Gt':
                    cs = ((b + 1, MAXCH),)
                else:
                    cs = ((b, MAXCH),)
                r = ask_char(st, a, cs)
                return (not r) if op == 'Ne' else r
            if k == 'pchar' and op in ('Eq', 'Ne'):
                if b in (44, 61):
                    r = False
                else:
                    r = ask(st, 'x', 'pchar', a[1][1], b)
                return r == (op == 'Eq')
            if k == 'ilen' and op in fl:
                # lengths of identifiers: 1, 2, 3, ... all possible for an unlisted name
                if op in ('Gt', 'Ge', 'Lt', 'Le', 'Eq', 'Ne'):
                    lo, hi = st.facts.get(('ilen', a[1][1]), (1, None))
                    if op in ('Gt', 'Le'):
                        cut = b + 1
                    elif op in ('Ge', 'Lt'):
                        cut = b
                    else:
                        r = ask(st, 'x', 'ileneq', a[1][1], b)
                        return r == (op == 'Eq')
                    # is len >= cut ?
                    if lo >= cut:
                        r = True
                    elif hi is not None and hi < cut:
                        r = False
                    else:
                        raise Fork([_setfact(('ilen', a[1][1]), (cut, hi)), _setfact(('ilen', a[1][1]), (lo, cut - 1))])
                    return r if op in ('Gt', 'Ge') else not r
        return None

    def sym_switch(self, E, st, v, cases):
        if v[0] == 'S' and v[1][0] == 'chr':
            for c in cases:
                if ask_char(st, v, ((c, c),)):
                    return c
            return -1
        if v[0] == 'S' and v[1][0] == 'pchar':
            for c in cases:
                if c not in (44, 61) and ask(st, 'x', 'pchar', v[1][1], c):
                    return c
            return -1
        if v[0] == 'S' and v[1][0] == 'ilen':
            for c in cases:
                if self.sym_binop(None, st, 'Eq', v, c):
                    return c
            return -1
        return None


TABLE = {}


def model(*names, when=None):
    def d(f):
        for n in names:
            if when is not None:
                g = (lambda f: lambda E, st, c: f(E, st, c))(f)
                g.when = when
                TABLE[n] = g
            else:
                TABLE[n] = f
        return f
    return d


def B(E, st, v):
    v = E.strip(st, v)
    if type(v) is tuple and v[0] == 'B':
        return v[1]
    raise Undecided('not a parse buffer')


def newbuf(st, pos):
    i = 0
    while i in st.bufs:
        i += 1
    st.bufs[i] = pos
    return ('B', i)


def ev(st, *e):
    st.trace = st.trace + (e,)


# ----------------------------------------------------------- syn::parse
PB = "syn::parse::ParseBuffer::<'a>::"


def do_parse(E, st, T, b):
    pos = st.bufs[b]
    if can_parse(st, T, pos):
        st.bufs[b] = after(T, pos, st)
        ev(st, 'parse', T, pos, True)
        return ok(value_at(T, pos))
    ev(st, 'parse', T, pos, False)
    return err(S('perr', T, pos))


@model(PB + 'parse')
def m_parse(E, st, c):
    return do_parse(E, st, E.p.ts(c.targs[0]), B(E, st, c.args[0]))


def _is_parse_trait(M, E, ty):
    # user types are opaque: their Parse impl is "some parser", except inside the analysed root
    return True


@model('syn::parse::Parse::parse')
def m_parse_trait(E, st, c):
    return do_parse(E, st, E.p.ts(c.targs[0]), B(E, st, c.args[0]))


@model('syn::ext::IdentExt::parse_any')
def m_parse_any(E, st, c):
    b = B(E, st, c.args[0])
    pos = st.bufs[b]
    if ask_kind(st, pos, {'IDENT'}):
        st.bufs[b] = ('id', pos)
        return ok(S('ident', pos))
    return err(S('perr', 'any ident', pos))


@model(PB + 'fork')
def m_fork(E, st, c):
    return newbuf(st, st.bufs[B(E, st, c.args[0])])


@model('syn::parse::discouraged::Speculative::advance_to')
def m_advance(E, st, c):
    a, b = B(E, st, c.args[0]), B(E, st, c.args[1])
    st.bufs[a] = st.bufs[b]
    return UNIT


@model(PB + 'is_empty')
def m_is_empty(E, st, c):
    return ask_kind(st, st.bufs[B(E, st, c.args[0])], {'END'})


def peek_name(E, c):
    t = E.p.types[c.targs[0]]
    d = t.get('def') or t['s']
    if d.endswith('PeekFn'):
        return 'Ident::peek_any'
    return d.rsplit('::', 1)[-1]


@model(PB + 'peek')
def m_peek(E, st, c):
    return peek(st, peek_name(E, c), 0, st.bufs[B(E, st, c.args[0])])


@model(PB + 'peek2')
def m_peek2(E, st, c):
    return peek(st, peek_name(E, c), 1, st.bufs[B(E, st, c.args[0])])


@model(PB + 'peek3')
def m_peek3(E, st, c):
    return peek(st, peek_name(E, c), 2, st.bufs[B(E, st, c.args[0])])


@model(PB + 'call')
def m_call(E, st, c):
    return TailCall(c.args[1], [c.args[0]])


@model(PB + 'error')
def m_error(E, st, c):
    return S('err', S('bufspan', st.bufs[B(E, st, c.args[0])]), text_of(E, st, c.args[1]))


@model(PB + 'span')
def m_span(E, st, c):
    return S('bufspan', st.bufs[B(E, st, c.args[0])])


@model(PB + 'cursor')
def m_cursor(E, st, c):
    return S('cursor', st.bufs[B(E, st, c.args[0])])


CU = "syn::buffer::Cursor::<'a>::"


def cpos(E, st, v):
    v = E.strip(st, v)
    if type(v) is tuple and v[0] == 'S' and v[1][0] == 'cursor':
        return v[1][1]
    raise Undecided('not a cursor')


@model(CU + 'punct')
def m_cpunct(E, st, c):
    pos = cpos(E, st, c.args[0])
    if ask_kind(st, pos, PUNCTS):
        return some(('t', (S('punct', pos), S('cursor', ('pu', pos)))))
    return none()


@model(CU + 'ident')
def m_cident(E, st, c):
    pos = cpos(E, st, c.args[0])
    if ask_kind(st, pos, {'IDENT'}):
        return some(('t', (S('ident', pos), S('cursor', ('id', pos)))))
    return none()


def cursor_delim(E, st, v):
    """the kind of group a `Delimiter` value stands for (None: invisible delimiters, read through here)"""
    v = E.strip(st, v)
    if type(v) is tuple and v[0] == 'A' and v[1].endswith('Delimiter'):
        return [('PAREN', 'Paren'), ('BRACE', 'Brace'), ('BRACKET', 'Bracket'), None][v[2]]
    raise Undecided('delimiter')


@model(CU + 'group')
def m_cgroup(E, st, c):
    pos = cpos(E, st, c.args[0])
    d = cursor_delim(E, st, c.args[1])
    if d is None or not ask_kind(st, pos, {d[0]}):
        return none()
    return some(('t', (S('cursor', ('in', pos)), S('tok', d[1], pos), S('cursor', ('g', pos)))))


@model(CU + 'any_group')
def m_cany(E, st, c):
    pos = cpos(E, st, c.args[0])
    for vi, k, n in ((0, 'PAREN', 'Paren'), (1, 'BRACE', 'Brace'), (2, 'BRACKET', 'Bracket')):
        if ask_kind(st, pos, {k}):
            return some(('t', (S('cursor', ('in', pos)), ('A', 'proc_macro2::Delimiter', vi, ()), S('tok', n, pos), S('cursor', ('g', pos)))))
    return none()


@model(CU + 'literal')
def m_cliteral(E, st, c):
    pos = cpos(E, st, c.args[0])
    if ask_kind(st, pos, {'LIT'}):
        return some(('t', (S('lit', pos), S('cursor', ('tt', pos)))))
    return none()


@model(CU + 'lifetime')
def m_clifetime(E, st, c):
    pos = cpos(E, st, c.args[0])
    if ask_kind(st, pos, {'OTHER'}) and ask(st, 'x', 'lifetime', pos):
        return some(('t', (S('lt', pos), S('cursor', ('lt', pos)))))
    return none()


@model(CU + 'token_tree')
def m_ctt(E, st, c):
    pos = cpos(E, st, c.args[0])
    if ask_kind(st, pos, {'END'}):
        return none()
    return some(('t', (S('ttree', pos), S('cursor', ('tt', pos)))))


@model(CU + 'token_stream')
def m_cts(E, st, c):
    return S('cstream', cpos(E, st, c.args[0]))


@model(PB + 'step')
def m_step(E, st, c):
    b = B(E, st, c.args[0])
    r = E.run_det(st, c.args[1], [S('cursor', st.bufs[b])])
    r = E.res(st, r)
    if type(r) is not tuple or r[0] != 'A':
        raise Undecided('step')
    if r[2] == 1:
        return r
    pair = r[3][0]
    if type(pair) is not tuple or pair[0] != 't':
        raise Undecided('step')
    st.bufs[b] = cpos(E, st, pair[1][1])
    return ok(pair[1][0])


@model("syn::parse::StepCursor::<'c, 'a>::error")
def m_steperr(E, st, c):
    return S('err', S('bufspan', cpos(E, st, c.args[0])), text_of(E, st, c.args[1]))


@model(CU + 'eof')
def m_ceof(E, st, c):
    return ask_kind(st, cpos(E, st, c.args[0]), {'END'})


@model(CU + 'span')
def m_cspan(E, st, c):
    return S('bufspan', cpos(E, st, c.args[0]))


@model('proc_macro2::Punct::as_char')
def m_aschar(E, st, c):
    pos = E.strip(st, c.args[0])[1][1]
    if ask_kind(st, pos, {'COMMA'}):
        return 44
    if ask_kind(st, pos, EQLIKE):
        return 61
    return S('pchar', pos)


@model('proc_macro2::Punct::spacing')
def m_spacing(E, st, c):
    pos = E.strip(st, c.args[0])[1][1]
    if ask_kind(st, pos, {'EQ'}):
        j = False
    elif ask_kind(st, pos, EQLIKE):
        j = True
    else:
        j = ask(st, 'x', 'joint', pos)
    return ('A', 'proc_macro2::Spacing', 1 if j else 0, ())


PLAIN_ID = re.compile(r'(?:[^\W\d]|_)\w*\Z')


def lowered(v):
    """the identifier a string is spelled after, through case changes"""
    while type(v) is tuple and v[0] == '?' and type(v[1]) is tuple and v[1][0] == 'recase':
        v = v[1][1]
    return v


@model('proc_macro2::Ident::new', 'proc_macro2::Ident::new_raw')
def m_identnew(E, st, c):
    raw = c.ty['def'].endswith('new_raw')
    v = lowered(E.strip(st, c.args[0]))
    s = strv(E, st, v)
    n = None
    if s is not None and s[0] == 'str':
        n = s[1]
    elif s is not None and s[1][0] == 'istr':
        n = single_name(st, s[1][1])
        if n == OTHER:
            # the text of an identifier may begin with r#, which is no plain identifier
            if ask(st, 'x', 'raw', s[1][1]):
                raise PanicExc('Ident::new of a raw identifier')
            if raw and ask_keyword(st, s[1][1]):
                raise PanicExc('Ident::new_raw of a path keyword')
            return st.fresh(c.dt)
    if n is None:
        return st.fresh(c.dt)
    if not PLAIN_ID.match(n) or raw and n in ('self', 'Self', 'super', 'crate', '_'):
        raise PanicExc('Ident::new of %r' % n)
    return st.fresh(c.dt)


@model('proc_macro2::Ident::span', 'syn::spanned::Spanned::span')
def m_ispan(E, st, c):
    v = E.strip(st, c.args[0])
    if v[0] == 'S' and v[1][0] == 'ident':
        return S('span', v[1][1])
    if v[0] == 'S' and v[1][0] == 'punct':
        return S('pspan', v[1][1])
    return S('spanof', v)


@model('proc_macro2::Span::call_site')
def m_callsite(E, st, c):
    return S('callsite',)


@model('syn::error::Error::new', 'syn::error::Error::new_spanned')
def m_errnew(E, st, c):
    return S('err', E.strip(st, c.args[0]), text_of(E, st, c.args[1]))


@model('syn::error::Error::combine')
def m_errcombine(E, st, c):
    return UNIT


def parse_group(kind, path):
    def f(E, st, c):
        b = B(E, st, c.args[0])
        pos = st.bufs[b]
        if ask_kind(st, pos, {kind}):
            st.bufs[b] = ('g', pos)
            content = newbuf(st, ('in', pos))
            name = {'PAREN': 'Paren', 'BRACKET': 'Bracket', 'BRACE': 'Brace'}[kind]
            return ok(('A', path, 0, (S('tok', name, pos), content)))
        return err(S('perr', kind, pos))
    return f


TABLE['syn::group::parse_parens'] = parse_group('PAREN', 'syn::group::Parens')
TABLE['syn::group::parse_brackets'] = parse_group('BRACKET', 'syn::group::Brackets')
TABLE['syn::group::parse_braces'] = parse_group('BRACE', 'syn::group::Braces')


def list_of(E, st, b, T, P, how):
    pos = st.bufs[b]
    key = ('pl', T, P, how)
    if how.startswith('term') and ('p', key, pos) not in st.facts and st.facts.get(('k', pos)) == frozenset(['END']):
        return ok(('VEC', 'empty', ()))
    if ask(st, 'p', key, pos):
        st.bufs[b] = ('v', key, pos)
        return ok(S('plist', T, P, how, pos))
    return err(S('perr', key, pos))


def parser_of(E, st, f, T):
    fv = E.strip(st, f)
    if type(fv) is tuple and fv[0] == 'F':
        ty = E.p.types[fv[1]]
        if ty['def'] == 'syn::parse::Parse::parse' and E.p.ts(ty['args'][0]) == T:
            return 'parse'
        if ty['def'] == 'syn::ext::IdentExt::parse_any' and E.p.ts(ty['args'][0]) == T:
            return 'any'
        if ty['def'] == PB + 'parse' and E.p.ts(ty['args'][0]) == T:
            return 'parse'
        return 'fn ' + (ty['rpath'] or ty['def'])
    if type(fv) is tuple and fv[0] == 'C':
        # |input| input.parse::<T>()  -- one abstract run of the closure decides what it parses
        s2 = st.copy()
        s2.bufs = {9999: ('probe',)}
        s2.facts = {k: v for k, v in st.facts.items() if ('probe',) not in k}
        try:
            r = E.run_det(s2, f, [('V', ('B', 9999))])
        except Fork as fk:
            s3 = s2.copy()
            fk.alts[0](s3)
            try:
                r = E.run_det(s3, f, [('V', ('B', 9999))])
            except (Fork, Undecided):
                raise Undecided('parser closure')
        if r[0] == 'A' and r[2] == 0 and r[3][0] == value_at(T, ('probe',)):
            return 'parse' if T != IDENT_T else 'any'
        raise Undecided('parser closure')
    raise Undecided('parser')


@model('syn::punctuated::Punctuated::<T, P>::parse_terminated')
def m_pt(E, st, c):
    return list_of(E, st, B(E, st, c.args[0]), E.p.ts(c.targs[0]), E.p.ts(c.targs[1]), 'term')


@model('syn::punctuated::Punctuated::<T, P>::parse_terminated_with')
def m_ptw(E, st, c):
    T = E.p.ts(c.targs[0])
    w = parser_of(E, st, c.args[1], T)
    return list_of(E, st, B(E, st, c.args[0]), T, E.p.ts(c.targs[1]), 'term' if w == 'parse' else 'term ' + w)


@model('syn::punctuated::Punctuated::<T, P>::parse_separated_nonempty')
def m_psn(E, st, c):
    return list_of(E, st, B(E, st, c.args[0]), E.p.ts(c.targs[0]), E.p.ts(c.targs[1]), 'sep')


@model(PB + 'parse_terminated')
def m_bpt(E, st, c):
    T = E.p.ts(c.targs[0])
    w = parser_of(E, st, c.args[1], T)
    sep = E.p.types[c.targs[1]] if len(c.targs) > 1 else {'s': '?'}
    P = sep.get('def', sep['s'])
    return list_of(E, st, B(E, st, c.args[0]), T, P, 'term' if w == 'parse' else 'term ' + w)


# ------------------------------------------------------------ conversions
def strv(E, st, v):
    """value of a string-like thing: ('str',s) | S('istr',pos) | None"""
    v = E.strip(st, v)
    if type(v) is tuple:
        if v[0] == 'str':
            return v
        if v[0] == 'S' and v[1][0] in ('istr', 'symstr'):
            return v
        if v[0] == 'S' and v[1][0] == 'ident':
            return S('istr', v[1][1])
    return None


def ident_str(E, st, c):
    v = strv(E, st, c.args[0])
    if v is not None:
        return v
    v = E.strip(st, c.args[0])
    if type(v) is tuple and v[0] == 'S' and v[1][0] in ('cat', 'text'):
        return v
    if isinstance(v, int):
        return ('str', str(v)) if not isinstance(v, bool) else ('str', str(v).lower())
    return st.fresh(c.dt)


for n in ('alloc::string::ToString::to_string', 'alloc::borrow::ToOwned::to_owned', 'alloc::string::String::as_str',
          'alloc::string::String::into_boxed_str', 'alloc::str::<impl str>::to_owned', 'alloc::str::<impl str>::into_string'):
    TABLE[n] = ident_str


@model('core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut', 'core::borrow::Borrow::borrow', 'core::convert::AsRef::as_ref', 'alloc::vec::Vec::<T, A>::as_slice',
       'core::slice::<impl [T]>::as_ref')
def m_deref(E, st, c):
    v = strv(E, st, c.args[0])
    if v is not None:
        return v
    r = c.args[0]
    v = E.strip(st, r)
    if type(v) is tuple and v[0] in ('VEC', 'arr', 'B', '?', 'S', 'A', 'TS', 'C', 'F', 't'):
        # Vec -> slice, Box -> content
        if v[0] == 'A' and v[1].endswith('boxed::Box'):
            return ('V', v[3][0])
        while is_ref(r):
            x = E.deref_raw(st, r)
            if is_ref(x):
                r = x
            else:
                return r
        return r
    raise Undecided('deref()')


@model('core::clone::Clone::clone')
def m_clone(E, st, c):
    if c.ty.get('inst') is not None:
        E_ty = E.p.types[c.ty['inst']] if False else None
    v = E.strip1(st, c.args[0]) if hasattr(E, 'strip1') else E.deref_raw(st, c.args[0]) if is_ref(c.args[0]) else c.args[0]
    return v


TABLE['core::clone::Clone::clone'].when = lambda M, E, ty: ty.get('inst') is None


@model('core::convert::From::from', 'core::convert::Into::into', when=lambda M, E, ty: ty.get('inst') is None)
def m_from(E, st, c):
    v = strv(E, st, c.args[0])
    if v is not None:
        return v
    if c.ty['def'].endswith('Into::into') or c.ty['def'].endswith('From::from'):
        a, b = E.p.ts(c.targs[0]), (E.p.ts(c.targs[1]) if len(c.targs) > 1 else None)
        if a == b:
            return c.args[0]
    x = E.strip(st, c.args[0])
    if type(x) is tuple and x[0] == 'A' and x[1] == 'proc_macro2::Group':
        return ('A', 'proc_macro2::TokenTree', 0, (x,))
    return st.fresh(c.dt)


@model('core::hint::must_use')
def m_id(E, st, c):
    return c.args[0]


TABLE['core::hint::black_box'] = m_id
TABLE['core::iter::traits::collect::IntoIterator::into_iter'] = None


def deep_eq(E, st, a, b):
    """known equality of two values, or None"""
    a, b = E.strip(st, a), E.strip(st, b)
    a, b = E.res(st, a), E.res(st, b)
    sa, sb = strv(E, st, a), strv(E, st, b)
    if sa is not None and sb is not None:
        if sa == sb:
            return True
        if sa[0] == 'str' and sb[0] == 'str':
            return sa[1] == sb[1]
        if sb[0] == 'S':
            sa, sb = sb, sa
        if sa[0] == 'S' and sa[1][0] == 'istr' and sb[0] == 'str':
            return ask_name(st, sa[1][1], sb[1])
        if sa[0] == 'S' and sb[0] == 'S' and sa[1][0] == 'istr' and sb[1][0] == 'istr':
            x, y = single_name(st, sa[1][1]), single_name(st, sb[1][1])
            if x != y:
                return False
            if x != OTHER:
                return True
            return ask(st, 'x', 'sameother', sa[1][1], sb[1][1])
        return None
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
        return a == b
    if isinstance(b, int) and type(a) is tuple and a[0] == 'S':
        return Models.sym_binop(None, E, st, 'Eq', a, b) if a[1][0] in ('chr', 'pchar', 'ilen') else None
    if isinstance(a, int) and type(b) is tuple and b[0] == 'S':
        return deep_eq(E, st, b, a)
    if type(a) is tuple and type(b) is tuple and a[0] == b[0] == 'A' and a[1] == b[1]:
        if a[2] != b[2]:
            return False
        r = True
        for x, y in zip(a[3], b[3]):
            q = deep_eq(E, st, x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    if type(a) is tuple and type(b) is tuple and a[0] == b[0] == 't':
        r = True
        for x, y in zip(a[1], b[1]):
            q = deep_eq(E, st, x, y)
            if q is False:
                return False
            if q is None:
                r = None
        return r
    if type(a) is tuple and a[0] == 'S' and a == b and a[1][0] != 'vals':
        return True
    if type(a) is tuple and a[0] == 'S' and type(b) is tuple and b[0] == 'S':
        x, y = sorted([a, b], key=repr)
        return ask(st, 'x', 'eq', x, y)
    return None


@model('core::cmp::PartialEq::eq')
def m_eq(E, st, c):
    r = deep_eq(E, st, c.args[0], c.args[1])
    if r is None:
        return st.fresh(c.dt)
    return r


@model('core::cmp::PartialEq::ne')
def m_ne(E, st, c):
    r = deep_eq(E, st, c.args[0], c.args[1])
    if r is None:
        return st.fresh(c.dt)
    return not r


def _eq_native(M, E, ty):
    """comparisons of user / structmeta types with an inspectable body are analysed, not modelled"""
    if ty.get('inst') is None:
        return True
    b = E.p.bodies[ty['inst']]
    return b['crate'] in ('core', 'alloc', 'std')


TABLE['core::cmp::PartialEq::eq'].when = lambda M, E, ty: _eq_native(M, E, ty) and not (ty.get('inst') is not None and _refs_local(E, ty))
TABLE['core::cmp::PartialEq::ne'].when = lambda M, E, ty: _eq_native(M, E, ty) and not _refs_local(E, ty)


def _refs_local(E, ty):
    # PartialEq::ne's default body calls eq: inspect it when the operand types are analysed ADTs
    t = E.p.types[ty['args'][0]]
    while t['k'] == 'ref':
        t = E.p.types[t['t']]
    return t['k'] == 'adt' and t['def'].startswith('structmeta::')


# ---------------------------------------------------------- Try / Option fast paths
@model('core::ops::try_trait::Try::branch')
def m_branch(E, st, c):
    v = E.res(st, c.args[0])
    if type(v) is tuple and v[0] == 'A':
        if v[1].endswith('Result'):
            if v[2] == 0:
                return ('A', 'core::ops::control_flow::ControlFlow', 0, (v[3][0],))
            return ('A', 'core::ops::control_flow::ControlFlow', 1, (v,))
        if v[1].endswith('Option'):
            if v[2] == 1:
                return ('A', 'core::ops::control_flow::ControlFlow', 0, (v[3][0],))
            return ('A', 'core::ops::control_flow::ControlFlow', 1, (v,))
    if type(v) is tuple and v[0] == '?':
        d = E.discr(st, v)
        t = E.p.types[v[2]]
        nm = t['def']
        x = ('?', (v[1], 'vf', 0), t['args'][0] if t['args'] and isinstance(t['args'][0], int) else None)
        if nm.endswith('Result'):
            if d == 0:
                return ('A', 'core::ops::control_flow::ControlFlow', 0, (x,))
            return ('A', 'core::ops::control_flow::ControlFlow', 1, (err(('?', (v[1], 'vf', 1), None)),))
        if nm.endswith('Option'):
            if d == 1:
                return ('A', 'core::ops::control_flow::ControlFlow', 0, (x,))
            return ('A', 'core::ops::control_flow::ControlFlow', 1, (none(),))
    raise Undecided('branch')


@model('core::ops::try_trait::FromResidual::from_residual')
def m_residual(E, st, c):
    v = E.res(st, c.args[0])
    if type(v) is tuple and v[0] == 'A':
        return v
    raise Undecided('residual')


def variant_test(cls, vi):
    def f(E, st, c):
        v = E.strip(st, c.args[0])
        if type(v) is tuple and v[0] == 'G' and all(type(x) is tuple and x[0] == 'A' for _, x in v[2]):
            al = tuple((s, x[2] == vi) for s, x in v[2])
            return al[0][1] if len({b for _, b in al}) == 1 else ('G', v[1], al)
        v = E.res(st, v)
        if type(v) is tuple and v[0] == 'A':
            return v[2] == vi
        if type(v) is tuple and v[0] == '?':
            if v[2] is None:
                return ('?', ('vt', v[1], vi), None)
            return E.discr(st, v) == vi
        raise Undecided('variant test')
    return f


TABLE['core::option::Option::<T>::is_some'] = variant_test('Option', 1)
TABLE['core::option::Option::<T>::is_none'] = variant_test('Option', 0)
TABLE['core::result::Result::<T, E>::is_ok'] = variant_test('Result', 0)
TABLE['core::result::Result::<T, E>::is_err'] = variant_test('Result', 1)


# --------------------------------------------------------------- Vec / map
@model('alloc::vec::Vec::<T>::new', 'alloc::vec::Vec::<T>::with_capacity')
def m_vecnew(E, st, c):
    return ('VEC', 'empty', ())


@model('core::default::Default::default', when=lambda M, E, ty: ty.get('inst') is None)
def m_default(E, st, c):
    t = E.p.types[c.targs[0]]
    d = t.get('def', '')
    if d == 'alloc::vec::Vec':
        return ('VEC', 'empty', ())
    if d.endswith('HashMap'):
        return ('MAP', 'empty', ())
    if d == 'core::option::Option':
        return none()
    if t['s'] == 'bool':
        return False
    if t['s'] in ('usize', 'u32', 'i32', 'u64', 'u8'):
        return 0
    if d == 'alloc::string::String':
        return ('str', '')
    return st.fresh(c.dt)


def vecref(E, st, r):
    while is_ref(r):
        v = E.deref_raw(st, r)
        if is_ref(v):
            r = v
            continue
        v = E.res(st, v)
        return r, v
    raise Undecided('collection reference')


@model('alloc::vec::Vec::<T, A>::push')
def m_push(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == '?':
        return UNIT
    if v[0] != 'VEC':
        raise Undecided('push')
    if len(v[2]) > 40:
        raise Undecided('vec size')
    E.store_ref(st, r, ('VEC', v[1], v[2] + (c.args[1],)))
    return UNIT


@model('alloc::vec::Vec::<T, A>::clear')
def m_vclear(E, st, c):
    r, v = vecref(E, st, c.args[0])
    E.store_ref(st, r, ('VEC', 'empty', ()))
    return UNIT


@model('alloc::vec::Vec::<T, A>::insert')
def m_vinsert(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == 'VEC' and v[1] == 'empty' and isinstance(c.args[1], int):
        es = list(v[2])
        if c.args[1] > len(es):
            raise PanicExc('insert index')
        es.insert(c.args[1], c.args[2])
        E.store_ref(st, r, ('VEC', v[1], tuple(es)))
        return UNIT
    if v[0] == 'VEC':
        E.store_ref(st, r, ('VEC', v[1], v[2] + (S('inserted', c.args[2]),)))
        return UNIT
    raise Undecided('vec insert')


@model('alloc::vec::Vec::<T, A>::pop')
def m_vpop(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == 'VEC' and v[2]:
        E.store_ref(st, r, ('VEC', v[1], v[2][:-1]))
        return some(v[2][-1])
    if v[0] == 'VEC' and v[1] == 'empty':
        return none()
    if v[0] == 'VEC':
        E.store_ref(st, r, ('VEC', ('popped', v[1]), ()))
        return some(S('popped', v[1]))
    raise Undecided('pop')


@model('alloc::vec::Vec::<T, A>::truncate')
def m_vtrunc(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == 'VEC' and v[1] == 'empty' and isinstance(c.args[1], int):
        E.store_ref(st, r, ('VEC', v[1], v[2][:c.args[1]]))
        return UNIT
    raise Undecided('truncate')


@model('alloc::vec::Vec::<T, A>::is_empty', 'core::slice::<impl [T]>::is_empty', 'core::str::<impl str>::is_empty', 'alloc::string::String::is_empty')
def m_sisempty(E, st, c):
    n = E.models.length(E, st, c.args[0])
    if isinstance(n, int):
        return n == 0
    if n[0] == 'ge':
        return False if n[1] >= 1 else E.ge_op(st, 'Eq', n, 0)
    if n[0] == 'S' and n[1][0] == 'ilen':
        return False
    return ('?', ('isempty', n), None)


@model('alloc::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len', 'core::str::<impl str>::len', 'alloc::string::String::len')
def m_len(E, st, c):
    return E.models.length(E, st, c.args[0])


@model('alloc::vec::Vec::<T, A>::remove', 'alloc::vec::Vec::<T, A>::swap_remove')
def m_vremove(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == 'VEC' and v[1] == 'empty' and isinstance(c.args[1], int):
        if c.args[1] >= len(v[2]):
            raise PanicExc('remove index')
        es = list(v[2])
        x = es.pop(c.args[1])
        E.store_ref(st, r, ('VEC', 'empty', tuple(es)))
        return x
    raise Undecided('vec remove')


@model('core::iter::traits::collect::Extend::extend')
def m_extend(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == 'VEC':
        it = to_iter(E, st, c.args[1])
        xs = drain(E, st, it)
        if xs is not None:
            E.store_ref(st, r, ('VEC', v[1], v[2] + tuple(xs)))
            return UNIT
        if it[1] == 'sym':
            E.store_ref(st, r, ('VEC', v[1], v[2] + (S('all-of', it[2]),)))
            return UNIT
    if v[0] == 'TS':
        es = events_of(E, st, c.args[1])
        E.store_ref(st, r, ('TS', v[1] + (es if es is not None else (('extend', E.strip(st, c.args[1])),))))
        return UNIT
    if v[0] == '?':
        return UNIT
    raise Undecided('extend')


@model('std::collections::hash::map::HashMap::<K, V>::new', 'std::collections::hash::map::HashMap::<K, V>::with_capacity')
def m_mapnew(E, st, c):
    return ('MAP', 'empty', ())


HM = 'std::collections::hash::map::HashMap::<K, V, S, A>::'


def map_has(E, st, v, key):
    k = strv(E, st, key)
    if k is None:
        if E.strip(st, key)[0] == '?':
            raise Undecided('map key')
        raise Undecided('map key')
    for ek, _ in v[2]:
        r = deep_eq(E, st, ek, k)
        if r is None:
            raise Undecided('map key')
        if r:
            return True
    if v[1] == 'empty':
        return False
    return E.client.rest_has(E, st, v[1], k)


@model(HM + 'insert')
def m_mapinsert(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] != 'MAP':
        raise Undecided('map')
    k = strv(E, st, c.args[1])
    if k is None:
        raise Undecided('map key')
    had = map_has(E, st, v, k)
    E.store_ref(st, r, ('MAP', v[1], v[2] + ((k, c.args[2]),)))
    return some(S('oldentry', k)) if had else none()


@model(HM + 'contains_key')
def m_mapcontains(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] != 'MAP':
        raise Undecided('map')
    return map_has(E, st, v, c.args[1])


@model(HM + 'get')
def m_mapget(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] != 'MAP':
        raise Undecided('map')
    return some(('V', S('oldentry', strv(E, st, c.args[1])))) if map_has(E, st, v, c.args[1]) else none()


@model(HM + 'entry')
def m_mapentry(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] != 'MAP':
        raise Undecided('map')
    k = strv(E, st, c.args[1])
    had = map_has(E, st, v, k)
    return ('A', 'std::collections::hash::map::Entry', 0 if had else 1, (('t', (r, k)),))


@model("std::collections::hash::map::VacantEntry::<'a, K, V, A>::insert", "std::collections::hash::map::VacantEntry::<'a, K, V>::insert")
def m_vacinsert(E, st, c):
    r, k = E.strip(st, c.args[0])[1]
    v = E.deref_raw(st, r)
    E.store_ref(st, r, ('MAP', v[1], v[2] + ((k, c.args[1]),)))
    return ('V', c.args[1])


@model(HM + 'is_empty', HM + 'len')
def m_maplen(E, st, c):
    v = E.strip(st, c.args[0])
    if type(v) is not tuple or v[0] != 'MAP':
        raise Undecided('map size')
    n = sum(1 for i, (k, _) in enumerate(v[2]) if not map_has(E, st, ('MAP', v[1], v[2][:i]), k))
    if c.ty['def'].endswith('is_empty'):
        return v[1] == 'empty' and n == 0
    return n if v[1] == 'empty' else ('ge', n + 1)      # a widened map has at least one entry


# -------------------------------------------------------------- iterators
def to_iter(E, st, v):
    v0 = v
    if type(v) is tuple and v[0] == 'IT':
        return v
    byref = is_ref(v)
    x = E.strip(st, v)
    x = E.res(st, x)
    if type(x) is tuple:
        if x[0] == 'IT':
            return x
        if x[0] == 'arr' or (x[0] == 'VEC' and x[1] == 'empty'):
            es = x[1] if x[0] == 'arr' else x[2]
            if byref:
                return ('IT', 'list', tuple(('V', e) if not (type(e) is tuple and e[0] == '#') else e for e in es), 0)
            return ('IT', 'list', tuple(es), 0)
        if x[0] == 'A' and x[1].endswith('ops::range::Range') and len(x[3]) == 2:
            return ('IT', 'range', x[3][0], x[3][1])
        if x[0] == 'A' and x[1].endswith('range::RangeInclusive'):
            raise Undecided('range')
        if x[0] == 'A' and x[1].endswith('Option'):
            return ('IT', 'list', tuple(x[3]), 0)
        if x[0] == 'S':
            if x[1][0] in ('plist',):
                return ('IT', 'sym', x)
            if x[1][0] == 'list':
                return ('IT', 'sym', x)
            return ('IT', 'sym', x)
        if x[0] == '?':
            return ('IT', 'sym', x)
        if x[0] == 'VEC':
            return ('IT', 'sym', S('elems', x))
        if x[0] == 'F':
            pass
    raise Undecided('iterate over %r' % (x,))


def it_next(E, st, it):
    """-> (value or None at the end, new iterator)"""
    k = it[1]
    if k == 'list':
        if it[3] < len(it[2]):
            return (it[2][it[3]],), ('IT', 'list', it[2], it[3] + 1)
        return None, it
    if k == 'range':
        a, b = E.res(st, it[2]), E.res(st, it[3])
        if isinstance(a, int) and isinstance(b, int):
            if a < b:
                return (a,), ('IT', 'range', a + 1, b)
            return None, it
        lt = E.binop(st, 'Lt', a, b)
        if E.truth(st, lt):
            raise Undecided('symbolic range')
        return None, it
    if k == 'enum':
        v, i2 = it_next(E, st, it[2])
        if v is None:
            return None, ('IT', 'enum', i2, it[3])
        return (('t', (it[3], v[0])),), ('IT', 'enum', i2, it[3] + 1)
    if k == 'map':
        v, i2 = it_next(E, st, it[2])
        n = ('IT', 'map', i2, it[3])
        if v is None:
            return None, n
        return (E.run_det(st, it[3], [v[0]]),), n
    if k == 'deref':
        v, i2 = it_next(E, st, it[2])
        n = ('IT', 'deref', i2)
        if v is None:
            return None, n
        x = v[0]
        return ((E.deref_raw(st, x) if is_ref(x) else x),), n
    if k == 'filter':
        i2 = it[2]
        while True:
            v, i2 = it_next(E, st, i2)
            if v is None:
                return None, ('IT', 'filter', i2, it[3])
            if E.truth(st, E.run_det(st, it[3], [('V', v[0])])):
                return v, ('IT', 'filter', i2, it[3])
    if k == 'filter_map':
        i2 = it[2]
        while True:
            v, i2 = it_next(E, st, i2)
            if v is None:
                return None, ('IT', 'filter_map', i2, it[3])
            r = E.run_det(st, it[3], [v[0]])
            r = E.res(st, r)
            if r[0] != 'A':
                raise Undecided('filter_map')
            if r[2] == 1:
                return (r[3][0],), ('IT', 'filter_map', i2, it[3])
    if k == 'chain':
        v, a = it_next(E, st, it[2])
        if v is not None:
            return v, ('IT', 'chain', a, it[3])
        v, b = it_next(E, st, it[3])
        return v, ('IT', 'chain', a, b)
    if k == 'zip':
        v, a = it_next(E, st, it[2])
        if v is None:
            return None, it
        w, b = it_next(E, st, it[3])
        if w is None:
            return None, ('IT', 'zip', a, b)
        return (('t', (v[0], w[0])),), ('IT', 'zip', a, b)
    if k == 'take':
        if it[3] == 0:
            return None, it
        v, a = it_next(E, st, it[2])
        return v, ('IT', 'take', a, it[3] - 1)
    if k == 'skip':
        a = it[2]
        for _ in range(it[3]):
            _, a = it_next(E, st, a)
        v, a = it_next(E, st, a)
        return v, ('IT', 'skip', a, 0)
    if k == 'peekable':
        if it[3] is not None:
            return it[3][0], ('IT', 'peekable', it[2], None)
        v, a = it_next(E, st, it[2])
        return v, ('IT', 'peekable', a, None)
    if k == 'chars':
        s = it[2]
        # characters of an unknown string
        return sym_char(E, st, it)
    raise Undecided('next on %s iterator' % k)


def sym_char(E, st, it):
    key = ('x', 'morechars', it[2], it[3])
    if it[2][0] == 'istr' and it[3] == 0 or ask(st, *key):
        ch = S('chr', it[2], it[3])
        if it[4] == 'bytes':
            cur = st.facts.get(('c', ch))
            if cur is None:
                st.facts[('c', ch)] = ((0, 255),)
        return (ch,), ('IT', 'chars', it[2], it[3] + 1, it[4])
    return None, it


def drain(E, st, it, limit=64):
    k = it[1]
    if k == 'sym' or _has_sym(it):
        return None
    out = []
    while True:
        v, it = it_next(E, st, it)
        if v is None:
            return out
        out.append(v[0])
        if len(out) > limit:
            raise Undecided('long iterator')


def _has_sym(it):
    if it[1] in ('sym', 'chars'):
        return True
    return any(type(x) is tuple and x and x[0] == 'IT' and _has_sym(x) for x in it[2:])


def m_iter(E, st, c):
    return to_iter(E, st, c.args[0])


def m_intoiter(E, st, c):
    v = c.args[0]
    return to_iter(E, st, v)


TABLE['core::iter::traits::collect::IntoIterator::into_iter'] = m_intoiter
for n in ('core::slice::<impl [T]>::iter', 'syn::punctuated::Punctuated::<T, P>::iter',
          'core::option::Option::<T>::iter', 'core::array::<impl [T; N]>::iter'):
    TABLE[n] = m_iter

ITR = 'core::iter::traits::iterator::Iterator::'


def itref(E, st, r):
    return vecref(E, st, r)


@model(ITR + 'next')
def m_next(E, st, c):
    r, it = itref(E, st, c.args[0])
    if it[0] == 'A' and it[1].endswith('ops::range::Range'):
        it = ('IT', 'range', it[3][0], it[3][1])
    if it[0] != 'IT':
        raise Undecided('next')
    v, it2 = it_next(E, st, it)
    E.store_ref(st, r, it2)
    return none() if v is None else some(v[0])


def own_iter(E, st, v):
    """iterator given by value or by &mut (returns ref to write back)"""
    if is_ref(v):
        r, it = itref(E, st, v)
        return to_iter(E, st, it), r
    return to_iter(E, st, v), None


def wrap(kind):
    def f(E, st, c):
        it, _ = own_iter(E, st, c.args[0])
        return ('IT', kind, it) + tuple(c.args[1:])
    return f


TABLE[ITR + 'map'] = wrap('map')
TABLE[ITR + 'filter'] = wrap('filter')
TABLE[ITR + 'filter_map'] = wrap('filter_map')
TABLE[ITR + 'take'] = wrap('take')
TABLE[ITR + 'skip'] = wrap('skip')
TABLE[ITR + 'copied'] = wrap('deref')
TABLE[ITR + 'cloned'] = wrap('deref')


@model(ITR + 'by_ref')
def m_byref(E, st, c):
    return c.args[0]


@model(ITR + 'enumerate')
def m_enum(E, st, c):
    return ('IT', 'enum', to_iter(E, st, c.args[0]), 0)


@model(ITR + 'peekable')
def m_peekable(E, st, c):
    return ('IT', 'peekable', to_iter(E, st, c.args[0]), None)


@model(ITR + 'chain')
def m_chain(E, st, c):
    return ('IT', 'chain', to_iter(E, st, c.args[0]), to_iter(E, st, c.args[1]))


@model(ITR + 'zip')
def m_zip(E, st, c):
    return ('IT', 'zip', to_iter(E, st, c.args[0]), to_iter(E, st, c.args[1]))


@model(ITR + 'rev')
def m_rev(E, st, c):
    xs = drain(E, st, to_iter(E, st, c.args[0]))
    if xs is None:
        return ('IT', 'sym', S('rev', to_iter(E, st, c.args[0])))
    return ('IT', 'list', tuple(reversed(xs)), 0)


def search(kind):
    def f(E, st, c):
        it, r = own_iter(E, st, c.args[0])
        if it[1] == 'chars' and kind in ('all', 'any'):
            return str_pred(E, st, it, c.args[1], kind)
        i = 0
        while True:
            v, it = it_next(E, st, it)
            if v is None:
                res = {'position': none(), 'find': none(), 'find_map': none(), 'any': False, 'all': True}[kind]
                break
            arg = ('V', v[0]) if kind == 'find' else v[0]
            b = E.run_det(st, c.args[1], [arg])
            if kind == 'find_map':
                b = E.res(st, b)
                if type(b) is not tuple or b[0] != 'A':
                    raise Undecided('find_map')
                if b[2] == 1:
                    res = b
                    break
                i += 1
                continue
            b = E.truth(st, b)
            if kind == 'position' and b:
                res = some(i)
                break
            if kind == 'find' and b:
                res = some(v[0])
                break
            if kind == 'any' and b:
                res = True
                break
            if kind == 'all' and not b:
                res = False
                break
            i += 1
            if i > 200:
                raise Undecided('long search')
        if r is not None:
            E.store_ref(st, r, it)
        return res
    return f


for k in ('position', 'find', 'find_map', 'any', 'all'):
    TABLE[ITR + k] = search(k)


@model(ITR + 'count')
def m_count(E, st, c):
    xs = drain(E, st, to_iter(E, st, c.args[0]))
    if xs is None:
        return st.fresh(c.dt)
    return len(xs)


@model(ITR + 'last')
def m_last(E, st, c):
    xs = drain(E, st, to_iter(E, st, c.args[0]))
    if xs is None:
        raise Undecided('last')
    return some(xs[-1]) if xs else none()


@model(ITR + 'fold')
def m_fold(E, st, c):
    it = to_iter(E, st, c.args[0])
    xs = drain(E, st, it)
    if xs is None:
        raise Undecided('fold')
    acc = c.args[1]
    for x in xs:
        acc = E.run_det(st, c.args[2], [acc, x])
    return acc


@model(ITR + 'for_each')
def m_foreach(E, st, c):
    xs = drain(E, st, to_iter(E, st, c.args[0]))
    if xs is None:
        raise Undecided('for_each')
    for x in xs:
        E.run_det(st, c.args[1], [x])
    return UNIT


@model(ITR + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
def m_collect(E, st, c):
    it = to_iter(E, st, c.args[0])
    t = E.p.types[c.dt]
    d = t.get('def', '')
    if d == 'alloc::vec::Vec':
        if it[1] == 'sym' and it[2][0] == 'S' and it[2][1][0] == 'plist':
            return S('list',) + () if False else ('S', ('list',) + it[2][1][1:])
        xs = drain(E, st, it)
        if xs is not None:
            return ('VEC', 'empty', tuple(xs))
        if it[1] == 'sym' and it[2][0] != '?':
            return S('collected', it[2])
        return st.fresh(c.dt)
    if d == 'core::result::Result' and it[1] != 'sym':
        xs = drain(E, st, it)
        if xs is not None:
            out = []
            for x in xs:
                x = E.res(st, x)
                if type(x) is not tuple or x[0] != 'A':
                    raise Undecided('collect result')
                if x[2] == 1:
                    return x
                out.append(x[3][0])
            return ok(('VEC', 'empty', tuple(out)))
    return st.fresh(c.dt)


# ---------------------------------------------------------------- strings
def str_iter(kind):
    def f(E, st, c):
        v = strv(E, st, c.args[0])
        if v is None:
            return ('IT', 'sym', st.fresh(None))
        if v[0] == 'S' and v[1][0] == 'istr':
            n = single_name(st, v[1][1])
            if n != OTHER:
                v = ('str', n)
            else:
                k = spelled_len(st, v[1][1])
                if k is not None and kind == 'chars':
                    return ('IT', 'list', tuple(S('chr', v[1], i) for i in range(k)), 0)
                return ('IT', 'chars', v[1], 0, kind)
        if v[0] == 'S':
            return ('IT', 'chars', v[1], 0, kind)
        if kind == 'chars':
            return ('IT', 'list', tuple(ord(x) for x in v[1]), 0)
        return ('IT', 'list', tuple(v[1].encode()), 0)
    return f


TABLE['core::str::<impl str>::chars'] = str_iter('chars')
TABLE['core::str::<impl str>::bytes'] = str_iter('bytes')


@model('core::str::<impl str>::as_bytes', 'alloc::string::String::as_bytes')
def m_asbytes(E, st, c):
    v = strv(E, st, c.args[0])
    if v is None:
        return st.fresh(c.dt)
    if v[0] == 'S' and v[1][0] == 'istr':
        n = single_name(st, v[1][1])
        if n != OTHER:
            v = ('str', n)
    if v[0] == 'str':
        return ('V', ('arr', tuple(v[1].encode())))
    return S('bytesof', v[1])


def str_test(fn, name):
    def f(E, st, c):
        v = strv(E, st, c.args[0])
        p = E.strip(st, c.args[1])
        if isinstance(p, int) and not isinstance(p, bool):
            p = ('str', chr(p))
        if v is None or type(p) is not tuple or p[0] != 'str':
            return st.fresh(c.dt)
        if v[0] == 'S' and v[1][0] == 'istr':
            n = single_name(st, v[1][1])
            if n == OTHER:
                return ask(st, 'x', name, p[1], v[1][1])
            v = ('str', n)
        if v[0] == 'S':
            return ask(st, 'x', name, p[1], v[1])
        return fn(v[1], p[1])
    return f


TABLE['core::str::<impl str>::starts_with'] = str_test(str.startswith, 'starts_with')
TABLE['core::str::<impl str>::ends_with'] = str_test(str.endswith, 'ends_with')
TABLE['core::str::<impl str>::contains'] = str_test(lambda a, b: b in a, 'contains')



def concrete_str(E, st, v):
    """python string of a string-like value; an unknown identifier forks over the named ones (None: some other name)"""
    v = strv(E, st, v)
    if v is None:
        return None
    if v[0] == 'str':
        return v[1]
    if v[1][0] == 'istr':
        n = single_name(st, v[1][1])
        if n != OTHER:
            return n
    return None


def str_pure(fn, wrap, nargs):
    def f(E, st, c):
        xs = []
        for i in range(nargs):
            a = E.strip(st, c.args[i])
            x = chr(a) if isinstance(a, int) and not isinstance(a, bool) else concrete_str(E, st, a)
            if x is None:
                if fn in (str.lower, str.upper, _low, _upp) and not i:
                    return ('?', ('recase', a), None)
                return st.fresh(c.dt)
            xs.append(x)
        try:
            return wrap(fn(*xs))
        except ValueError:
            return st.fresh(c.dt)
    return f


def _trim(left, right):
    def f(s, p):
        if not p:
            raise ValueError
        while left and s.startswith(p):
            s = s[len(p):]
        while right and s.endswith(p):
            s = s[:-len(p)]
        return s
    return f


def _w_str(x):
    return ('str', x)


def _w_ostr(x):
    return none() if x is None else some(('str', x))


def _w_oint(x):
    return none() if x < 0 else some(x)


def _upp(s):
    return ''.join(c.upper() if c.isascii() else c for c in s)


def _low(s):
    return ''.join(c.lower() if c.isascii() else c for c in s)


for n, fn, w, k in (
        ('trim', str.strip, _w_str, 1), ('trim_start', str.lstrip, _w_str, 1), ('trim_end', str.rstrip, _w_str, 1),
        ('trim_matches', _trim(True, True), _w_str, 2), ('trim_start_matches', _trim(True, False), _w_str, 2), ('trim_end_matches', _trim(False, True), _w_str, 2),
        ('trim_left_matches', _trim(True, False), _w_str, 2), ('trim_right_matches', _trim(False, True), _w_str, 2),
        ('strip_prefix', lambda s, p: s[len(p):] if s.startswith(p) else None, _w_ostr, 2),
        ('strip_suffix', lambda s, p: s[:len(s) - len(p)] if s.endswith(p) else None, _w_ostr, 2),
        ('to_lowercase', str.lower, _w_str, 1), ('to_uppercase', str.upper, _w_str, 1),
        ('to_ascii_lowercase', _low, _w_str, 1), ('to_ascii_uppercase', _upp, _w_str, 1),
        ('eq_ignore_ascii_case', lambda a, b: _low(a) == _low(b), bool, 2),
        ('is_ascii', str.isascii, bool, 1),
        ('replace', lambda s, a, b: s.replace(a, b), _w_str, 3),
        ('find', lambda s, p: len(s[:s.find(p)].encode()) if p in s else -1, _w_oint, 2)):
    TABLE['core::str::<impl str>::' + n] = TABLE['alloc::str::<impl str>::' + n] = str_pure(fn, w, k)


@model('syn::ext::IdentExt::unraw')
def m_unraw(E, st, c):
    n = concrete_str(E, st, c.args[0])
    if n is not None and not n.startswith('r#'):
        return E.strip(st, c.args[0])
    return ('str', n[2:]) if n is not None else st.fresh(c.dt)


@model('core::slice::<impl [T]>::contains')
def m_slcontains(E, st, c):
    xs = drain(E, st, to_iter(E, st, c.args[0]))
    if xs is None:
        return st.fresh(c.dt)
    for x in xs:
        r = deep_eq(E, st, x, c.args[1])
        if r is None:
            return st.fresh(c.dt)
        if r:
            return True
    return False


@model('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last')
def m_slfirst(E, st, c):
    v = E.strip(st, c.args[0])
    es = E.elems(st, v)
    if not es:
        return none()
    return some(('V', es[0] if c.ty['def'].endswith('first') else es[-1]))


@model('core::slice::<impl [T]>::get', 'core::ops::index::Index::index')
def m_slget(E, st, c):
    v = E.strip(st, c.args[0])
    i = E.strip(st, c.args[1])
    if isinstance(i, int) and type(v) is tuple and v[0] in ('arr', 'VEC'):
        es = E.elems(st, v)
        if c.ty['def'].endswith('get'):
            return some(('V', es[i])) if i < len(es) else none()
        if i >= len(es):
            raise PanicExc('index out of bounds')
        return ('V', es[i])
    if type(v) is tuple and (v[0] == 'arr' or v[0] == 'VEC' and v[1] == 'empty'):
        es = E.elems(st, v)
        b = range_bounds(E, st, i, len(es))
        if b is None:
            raise Undecided('index')
        ok = b[0] <= b[1] <= len(es)
        if c.ty['def'].endswith('get'):
            return some(('V', ('arr', tuple(es[b[0]:b[1]])))) if ok else none()
        if not ok:
            raise PanicExc('slice index out of bounds')
        return ('V', ('arr', tuple(es[b[0]:b[1]])))
    sv = strv(E, st, v)
    if sv is not None:
        r = str_slice(E, st, sv, i)
        if c.ty['def'].endswith('get'):
            return none() if r is None else some(r)
        if r is None:
            raise PanicExc('string index out of bounds or inside a character')
        return r
    if type(v) is tuple and v[0] in ('?',):
        return st.fresh(c.dt)
    raise Undecided('index')


def boundary(E, st, v, b):
    """is byte offset b of the string a character boundary (and inside)?  None: unknown"""
    if type(b) is tuple and b == S('ilen', v[1][1] if v[0] == 'S' else None):
        return True
    if not isinstance(b, int) or isinstance(b, bool):
        return None
    if v[0] == 'S' and v[1][0] == 'istr':
        n = single_name(st, v[1][1])
        if n != OTHER:
            v = ('str', n)
    if v[0] == 'str':
        bs = v[1].encode()
        return b <= len(bs) and (b == len(bs) or (bs[b] & 0xC0) != 0x80)
    if v[1][0] != 'istr':
        return None
    pos = v[1][1]
    if b == 0:
        return True
    if st.aux.get('idlen'):
        n = spelled_len(st, pos)
        at = 0
        for i in range(n):
            ch = S('chr', v[1], i)
            at += 1 if ask_char(st, ch, ((0, 127),)) else 2 if ask_char(st, ch, ((128, 2047),)) else 3 if ask_char(st, ch, ((2048, 65535),)) else 4
            if at >= b:
                break
        return at == b
    if any(mentions_key(k, v[1]) for k in st.facts if k[0] in ('c', 'x')):
        return None         # something is known about its characters
    if not Models.sym_binop(None, E, st, 'Ge', S('ilen', pos), b):
        return False
    lo, hi = st.facts.get(('ilen', pos), (1, None))
    if lo == hi == b:
        return True
    return not ask(st, 'midchar', pos, b)


def mentions_key(k, x):
    return k == x or type(k) is tuple and any(mentions_key(y, x) for y in k)


def range_bounds(E, st, i, n):
    """(lo, hi) of a range over n elements, None if unknown"""
    if type(i) is not tuple or i[0] != 'A' or 'range::Range' not in i[1]:
        return None
    k = i[1].rsplit('::', 1)[-1]
    es = [E.res(st, E.strip(st, x)) for x in i[3]]
    if any(not isinstance(x, int) or isinstance(x, bool) for x in es[:2]):
        return None
    return {'RangeTo': lambda: (0, es[0]), 'RangeFrom': lambda: (es[0], n), 'Range': lambda: (es[0], es[1]), 'RangeFull': lambda: (0, n),
            'RangeToInclusive': lambda: (0, es[0] + 1), 'RangeInclusive': lambda: (es[0], es[1] + 1)}.get(k, lambda: None)()


@model('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def m_slsplitfirst(E, st, c):
    v = E.strip(st, c.args[0])
    if type(v) is not tuple or not (v[0] == 'arr' or v[0] == 'VEC' and v[1] == 'empty'):
        raise Undecided('split of an unknown slice')
    es = E.elems(st, v)
    if not es:
        return none()
    a, b = (es[0], es[1:]) if c.ty['def'].endswith('first') else (es[-1], es[:-1])
    return some(('t', (('V', a), ('V', ('arr', tuple(b))))))


@model('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_checked')
def m_slsplitat(E, st, c):
    v, i = E.strip(st, c.args[0]), E.res(st, E.strip(st, c.args[1]))
    if type(v) is not tuple or not (v[0] == 'arr' or v[0] == 'VEC' and v[1] == 'empty') or not isinstance(i, int):
        raise Undecided('split of an unknown slice')
    es = E.elems(st, v)
    if i > len(es):
        if c.ty['def'].endswith('checked'):
            return none()
        raise PanicExc('split_at out of bounds')
    r = ('t', (('V', ('arr', tuple(es[:i]))), ('V', ('arr', tuple(es[i:])))))
    return some(r) if c.ty['def'].endswith('checked') else r


@model('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def m_slstarts(E, st, c):
    v, w = E.strip(st, c.args[0]), E.strip(st, c.args[1])
    a, b = E.elems(st, v), E.elems(st, w)
    if len(b) > len(a):
        return False
    for x, y in zip(a if c.ty['def'].endswith('starts_with') else a[len(a) - len(b):], b):
        r = deep_eq(E, st, x, y)
        if r is None:
            raise Undecided('slice comparison')
        if not r:
            return False
    return True


def str_slice(E, st, v, i):
    """-> slice value | None (panic)"""
    if type(i) is not tuple or i[0] != 'A' or 'ops::range::Range' not in i[1]:
        return st.fresh(None)
    k = i[1].rsplit('::', 1)[-1]
    es = [E.res(st, E.strip(st, x)) for x in i[3]]
    lo, hi = {'RangeTo': (0, 'E0'), 'RangeFrom': ('E0', 'len'), 'Range': ('E0', 'E1'), 'RangeFull': (0, 'len'), 'RangeToInclusive': (0, 'E0+')}.get(k, (None, None))
    if lo is None:
        return st.fresh(None)

    def val(x):
        if x == 'E0' or x == 'E1':
            return es[int(x[1])]
        if x == 'E0+':
            return es[0] + 1 if isinstance(es[0], int) else es[0]
        return x
    lo, hi = val(lo), val(hi)
    if isinstance(lo, int) and isinstance(hi, int) and lo > hi:
        return None
    for b in (lo, hi):
        if b != 'len' and boundary(E, st, v, b) is False:
            return None
    if v[0] == 'S' and v[1][0] == 'istr' and single_name(st, v[1][1]) != OTHER:
        v = ('str', single_name(st, v[1][1]))
    if v[0] == 'str' and isinstance(lo, int) and (hi == 'len' or isinstance(hi, int)):
        bs = v[1].encode()
        return ('str', bs[lo:None if hi == 'len' else hi].decode())
    if lo == 0 and hi == 'len':
        return v
    return st.fresh(None)


@model('core::str::<impl str>::is_char_boundary')
def m_boundary(E, st, c):
    v = strv(E, st, c.args[0])
    r = boundary(E, st, v, E.res(st, E.strip(st, c.args[1]))) if v is not None else None
    return st.fresh(c.dt) if r is None else r


@model('core::str::<impl str>::split_at', 'core::str::<impl str>::split_at_checked', 'core::str::<impl str>::get')
def m_splitat(E, st, c):
    v = strv(E, st, c.args[0])
    i = E.res(st, E.strip(st, c.args[1]))
    if v is None:
        return st.fresh(c.dt)
    if c.ty['def'].endswith('get'):
        r = str_slice(E, st, v, i)
        return none() if r is None else some(r)
    r = boundary(E, st, v, i)
    if r is False:
        if c.ty['def'].endswith('checked'):
            return none()
        raise PanicExc('split inside a character or behind the end')
    return st.fresh(c.dt)


@model('core::cmp::Ord::min', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::max')
def m_minmax(E, st, c):
    a, b = (E.res(st, E.strip(st, x)) for x in c.args)
    mn = c.ty['def'].endswith('min')
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b) if mn else max(a, b)
    r = None
    if type(a) is tuple and a[0] == 'S' or type(b) is tuple and b[0] == 'S':
        r = E.models.sym_binop(E, st, 'Le', a, b)
    if r is None:
        return st.fresh(c.dt)
    return a if r == mn else b


def char_class(cs):
    def f(E, st, c):
        v = E.strip(st, c.args[0])
        s = cs() if callable(cs) else cs
        if isinstance(v, int):
            return any(a <= v <= b for a, b in s)
        if type(v) is tuple and v[0] == 'S' and v[1][0] == 'chr':
            return ask_char(st, v, s)
        return st.fresh(c.dt)
    return f


for owner in ('core::char::methods::<impl char>::', 'core::num::<impl u8>::'):
    TABLE[owner + 'is_ascii_lowercase'] = char_class(((97, 122),))
    TABLE[owner + 'is_ascii_uppercase'] = char_class(((65, 90),))
    TABLE[owner + 'is_ascii_digit'] = char_class(((48, 57),))
    TABLE[owner + 'is_ascii_alphabetic'] = char_class(((65, 90), (97, 122)))
    TABLE[owner + 'is_ascii_alphanumeric'] = char_class(((48, 57), (65, 90), (97, 122)))
    TABLE[owner + 'is_ascii'] = char_class(((0, 127),))
    TABLE[owner + 'is_ascii_punctuation'] = char_class(((33, 47), (58, 64), (91, 96), (123, 126)))
    TABLE[owner + 'is_ascii_hexdigit'] = char_class(((48, 57), (65, 70), (97, 102)))
C = 'core::char::methods::<impl char>::'
TABLE[C + 'is_lowercase'] = char_class(lambda: uniset('lower'))
TABLE[C + 'is_uppercase'] = char_class(lambda: uniset('upper'))
TABLE[C + 'is_alphabetic'] = char_class(lambda: uniset('alpha'))
TABLE[C + 'is_alphanumeric'] = char_class(lambda: uniset('alnum'))
TABLE[C + 'is_numeric'] = char_class(lambda: uniset('num'))


@model(C + 'is_digit')
def m_isdigit(E, st, c):
    r = c.args[1]
    s = [(48, 48 + min(r, 10) - 1)] + ([(65, 65 + r - 11), (97, 97 + r - 11)] if r > 10 else [])
    return char_class(tuple(s))(E, st, c)


@model('core::ops::range::RangeInclusive::<Idx>::contains', 'core::ops::range::Range::<Idx>::contains')
def m_rcontains(E, st, c):
    r = E.strip(st, c.args[0])
    v = E.strip(st, c.args[1])
    if r[0] == 'A':
        lo, hi = r[3][0], r[3][1]
        if isinstance(lo, int) and isinstance(hi, int):
            if not c.ty['def'].startswith('core::ops::range::RangeInclusive'):
                hi -= 1
            if isinstance(v, int):
                return lo <= v <= hi
            if type(v) is tuple and v[0] == 'S' and v[1][0] == 'chr':
                return ask_char(st, v, ((lo, hi),))
    return st.fresh(c.dt)


@model('core::ops::range::RangeInclusive::<Idx>::new')
def m_rinew(E, st, c):
    return ('A', 'core::ops::range::RangeInclusive', 0, (c.args[0], c.args[1], False))


def pred_set(E, st, f, kind):
    """set of characters for which the predicate is true (the predicate may not depend on anything else)"""
    yes = []
    base = ((0, 255),) if kind == 'bytes' else FULL
    ch = S('chr', 'probe', 0)
    s0 = st.copy()
    s0.facts = dict(st.facts)
    s0.facts[('c', ch)] = base
    work = [s0]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > 400:
            raise Undecided('character predicate')
        keep = s.copy()
        try:
            r = E.run_det(s, f, [ch])
        except Fork as fk:
            for m in fk.alts:
                t = keep.copy()
                m(t)
                if set(t.facts) - set(s0.facts):
                    raise Undecided('character predicate depends on more than the character')
                work.append(t)
            continue
        if not isinstance(r, bool):
            raise Undecided('character predicate')
        if r:
            yes += list(s.facts[('c', ch)])
    return CharSet.norm(yes)


def bytes_to_chars(cs):
    # a non-ASCII character consists of bytes >= 128
    hi = CharSet.inter(cs, ((128, 255),))
    lo = CharSet.inter(cs, ((0, 127),))
    if hi not in ((), ((128, 255),)):
        raise Undecided('byte predicate')
    return CharSet.norm(list(lo) + ([(128, MAXCH)] if hi else []))


def str_pred(E, st, it, f, kind):
    cs = pred_set(E, st, f, it[4])
    if it[4] == 'bytes':
        cs = bytes_to_chars(cs)
    if kind == 'any':
        return not str_all(E, st, it[2], CharSet.minus(FULL, cs))
    return str_all(E, st, it[2], cs)


def str_all(E, st, term, cs):
    """are all characters of the unknown string in cs?"""
    key = ('x', 'strall', term, cs)
    if key in st.facts:
        return st.facts[key]
    for k, v in st.facts.items():
        if k[0] == 'x' and k[1] == 'strall' and k[2] == term:
            if v and not CharSet.minus(k[3], cs):
                return True
            if not v and not CharSet.minus(cs, k[3]):
                return False
    return ask(st, *key)


# --------------------------------------------------------------- formatting
def spy(E, st, c):
    f = getattr(E.client, 'opaque_call', None)
    if f:
        f(E, st, c.ty['def'], [E.strip(st, a) for a in c.args])


def opaque(E, st, c):
    spy(E, st, c)
    return ('?', ('fmt', c.ty['def'], st.uid), c.dt)


def cat(*pieces):
    """a text made of constants and terms (identifiers as text, other values)"""
    out = []
    for p in pieces:
        for q in (p[1][1:] if type(p) is tuple and p[0] == 'S' and p[1][0] == 'cat' else (p[1],) if type(p) is tuple and p[0] == 'str' else (p,)):
            if type(q) is str and out and type(out[-1]) is str:
                out[-1] += q
            elif q != '':
                out.append(q)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return ('str', out[0]) if type(out[0]) is str else out[0]
    return S('cat', *out)


def text_of(E, st, v):
    """what Display writes for v"""
    x = strv(E, st, v)
    if x is not None:
        return x
    v = E.strip(st, v)
    if isinstance(v, int) and not isinstance(v, bool):
        return ('str', str(v))
    if type(v) is tuple and v[0] == 'S' and v[1][0] in ('cat', 'text'):
        return v
    return S('text', v)


@model("core::fmt::rt::Argument::<'_>::new_display")
def m_fmtdisplay(E, st, c):
    spy(E, st, c)
    v = E.strip(st, c.args[0])
    if isinstance(v, int):
        return S('fmtarg', S('text', v))
    return S('fmtarg', text_of(E, st, c.args[0]))


@model("core::fmt::rt::Argument::<'_>::new_debug")
def m_fmtdebug(E, st, c):
    spy(E, st, c)
    return S('fmtarg', S('text', ('debug', E.strip(st, c.args[0]))))


def template(bs):
    """decode the template of fmt::Arguments: pieces (str) and argument numbers (int); None when not understood"""
    out, i, arg = [], 0, 0
    while True:
        n = bs[i]
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(bs[i:i + n]).decode())
            i += n
        elif n == 0x80:
            k = bs[i] | bs[i + 1] << 8
            out.append(bytes(bs[i + 2:i + 2 + k]).decode())
            i += 2 + k
        elif n == 0xC0:
            out.append(arg)
            arg += 1
        else:
            return None


@model("core::fmt::Arguments::<'a>::new", "core::fmt::Arguments::<'a>::new_const", "core::fmt::Arguments::<'a>::new_v1")
def m_fmtargs(E, st, c):
    t = E.strip(st, c.args[0])
    args = E.strip(st, c.args[1]) if len(c.args) > 1 else ('arr', ())
    if type(t) is tuple and t[0] == 'arr' and all(isinstance(x, int) for x in t[1]) and type(args) is tuple and args[0] == 'arr':
        ps = template(t[1])
        if ps is not None:
            out = []
            for p in ps:
                if isinstance(p, int):
                    x = E.strip(st, args[1][p]) if p < len(args[1]) else None
                    out.append(x[1][1] if type(x) is tuple and x[0] == 'S' and x[1][0] == 'fmtarg' else S('text', x))
                else:
                    out.append(('str', p))
            return S('fmt', cat(*out))
    return opaque(E, st, c)


@model("core::fmt::Arguments::<'a>::from_str")
def m_fmtstr(E, st, c):
    x = text_of(E, st, c.args[0])
    return S('fmt', x)


@model('alloc::fmt::format')
def m_fmtformat(E, st, c):
    x = E.strip(st, c.args[0])
    if type(x) is tuple and x[0] == 'S' and x[1][0] == 'fmt':
        return x[1][1]
    return opaque(E, st, c)


@model('alloc::string::String::new')
def m_strnew(E, st, c):
    return ('str', '')


@model('alloc::string::String::push_str', 'alloc::string::String::push')
def m_pushstr(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == 'str' or v[0] == 'S' and v[1][0] in ('cat', 'text', 'istr'):
        x = ('str', chr(c.args[1])) if isinstance(c.args[1], int) else text_of(E, st, c.args[1])
        E.store_ref(st, r, cat(v, x))
    else:
        E.store_ref(st, r, st.fresh(None))
    return UNIT


@model('core::fmt::Write::write_fmt', 'core::fmt::Write::write_str')
def m_writefmt(E, st, c):
    r, v = vecref(E, st, c.args[0])
    x = E.strip(st, c.args[1])
    if type(x) is tuple and x[0] == 'S' and x[1][0] == 'fmt':
        x = x[1][1]
    else:
        x = strv(E, st, c.args[1])
    if x is None or not (v[0] == 'str' or v[0] == 'S' and v[1][0] in ('cat', 'text', 'istr')):
        raise Undecided('write_fmt')
    E.store_ref(st, r, cat(v, x))
    return ok(UNIT)


@model('alloc::slice::<impl [T]>::join', 'alloc::slice::<impl [T]>::concat')
def m_join(E, st, c):
    v = E.strip(st, c.args[0])
    sep = text_of(E, st, c.args[1]) if len(c.args) > 1 else ('str', '')
    if v[0] == 'arr':
        xs = v[1]
    elif v[0] == 'VEC' and v[1] == 'empty':
        xs = v[2]
    else:
        return st.fresh(c.dt)
    out = []
    for i, x in enumerate(xs):
        if i:
            out.append(sep)
        out.append(text_of(E, st, x))
    return cat(*out)


def m_panic(E, st, c):
    raise PanicExc(c.ty['def'])


for n in ('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::unreachable_default_msg',
          'core::panicking::panic_explicit', 'core::option::unwrap_failed', 'core::option::expect_failed',
          'core::result::unwrap_failed', 'core::panicking::panic_bounds_check', 'std::rt::begin_panic',
          'core::panicking::unreachable_display', 'core::panicking::panic_display', 'core::panicking::panic_str_2015'):
    TABLE[n] = m_panic


@model('core::mem::take')
def m_take(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if v[0] == 'VEC':
        E.store_ref(st, r, ('VEC', 'empty', ()))
    elif v[0] == 'A' and v[1].endswith('Option'):
        E.store_ref(st, r, none())
    elif v[0] == 'MAP':
        E.store_ref(st, r, ('MAP', 'empty', ()))
    elif isinstance(v, bool):
        E.store_ref(st, r, False)
    else:
        raise Undecided('take')
    return v


@model('core::mem::replace', 'core::option::Option::<T>::replace')
def m_replace(E, st, c):
    r, v = vecref(E, st, c.args[0])
    nv = c.args[1]
    if c.ty['def'].startswith('core::option'):
        nv = some(nv)
    E.store_ref(st, r, nv)
    return v


@model('core::option::Option::<T>::insert')
def m_optinsert(E, st, c):
    r, v = vecref(E, st, c.args[0])
    E.store_ref(st, r, some(c.args[1]))
    return ('V', c.args[1])


@model('core::option::Option::<T>::take')
def m_opttake(E, st, c):
    r, v = vecref(E, st, c.args[0])
    E.store_ref(st, r, none())
    return v


# ------------------------------------------------------------- quote::ToTokens
def emit(E, st, r, *events):
    r, v = vecref(E, st, r)
    if v[0] != 'TS':
        raise Undecided('token stream')
    E.store_ref(st, r, ('TS', v[1] + tuple(events)))


@model('quote::to_tokens::ToTokens::to_tokens')
def m_to_tokens(E, st, c):
    v = E.strip(st, c.args[0])
    if type(v) is tuple and (v[0] == 'TS' or group_val(E, st, v)):
        es = events_of(E, st, v)
        if es is None:
            raise Undecided('emitted tokens')
        emit(E, st, c.args[1], *es)
    else:
        emit(E, st, c.args[1], ('emit', v))
    return UNIT


@model('proc_macro2::TokenStream::new')
def m_tsnew(E, st, c):
    return ('TS', ())


def m_surround(kind):
    def f(E, st, c):
        tok = E.strip(st, c.args[0])
        st.uid += 1
        key = (-1, ('ts', st.uid))
        st.mem[key] = ('TS', ())
        ref = ('R', key, (), True)
        E.run_det(st, c.args[2], [ref])
        inner = st.mem[key][1]
        emit(E, st, c.args[1], ('group', kind, tok, inner))
        return UNIT
    return f


for k in ('Paren', 'Bracket', 'Brace'):
    TABLE['syn::token::%s::surround' % k] = m_surround(k)


# groups built by hand: what `surround` does, step by step
TT_T = 'proc_macro2::TokenTree'
DELIM_KIND = ('Paren', 'Brace', 'Bracket', 'None')


def group_val(E, st, v):
    v = E.strip(st, v)
    if type(v) is tuple and v[0] == 'A' and v[1] == TT_T:
        v = E.strip(st, v[3][0])
    return v if type(v) is tuple and v[0] == 'A' and v[1] == 'proc_macro2::Group' else None


def group_event(E, st, v):
    """the event of an emitted group, or None"""
    g = group_val(E, st, v)
    if g is None:
        return None
    d, span, ts = (E.strip(st, x) for x in g[3])
    if not (type(d) is tuple and d[0] == 'A' and d[1] == 'proc_macro2::Delimiter' and type(ts) is tuple and ts[0] == 'TS'):
        return None
    if type(span) is not tuple or span[0] != 'S' or span[1][0] not in ('join', 'callsite', 'open', 'close'):
        return None
    if span[1][0] == 'join':
        t = span[1][1]
        # the field `span` of the token
        return ('group', DELIM_KIND[d[2]], ('S', t[1]), ts[1]) if t[0] == 'fld' and type(t[1]) is tuple and t[2] == 0 else None
    return ('group', DELIM_KIND[d[2]], span, ts[1])


@model('proc_macro2::Group::new')
def m_groupnew(E, st, c):
    return ('A', 'proc_macro2::Group', 0, (c.args[0], S('callsite'), c.args[1]))


@model('proc_macro2::Group::set_span')
def m_groupspan(E, st, c):
    r, v = vecref(E, st, c.args[0])
    if group_val(E, st, v) is None:
        raise Undecided('group')
    E.store_ref(st, r, v[:3] + ((v[3][0], c.args[1], v[3][2]),))
    return UNIT


for n in ('join', 'open', 'close'):
    def f(E, st, c, n=n):
        v = E.strip(st, c.args[0])
        return S(n, v[1]) if type(v) is tuple and v[0] == 'S' else st.fresh(c.dt)
    TABLE['proc_macro2::extra::DelimSpan::' + n] = f


def events_of(E, st, v):
    """what appending v (a group, a token tree, tokens, or a sequence of them) emits, or None"""
    v = E.strip(st, v)
    if type(v) is tuple and v[0] == 'TS':
        return v[1]
    e = group_event(E, st, v)
    if e:
        return (e,)
    try:
        xs = drain(E, st, to_iter(E, st, v))
    except Undecided:
        return None
    if xs is None:
        return None
    out = []
    for x in xs:
        y = events_of(E, st, x)
        if y is None:
            return None
        out += y
    return tuple(out)


@model('quote::ext::TokenStreamExt::append', 'quote::ext::TokenStreamExt::append_all')
def m_append(E, st, c):
    es = events_of(E, st, c.args[1])
    if es is None:
        raise Undecided('appended tokens')
    emit(E, st, c.args[0], *es)
    return UNIT


@model('syn::mac::MacroDelimiter::span')
def m_mdspan(E, st, c):
    v = E.strip(st, c.args[0])
    if type(v) is tuple and v[0] == 'A' and type(v[3][0]) is tuple and v[3][0][0] == 'S':
        return ('V', S('fld', v[3][0][1], 0))
    return st.fresh(c.dt)


@model('quote::to_tokens::ToTokens::to_token_stream', 'quote::to_tokens::ToTokens::into_token_stream')
def m_totokenstream(E, st, c):
    v = E.strip(st, c.args[0])
    es = events_of(E, st, v) if type(v) is tuple and (v[0] == 'TS' or group_val(E, st, v)) else (('emit', v),)
    return ('TS', es) if es is not None else st.fresh(c.dt)

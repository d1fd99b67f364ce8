"""Abstract interpreter over the resolved MIR that `mirdump` extracts.

The analysed program is never executed.  Values are abstract:

  bool / int                       known scalars (characters are their code point)
  ('str', s)                       known string (String or &str)
  ('A', def, variant, fields)      structs / enums, ('t', fields) tuples, ('arr', elems) arrays
  ('C', type, upvars) ('F', type)  closures and function items
  ('R', cell, proj, mut)           reference into abstract memory
  ('V', value)                     reference to an immutable value
  ('B', id)                        parse buffer; its position is kept in the state
  ('VEC', base, elems) ('MAP', base, entries) ('TS', events)   collections (value semantics)
  ('IT', ...)                      iterators
  ('S', term)                      symbol derived from the token stream (see models.py)
  ('?', id, type)                  unknown
  ('G', slot, alternatives)        value that is a function of a specification slot
  ('ge', n)                        some integer >= n

Whenever the analysis needs a fact it does not have it raises `Fork`; the step
is then repeated in one copy of the abstract state per alternative.  Loops are
closed by merging states at loop heads (fixpoint), so the result covers inputs of
every length.
"""
import json, re, sys

sys.setrecursionlimit(10000)


class Undecided(Exception):
    pass


class Fork(Exception):
    def __init__(self, alts):
        self.alts = alts  # list of functions mutating a state copy


class PanicExc(Exception):
    pass


class Diverge(Exception):
    """the path goes round without end"""


def erase(s):
    return re.sub(r"'(?!_\b|static\b)[a-z]\w*\b(?!')", "'_", s)


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d['types']
        for t in self.types:        # a lifetime has no bearing on what a parser does
            t['s'] = erase(t['s'])
        self.adts = d['adts']
        self.roots = d['roots']
        self.bodies = {b['id']: b for b in d['bodies']}
        self.crate = d['crate']
        self.by_path = {}
        for b in d['bodies']:
            self.by_path.setdefault(b['path'], []).append(b)
        self._heads = {}
        self._adt_last = {}
        for p in self.adts:
            self._adt_last.setdefault(p.rsplit('::', 1)[-1], []).append(p)

    def ts(self, tid):
        return None if tid is None else self.types[tid]['s']

    def heads(self, body):
        k = id(body)
        if k in self._heads:
            return self._heads[k]
        heads = set()
        color = {}
        st = [(0, iter(succs(body['blocks'][0])))]
        color[0] = 1
        while st:
            b, it = st[-1]
            for s in it:
                if color.get(s, 0) == 0:
                    color[s] = 1
                    st.append((s, iter(succs(body['blocks'][s]))))
                    break
                elif color[s] == 1:
                    heads.add(s)
            else:
                color[b] = 2
                st.pop()
        self._heads[k] = heads
        return heads


def succs(bl):
    if bl is None:
        return []
    t = bl['t']
    k = t['t']
    if k in ('goto', 'drop', 'assert'):
        return [t['to']]
    if k == 'call':
        return [t['to']] if t['to'] is not None else []
    if k == 'switch':
        return [x[1] for x in t['ts']] + [t['else']]
    return []


class Frame:
    __slots__ = ('body', 'block', 'stmt', 'dest', 'to', 'snap', 'depth', 'post', 'call')

    def __init__(self, body, block, stmt, dest, to, depth, snap=None, post=None, call=None):
        self.call = call
        self.body, self.block, self.stmt = body, block, stmt
        self.dest, self.to, self.snap, self.depth, self.post = dest, to, snap, depth, post

    def copy(self):
        return Frame(self.body, self.block, self.stmt, self.dest, self.to, self.depth, self.snap, self.post, self.call)


class Snap:
    """state before a call of a side-effect free function (used to havoc it)"""
    __slots__ = ('st', 'inst', 'ret', 'steps', 'done')

    def __init__(self, st, inst, ret):
        self.st, self.inst, self.ret, self.steps, self.done = st, inst, ret, 0, False


class St:
    __slots__ = ('mem', 'bufs', 'facts', 'frames', 'spec', 'uid', 'taint', 'sync', 'visits', 'trace', 'aux')

    def __init__(self):
        self.mem = {}
        self.bufs = {}
        self.facts = {}
        self.frames = []
        self.spec = None
        self.uid = 0
        self.taint = 0
        self.sync = None
        self.visits = {}
        self.trace = ()
        self.aux = {}

    def copy(self):
        n = St.__new__(St)
        n.mem = dict(self.mem)
        n.bufs = dict(self.bufs)
        n.facts = dict(self.facts)
        n.frames = [f.copy() for f in self.frames]
        n.spec = self.spec
        n.uid = self.uid
        n.taint = self.taint
        n.sync = self.sync
        n.visits = dict(self.visits)
        n.trace = self.trace
        n.aux = dict(self.aux)
        return n

    def fresh(self, tid=None):
        self.uid += 1
        return ('?', self.uid, tid)


def is_ref(v):
    return type(v) is tuple and v and v[0] in ('R', 'V')


UNIT = ('t', ())


def none(E=None):
    return ('A', 'core::option::Option', 0, ())


def some(v):
    return ('A', 'core::option::Option', 1, (v,))


def ok(v):
    return ('A', 'core::result::Result', 0, (v,))


def err(v):
    return ('A', 'core::result::Result', 1, (v,))


class Engine:
    MAX_STEPS = 400000
    SNAP_STEPS = 1500

    def __init__(self, prog, models, client):
        self.p = prog
        self.models = models
        self.client = client
        self.blown = set()
        self.steps = 0
        self.nforks = 0
        self.path_steps = 60000

    # ------------------------------------------------------------- places
    def cell(self, st, depth, local):
        return (depth, local)

    def load_cell(self, st, key):
        v = st.mem.get(key)
        if v is None:
            raise Undecided('read of uninitialised cell')
        return v

    def resolve(self, st, v):
        """make the outermost constructor of v known"""
        if type(v) is tuple and v[0] == 'G':
            self.client.resolve_g(self, st, v)
        return v

    def proj_get(self, st, v, proj):
        for i, e in enumerate(proj):
            k = e[0]
            if type(v) is tuple and v[0] == 'G':
                self.client.resolve_g(self, st, v)
            if k == '*':
                v = self.deref(st, v)
            elif k == 'f':
                v = self.field(st, v, e[1])
            elif k == 'v':
                v = self.downcast(st, v, e[1])
            elif k == 'i':
                idx = e[1]
                if isinstance(idx, tuple):
                    idx = self.load_cell(st, idx)
                v = self.index(st, v, idx)
            elif k == 'ci':
                off, mn, fe = e[1], e[2], e[3]
                v = self.elems(st, v)[-off if fe else off]
            elif k == 'sub':
                es = self.elems(st, v)
                v = ('arr', tuple(es[e[1]:len(es) - e[2] if e[3] else e[2]]))
            else:
                raise Undecided('projection ' + k)
        return v

    def elems(self, st, v):
        if type(v) is tuple and v[0] == 'arr':
            return v[1]
        if type(v) is tuple and v[0] == 'VEC' and v[1] == 'empty':
            return v[2]
        raise Undecided('elements of unknown slice')

    def index(self, st, v, idx):
        es = self.elems(st, v)
        if not isinstance(idx, int) or isinstance(idx, bool):
            raise Undecided('index')
        if idx >= len(es):
            raise PanicExc('index out of bounds')
        return es[idx]

    def deref(self, st, v):
        if type(v) is tuple:
            if v[0] == 'V':
                return v[1]
            if v[0] == 'R':
                return self.proj_get(st, self.load_cell(st, v[1]), v[2])
            if v[0] in ('str', 'S', 'B', 'VEC'):
                return v  # &str, opaque references
            if v[0] == '?':
                t = self.p.types[v[2]] if v[2] is not None else None
                return ('?', (v[1], '*'), t.get('t') if t else None)
            if v[0] == 'A' and v[1].endswith('boxed::Box'):
                return v[3][0]
        raise Undecided('deref of %r' % (v,))

    def field(self, st, v, i):
        if type(v) is tuple:
            k = v[0]
            if k == 'A':
                return v[3][i]
            if k == 't':
                return v[1][i]
            if k == 'C':
                return v[2][i]
            if k == '?':
                return ('?', (v[1], 'f', i), None)
            if k == 'S':
                return self.models.sym_field(self, st, v, i)
        raise Undecided('field of %r' % (v,))

    def downcast(self, st, v, vi):
        if type(v) is tuple:
            if v[0] == 'A':
                if v[2] != vi:
                    raise Undecided('downcast mismatch')
                return v
            if v[0] == '?':
                return ('A', '?', vi, _LazyFields(v))
            if v[0] == 'S':
                r = self.models.sym_downcast(self, st, v, vi)
                if r is not None:
                    return r
        raise Undecided('downcast of %r' % (v,))

    def place_ref(self, st, depth, pl):
        """place -> ('R', cell, proj, mut) or ('V', value)"""
        local, proj = pl
        key = (depth, local)
        cur = ('R', key, (), True)
        for e in proj:
            k = e[0]
            if k == '*':
                tgt = self.deref_raw(st, cur)
                if type(tgt) is tuple and tgt[0] == 'G':
                    self.client.resolve_g(self, st, tgt)
                if is_ref(tgt):
                    cur = tgt
                else:
                    cur = ('V', self.deref(st, tgt))
            else:
                if k == 'i':
                    e = ('i', self.load_cell(st, (depth, e[1])))
                else:
                    e = tuple(e)
                if cur[0] == 'V':
                    cur = ('V', self.proj_get(st, cur[1], (e,)))
                else:
                    cur = ('R', cur[1], cur[2] + (e,), cur[3])
        return cur

    def deref_raw(self, st, ref):
        if ref[0] == 'V':
            return ref[1]
        return self.proj_get(st, self.load_cell(st, ref[1]), ref[2])

    def load(self, st, depth, pl):
        r = self.place_ref(st, depth, pl)
        return self.deref_raw(st, r)

    def store_ref(self, st, ref, val):
        if ref[0] != 'R':
            raise Undecided('store through immutable reference')
        key, proj = ref[1], ref[2]
        if not proj:
            st.mem[key] = val
        else:
            st.mem[key] = self.upd(st, st.mem.get(key), proj, val)

    def upd(self, st, v, proj, val):
        if not proj:
            return val
        if type(v) is tuple and v[0] == 'G':
            self.client.resolve_g(self, st, v)
        e = proj[0]
        if e[0] == 'f':
            if v is None:
                raise Undecided('partial init')
            i = e[1]
            if v[0] in ('A',):
                fs = list(v[3])
                fs[i] = self.upd(st, fs[i], proj[1:], val)
                return ('A', v[1], v[2], tuple(fs))
            if v[0] == 't':
                fs = list(v[1])
                fs[i] = self.upd(st, fs[i], proj[1:], val)
                return ('t', tuple(fs))
            if v[0] == 'C':
                fs = list(v[2])
                fs[i] = self.upd(st, fs[i], proj[1:], val)
                return ('C', v[1], tuple(fs))
        if e[0] == 'v':
            return self.upd(st, self.downcast(st, v, e[1]), proj[1:], val)
        if e[0] == 'i':
            es = list(self.elems(st, v))
            es[e[1]] = self.upd(st, es[e[1]], proj[1:], val)
            return (v[0],) + ((tuple(es),) if v[0] == 'arr' else (v[1], tuple(es)))
        raise Undecided('update %r' % (e,))

    def store(self, st, depth, pl, val):
        self.store_ref(st, self.place_ref(st, depth, pl), val)

    # ------------------------------------------------------------ constants
    def const(self, st, c, frame_body):
        v = c['v']
        return self.constval(st, v, c['t'], frame_body)

    def constval(self, st, v, tid, body):
        if v is True or v is False:
            return v
        if isinstance(v, dict):
            if 'int' in v:
                return v['int']
            if 'char' in v:
                return v['char']
            if 'str' in v:
                return ('str', v['str'])
            if 'promoted' in v:
                return self.promoted(body, v['promoted'])
            if 'refto' in v:
                return ('V', self.constval(st, v['refto'], None, body))
            if 'array' in v:
                return ('arr', tuple(self.constval(st, x, None, body) for x in v['array']))
            if 'bytes' in v:
                return ('V', ('arr', tuple(v['bytes'])))
            if 'agg' in v:
                fs = tuple(('?', ('const', id(x)), None) if x is None else self.constval(st, x, None, body) for x in v['f'])
                return ('t', fs) if v['agg'] is None else ('A', v['agg'], v['v'], fs)
        if v in ('fn', 'zst'):
            t = self.p.types[tid] if tid is not None else {'k': '?'}
            if t['k'] == 'fndef':
                return ('F', tid)
            if t['k'] == 'closure':
                return ('C', tid, ())
            if t['k'] == 'adt':
                return ('A', t['def'], 0, ())
            return UNIT
        return ('?', ('const', tid), tid)

    def promoted(self, body, n):
        key = (id(body), n)
        c = self.p.__dict__.setdefault('_prom', {})
        if key in c:
            return c[key]
        pb = body['promoted'][n]
        st = St()
        # straight-line evaluation; references become ('V', value)
        mem = {}
        b = 0
        while True:
            bl = pb['blocks'][b]
            for pl, rv in bl['s']:
                if rv is None:
                    continue
                val = self.prom_rv(st, rv, mem, pb, body)
                if pl[1]:
                    raise Undecided('promoted')
                mem[pl[0]] = val
            t = bl['t']
            if t['t'] == 'return':
                break
            if t['t'] == 'goto':
                b = t['to']
                continue
            mem[0] = ('?', ('prom', body['path'], n), pb['locals'][0])
            break
        c[key] = mem[0]
        return mem[0]

    def prom_op(self, st, o, mem, pb, body):
        if 'k' in o:
            return self.constval(st, o['k']['v'], o['k']['t'], body)
        pl = o.get('c') or o.get('m')
        v = mem[pl[0]]
        for e in pl[1]:
            v = self.proj_get(st, v, (tuple(e),))
        return v

    def prom_rv(self, st, rv, mem, pb, body):
        r = rv['r']
        if r == 'use':
            return self.prom_op(st, rv['o'], mem, pb, body)
        if r == 'ref':
            v = mem[rv['p'][0]]
            for e in rv['p'][1]:
                v = self.proj_get(st, v, (tuple(e),))
            if type(v) is tuple and v[0] == 'str' and rv['p'][1]:
                return v
            return ('V', v)
        if r == 'agg':
            return self.agg(rv, [self.prom_op(st, o, mem, pb, body) for o in rv['o']])
        if r == 'cast':
            return self.prom_op(st, rv['o'], mem, pb, body)
        raise Undecided('promoted rvalue ' + r)

    def agg(self, rv, ops):
        k = rv['ak']
        if k == 'array':
            return ('arr', tuple(ops))
        if k == 'tuple':
            return ('t', tuple(ops))
        if k == 'adt':
            return ('A', rv['def'], rv['v'], tuple(ops))
        if k == 'closure':
            return ('C', rv['t'], tuple(ops))
        if k == 'rawptr':
            return ops[0]
        raise Undecided('aggregate')

    # ------------------------------------------------------------- rvalues
    def operand(self, st, fr, o):
        if 'k' in o:
            return self.const(st, o['k'], fr.body)
        return self.load(st, fr.depth, o.get('c') or o.get('m'))

    def rvalue(self, st, fr, rv):
        r = rv['r']
        if r == 'use':
            return self.operand(st, fr, rv['o'])
        if r == 'ref':
            ref = self.place_ref(st, fr.depth, rv['p'])
            if ref[0] == 'R':
                if rv['mut']:
                    return ref
                # reborrow of a &str / opaque handle keeps the handle itself
                if rv['p'][1] and rv['p'][1][-1][0] == '*':
                    v = self.deref_raw(st, ref)
                    if type(v) is tuple and v[0] in ('str',):
                        return v
                return ('R', ref[1], ref[2], False)
            v = ref[1]
            if type(v) is tuple and v[0] in ('str', 'S', 'B') and rv['p'][1] and rv['p'][1][-1][0] == '*':
                return v
            return ref
        if r == 'discr':
            v = self.load(st, fr.depth, rv['p'])
            return self.discr(st, v)
        if r == 'agg':
            return self.agg(rv, [self.operand(st, fr, o) for o in rv['o']])
        if r == 'bin':
            return self.binop(st, rv['op'], self.operand(st, fr, rv['a']), self.operand(st, fr, rv['b']))
        if r == 'un':
            a = self.operand(st, fr, rv['a'])
            op = rv['op']
            if op == 'Not':
                a = self.res(st, a)
                if isinstance(a, bool):
                    return not a
                if type(a) is tuple and a[0] == '?':
                    return not self.truth(st, a)
                raise Undecided('not')
            if op == 'PtrMetadata':
                return self.models.length(self, st, a)
            if op == 'Neg' and isinstance(a, int):
                return -a
            raise Undecided('unop ' + op)
        if r == 'cast':
            v = self.operand(st, fr, rv['o'])
            if rv['kind'] == 'IntToInt':
                if isinstance(v, bool):
                    return int(v)
            return v
        if r == 'repeat':
            if rv['n'] is None or rv['n'] > 64:
                raise Undecided('repeat')
            return ('arr', (self.operand(st, fr, rv['o']),) * rv['n'])
        raise Undecided('rvalue ' + r)

    def res(self, st, v):
        if type(v) is tuple and v[0] == 'G':
            self.client.resolve_g(self, st, v)
        return v

    def discr(self, st, v):
        v = self.res(st, v)
        if isinstance(v, (int, bool)):
            return int(v)
        if v[0] == 'A':
            if v[1] == '?':
                return v[2]
            a = self.p.adts.get(v[1])
            if a is None:
                return v[2]
            if a['kind'] != 'enum':
                return 0
            return a['variants'][v[2]]['d']
        if v[0] == 'S':
            return self.models.sym_discr(self, st, v)
        if v[0] == '?':
            t = self.p.types[v[2]] if v[2] is not None else None
            if t and t['k'] == 'adt' and t['def'] in self.p.adts:
                vs = self.p.adts[t['def']]['variants']
            else:
                raise Undecided('discriminant of unknown')
            key = ('u', v[1])
            if key in st.facts:
                return vs[st.facts[key]]['d']
            raise Fork([_setfact(key, i, taint=1) for i in range(len(vs))])
        raise Undecided('discriminant of %r' % (v,))

    def truth(self, st, v):
        v = self.res(st, v)
        if isinstance(v, bool):
            return v
        if type(v) is tuple and v[0] == '?':
            key = ('u', v[1])
            if key in st.facts:
                return bool(st.facts[key])
            raise Fork([_setfact(key, True, taint=1), _setfact(key, False, taint=1)])
        raise Undecided('truth of %r' % (v,))

    def binop(self, st, op, a, b):
        a, b = self.res(st, a), self.res(st, b)
        ia, ib = isinstance(a, (int, bool)), isinstance(b, (int, bool))
        if ia and ib:
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return {'Eq': a == b, 'Ne': a != b, 'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[op]
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                r = {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
                return bool(r) if isinstance(a, bool) else r
            if op in ('Add', 'AddUnchecked'):
                return a + b
            if op in ('Sub', 'SubUnchecked'):
                return a - b
            if op in ('Mul', 'MulUnchecked'):
                return a * b
            if op == 'AddO':
                return ('t', (a + b, a + b > 2 ** 64 - 1))
            if op == 'SubO':
                return ('t', (a - b, a - b < 0))
            if op == 'MulO':
                return ('t', (a * b, False))
            if op == 'Rem' and b:
                return a % b
            if op == 'Div' and b:
                return a // b
            if op in ('Shl', 'ShlUnchecked'):
                return (a << b) & (2 ** 64 - 1)
            if op in ('Shr', 'ShrUnchecked'):
                return a >> b
            raise Undecided('binop ' + op)
        # tracked "at least n" integers
        if type(a) is tuple and a[0] == 'ge' and ib:
            return self.ge_op(st, op, a, b)
        if type(b) is tuple and b[0] == 'ge' and ia:
            flip = {'Eq': 'Eq', 'Ne': 'Ne', 'Lt': 'Gt', 'Le': 'Ge', 'Gt': 'Lt', 'Ge': 'Le', 'Add': 'Add', 'AddO': 'AddO'}
            if op in flip:
                return self.ge_op(st, flip[op], b, a)
        r = self.models.sym_binop(self, st, op, a, b)
        if r is not None:
            return r
        if op in ('AddO', 'SubO', 'MulO'):
            return ('t', (st.fresh(), False))
        if op in ('BitAnd', 'BitOr', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if op == 'BitAnd' and (a is False or b is False):
                return False
            if op == 'BitOr' and (a is True or b is True):
                return True
            if op in ('BitAnd', 'BitOr', 'BitXor'):
                x, y = self.truth(st, a), self.truth(st, b)
                return x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y
        return ('?', ('bin', op, a, b), None)

    def ge_op(self, st, op, a, n):
        lo = a[1]
        if op in ('Add', 'AddUnchecked'):
            return ('ge', lo + n)
        if op == 'AddO':
            return ('t', (('ge', lo + n), False))
        if op == 'Sub' and lo >= n:
            return ('ge', lo - n)
        if op == 'SubO' and lo >= n:
            return ('t', (('ge', lo - n), False))
        if op in ('Eq', 'Ne') and n < lo:
            return op == 'Ne'
        if op in ('Gt',) and lo > n:
            return True
        if op in ('Ge',) and lo >= n:
            return True
        if op in ('Lt',) and lo >= n:
            return False
        if op in ('Le',) and lo > n:
            return False
        key = ('x', 'gecmp', a, op, n)
        if key in st.facts:
            return st.facts[key]
        raise Fork([_setfact(key, True), _setfact(key, False)])

    # ------------------------------------------------------------- running
    def fresh_state(self):
        return St()

    def call_body(self, st, body, args, dest, to, snap=None, post=None):
        depth = (st.frames[-1].depth + 1) if st.frames else 0
        for i, a in enumerate(args):
            st.mem[(depth, i + 1)] = a
        st.frames.append(Frame(body, 0, -1, dest, to, depth, snap, post, (tuple(args), len(st.facts))))

    def pop(self, st, ret):
        fr = st.frames.pop()
        d = fr.depth
        for k in [k for k in st.mem if k[0] == d]:
            del st.mem[k]
        for k in [k for k in st.visits if k[0] == d]:
            del st.visits[k]
        if fr.post:
            ret = fr.post(ret)
        if not st.frames:
            return ret
        self.store_ref(st, fr.dest, ret)
        c = st.frames[-1]
        c.block, c.stmt = fr.to, -1
        return None

    def run(self, st):
        """explore everything reachable from st; client callbacks get the outcomes"""
        work = [st]
        while work:
            st = work.pop()
            self.run_path(st, work)

    def run_path(self, st, work):
        n = 0
        while True:
            self.steps += 1
            n += 1
            if self.steps > self.MAX_STEPS:
                raise Undecided('step budget')
            # abandoned pure call?
            hit = None
            for f in st.frames:
                if f.snap is not None and (f.snap.done or f.snap.inst in self.blown):
                    hit = f.snap
                    break
            if hit is not None:
                st = self.havoc_call(hit)
                if st is None:
                    return
                continue
            try:
                base = None
                fr = st.frames[-1]
                r = self.step(st, fr, work)
                if r is not None:
                    return
            except Fork as f:
                self.nforks += 1
                # the step had no effect on st: statements load before they store,
                # calls work on a copy (see step)
                alts = []
                for m in f.alts:
                    s2 = st.copy()
                    m(s2)
                    alts.append(s2)
                if not alts:
                    return
                work.extend(reversed(alts[1:]))
                st = alts[0]
            except Diverge as e:
                self.client.on_diverge(self, st, str(e))
                return
            except PanicExc as e:
                snap = [f.snap for f in st.frames if f.snap is not None]
                self.client.on_panic(self, st, str(e))
                return
            except Undecided as e:
                snaps = [f.snap for f in st.frames if f.snap is not None]
                if snaps:
                    sn = snaps[0]
                    self.blown.add(sn.inst)
                    self.client.note('havoc', self.p.bodies[sn.inst]['path'] + ': ' + str(e))
                    st = self.havoc_call(sn)
                    if st is None:
                        return
                    continue
                fr = st.frames[-1] if st.frames else None
                self.client.on_undecided(self, st, '%s in %s' % (e, fr.body['path'] if fr else '?'))
                return

    def havoc_call(self, snap):
        if snap.done:
            return None
        snap.done = True
        st, fr_t = snap.st
        st = st.copy()
        dest, to, dt = fr_t
        fr = st.frames[-1]
        self.store_ref(st, dest, st.fresh(dt))
        fr.block, fr.stmt = to, -1
        return st

    def step(self, st, fr, work):
        body = fr.body
        bl = body['blocks'][fr.block]
        if fr.stmt < 0 and fr.block in self.p.heads(body):
            key = (fr.depth, fr.block)
            c = st.visits.get(key, 0) + 1
            r = self.client.loop_head(self, st, fr, c)
            if r == 'stop':
                return 'stop'
            st.visits[key] = st.visits.get(key, 0) + 1
            if 60 <= c <= 72 and not st.taint:
                sig = self.client.signature(st)
                k = ('sig',) + key
                if c == 60:
                    st.aux[k] = sig
                elif sig is not None and st.aux.get(k) == sig:
                    raise Diverge('the loop repeats without change')
            if c > 80:
                raise Undecided('loop bound')
            for f in st.frames:
                if f.snap is not None:
                    f.snap.steps += 1
                    if f.snap.steps > self.SNAP_STEPS:
                        raise Undecided('pure call budget')
        if fr.stmt < 0:
            fr.stmt = 0
        ss = bl['s']
        while fr.stmt < len(ss):
            pl, rv = ss[fr.stmt]
            if rv is None:
                st.mem.pop((fr.depth, pl), None)
            elif rv['r'] == 'setdiscr':
                raise Undecided('setdiscr')
            else:
                if pl[1] == [] :
                    st.mem[(fr.depth, pl[0])] = self.rvalue(st, fr, rv)
                else:
                    self.store(st, fr.depth, pl, self.rvalue(st, fr, rv))
            fr.stmt += 1
        t = bl['t']
        k = t['t']
        if k == 'goto':
            fr.block, fr.stmt = t['to'], -1
        elif k == 'drop':
            self.models.on_drop(self, st, fr, t)
            fr.block, fr.stmt = t['to'], -1
        elif k == 'switch':
            v = self.res(st, self.operand(st, fr, t['o']))
            if type(v) is tuple:
                v = self.switch_sym(st, v, t)
            v = int(v)
            for n, b in t['ts']:
                if n == v:
                    fr.block, fr.stmt = b, -1
                    break
            else:
                fr.block, fr.stmt = t['else'], -1
        elif k == 'assert':
            v = self.res(st, self.operand(st, fr, t['o']))
            if isinstance(v, bool) and v != t['exp']:
                raise PanicExc(t['msg'])
            if not isinstance(v, bool) and not t['msg'].startswith('Overflow'):
                if self.truth(st, v) != t['exp']:
                    raise PanicExc(t['msg'])
            fr.block, fr.stmt = t['to'], -1
        elif k == 'return':
            v = st.mem.get((fr.depth, 0))
            if v is None:
                v = UNIT
            if len(st.frames) == 1:
                self.client.on_return(self, st, v)
                return 'done'
            self.pop(st, v)
        elif k == 'unreachable':
            return 'stop'
        elif k == 'call':
            self.call(st, fr, t, work)
        else:
            raise Undecided('terminator ' + k)
        return None

    def switch_sym(self, st, v, t):
        if v[0] == 'ge':
            # alternatives: each listed value >= lo, or something else
            lo = v[1]
            alts = [n for n, _ in t['ts'] if n >= lo]
            key = ('x', 'gesw', v, tuple(alts))
            if not alts:
                return -1
            if key in st.facts:
                return st.facts[key]
            raise Fork([_setfact(key, n) for n in alts] + [_setfact(key, -1)])
        if v[0] == '?':
            ty = self.p.types[t['ty']]
            key = ('u', v[1])
            if key in st.facts:
                return int(st.facts[key])
            if ty['s'] == 'bool':
                raise Fork([_setfact(key, True, taint=1), _setfact(key, False, taint=1)])
            alts = [n for n, _ in t['ts']]
            raise Fork([_setfact(key, n, taint=1) for n in alts] + [_setfact(key, -(10 ** 9), taint=1)])
        r = self.models.sym_switch(self, st, v, [n for n, _ in t['ts']])
        if r is not None:
            return r
        raise Undecided('switch on %r' % (v,))

    # --------------------------------------------------------------- calls
    def call(self, st, fr, t, work):
        fv = None
        f = t['f']
        fv = self.operand(st, fr, f)
        args = [self.operand(st, fr, a) for a in t['a']]
        dest = self.place_ref(st, fr.depth, t['d'])
        sp = t.get('sp')
        if sp:
            ss = st.aux.get('sites', ())
            if sp not in ss[-1:]:
                st.aux['sites'] = ss[-5:] + (sp,)
        self.dispatch(st, fr, fv, args, dest, t['to'], t['dt'], work, t)

    def dispatch(self, st, fr, fv, args, dest, to, dt, work, t, spread=False):
        """perform a call; may push a frame, or write the result and move on"""
        fv = self.strip(st, fv)
        if type(fv) is not tuple or fv[0] not in ('F', 'C'):
            raise Undecided('call of unknown function')
        if fv[0] == 'C':
            raise Undecided('direct closure call')
        ty = self.p.types[fv[1]]
        d = ty['def']
        # Fn* traits: untuple
        if d in ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call'):
            self.call_callable(st, args[0], list(args[1][1]), dest, to, dt, work, t)
            return
        nat = self.models.lookup(self, ty)
        if nat is not None:
            s2 = st.copy()
            r = nat(self, s2, Call(ty, args, dt, t, fr))
            st.mem, st.bufs, st.facts, st.uid, st.trace, st.taint, st.aux = (s2.mem, s2.bufs, s2.facts, s2.uid, s2.trace, s2.taint, s2.aux)
            if isinstance(r, TailCall):
                self.call_callable(st, r.f, r.args, dest, to, dt, work, t, post=r.post)
                return
            if to is None:
                raise PanicExc('diverging call')
            self.store_ref(st, dest, r)
            fr.block, fr.stmt = to, -1
            return
        if ty.get('ctor'):
            adt, vi = ty['ctor']
            self.store_ref(st, dest, ('A', adt, vi, tuple(args)))
            fr.block, fr.stmt = to, -1
            return
        if ty['inst'] is not None:
            body = self.p.bodies[ty['inst']]
            self.enter(st, fr, body, ty['inst'], args, dest, to, dt)
            return
        r = self.models.unknown(self, st, Call(ty, args, dt, t, fr))
        if to is None:
            raise PanicExc(d)
        self.store_ref(st, dest, r)
        fr.block, fr.stmt = to, -1

    def enter(self, st, fr, body, inst, args, dest, to, dt, post=None):
        snap = None
        if to is not None and post is None and body['crate'] not in ('core', 'alloc', 'std') and not any(self.effectful(st, a) for a in args):
            if inst in self.blown:
                self.store_ref(st, dest, st.fresh(dt))
                fr.block, fr.stmt = to, -1
                return
            r = self.models.pred_call(self, st, body, inst, args)
            if r is not None:
                self.store_ref(st, dest, r)
                fr.block, fr.stmt = to, -1
                return
            snap = Snap((st.copy(), (dest, to, dt)), inst, dt)
        for f in st.frames:
            # (a call without effects, with the arguments it already has, under the same facts)
            if f.body is body and f.call == (tuple(args), len(st.facts)) and not st.taint and not any(self.effectful(st, a) for a in args):
                raise Diverge('%s calls itself with the same arguments' % body['path'])
        if len(st.frames) > 40:
            raise Undecided('call depth')
        self.call_body(st, body, args, dest, to, snap, post)

    def effectful(self, st, v, seen=None):
        """can a callee that gets v touch a parse buffer or mutate anything?"""
        if type(v) is not tuple:
            return False
        k = v[0]
        if k == 'B':
            return True
        if k == 'TS':
            return True
        if k == 'R':
            if v[3]:
                return True
            try:
                return self.effectful(st, self.proj_get(st, self.load_cell(st, v[1]), v[2]))
            except Undecided:
                return True
            except Fork:
                return False
        if k == 'V':
            return self.effectful(st, v[1])
        if k == 'A':
            return any(self.effectful(st, x) for x in v[3])
        if k in ('t', 'arr'):
            return any(self.effectful(st, x) for x in v[1])
        if k == 'C':
            return any(self.effectful(st, x) for x in v[2])
        if k == 'IT':
            return any(self.effectful(st, x) for x in v[1:] if type(x) is tuple)
        return False

    def strip(self, st, v):
        """look through references"""
        n = 0
        while is_ref(v) and n < 10:
            v = self.deref_raw(st, v)
            n += 1
        return v

    def call_callable(self, st, f, args, dest, to, dt, work, t, post=None):
        fr = st.frames[-1]
        self0 = f
        fv = self.strip(st, f)
        if type(fv) is tuple and fv[0] == 'F':
            if post is not None:
                raise Undecided('post call of fn item')
            self.dispatch(st, fr, fv, args, dest, to, dt, work, t)
            return
        if type(fv) is tuple and fv[0] == 'C':
            ct = self.p.types[fv[1]]
            if ct.get('inst') is None:
                raise Undecided('closure without body')
            body = self.p.bodies[ct['inst']]
            a0 = self.closure_self(st, body, self0, fv)
            self.enter(st, fr, body, ct['inst'], [a0] + args, dest, to, dt, post)
            return
        if type(fv) is tuple and fv[0] == '?':
            self.store_ref(st, dest, st.fresh(dt))
            fr.block, fr.stmt = to, -1
            st.taint += 1
            return
        raise Undecided('call of %r' % (fv,))

    def closure_self(self, st, body, f, fv):
        lt = self.p.types[body['locals'][1]]
        if lt['k'] == 'ref':
            if is_ref(f):
                r = f
                while True:
                    v = self.deref_raw(st, r)
                    if is_ref(v):
                        r = v
                    else:
                        return r
            if lt['mut']:
                st.uid += 1
                key = (-1, ('clo', st.uid))
                st.mem[key] = fv
                return ('R', key, (), True)
            return ('V', fv)
        return fv

    def run_det(self, st, f, args):
        """run a callable to completion on st (forks propagate to the caller's step)"""
        fv = self.strip(st, f)
        saved = st.frames
        if type(fv) is tuple and fv[0] == 'F':
            ty = self.p.types[fv[1]]
            if ty.get('ctor'):
                return ('A', ty['ctor'][0], ty['ctor'][1], tuple(args))
            nat = self.models.lookup(self, ty)
            if nat is not None:
                r = nat(self, st, Call(ty, args, ty['ret'], None, saved[-1]))
                if isinstance(r, TailCall):
                    r2 = self.run_det(st, r.f, r.args)
                    return r.post(r2) if r.post else r2
                return r
            if ty['inst'] is None:
                return self.models.unknown(self, st, Call(ty, args, ty['ret'], None, saved[-1]))
            body = self.p.bodies[ty['inst']]
            a = list(args)
        elif type(fv) is tuple and fv[0] == 'C':
            ct = self.p.types[fv[1]]
            if ct.get('inst') is None:
                raise Undecided('closure without body')
            body = self.p.bodies[ct['inst']]
            a = [self.closure_self(st, body, f, fv)] + list(args)
        else:
            raise Undecided('call of %r' % (fv,))
        depth = saved[-1].depth + 1 if saved else 0
        marker = Frame(body, 0, -1, None, None, depth)
        base = len(saved)
        # a fake caller frame is not needed: we stop when the pushed frame returns
        for i, x in enumerate(a):
            st.mem[(depth, i + 1)] = x
        st.frames = saved + [marker]
        try:
            while True:
                fr = st.frames[-1]
                self.steps += 1
                if self.steps > self.MAX_STEPS:
                    raise Undecided('step budget')
                bl = fr.body['blocks'][fr.block]
                if bl['t']['t'] == 'return' and len(st.frames) == base + 1:
                    for pl, rv in bl['s'][max(fr.stmt, 0):]:
                        if rv is None:
                            if pl != 0:
                                st.mem.pop((fr.depth, pl), None)
                        else:
                            self.store(st, fr.depth, pl, self.rvalue(st, fr, rv))
                    v = st.mem.get((fr.depth, 0), UNIT)
                    for k in [k for k in st.mem if k[0] == fr.depth]:
                        del st.mem[k]
                    return v
                r = self.step(st, fr, None)
                if r is not None:
                    raise Undecided('nested run stopped')
        finally:
            st.frames = saved


class TailCall:
    """result of a model: continue by calling f(args), then apply post"""
    def __init__(self, f, args, post=None):
        self.f, self.args, self.post = f, args, post


class Call:
    __slots__ = ('ty', 'args', 'dt', 't', 'fr')

    def __init__(self, ty, args, dt, t, fr):
        self.ty, self.args, self.dt, self.t, self.fr = ty, args, dt, t, fr

    @property
    def targs(self):
        return self.ty['args']

    @property
    def site(self):
        return self.t.get('sp', '?') if self.t else '?'


class _LazyFields:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, i):
        return ('?', (self.v[1], 'vf', i), None)

    def __eq__(self, o):
        return isinstance(o, _LazyFields) and self.v == o.v

    def __hash__(self):
        return hash(self.v)

    def __iter__(self):
        return iter(())


def _setfact(key, val, taint=0):
    def m(st):
        st.facts[key] = val
        st.taint += taint
    return m

"""Semantics of the public argument types, decided on the MIR of their implementations."""
import build, engine, spec_parse, models as M
from engine import *
from models import S, ask
from spec_sm import pv, mentions

FLAG, NV, NA = 'structmeta::arg_types::Flag', 'structmeta::arg_types::NameValue', 'structmeta::arg_types::NameArgs'
A_, B_ = S('fld', 'a'), S('fld', 'b')
V_, W_ = S('fld', 'v'), S('fld', 'w')


def flag(s):
    return ('A', FLAG, 0, (none() if s is None else some(s),))


def eqfact(st, x, y):
    x, y = sorted([x, y], key=repr)
    return ask(st, 'x', 'eq', x, y)


def items():
    """(name, rust function, [(label, args, expected)]); expected: value, or function of the final state"""
    out = []
    FL = [('none', None), ('given', A_)]
    FR = [('none', None), ('given', B_)]
    out.append(('flag_value', 'pub fn flag_value(a: &Flag) -> bool { a.value() }', [(n, [('ref', flag(s))], s is not None) for n, s in FL]))
    out.append(('flag_eq', 'pub fn flag_eq(a: &Flag, b: &Flag) -> bool { a == b }',
                [(n + '/' + m, [('ref', flag(s)), ('ref', flag(t))], (s is None) == (t is None)) for n, s in FL for m, t in FR]))
    out.append(('flag_ne', 'pub fn flag_ne(a: &Flag, b: &Flag) -> bool { a != b }',
                [(n + '/' + m, [('ref', flag(s)), ('ref', flag(t))], (s is None) != (t is None)) for n, s in FL for m, t in FR]))
    out.append(('flag_or', 'pub fn flag_or(a: Flag, b: Flag) -> Flag { a | b }',
                [(n + '/' + m, [flag(s), flag(t)], flag(s if s is not None else t)) for n, s in FL for m, t in FR]))
    out.append(('flag_or_assign', 'pub fn flag_or_assign(mut a: Flag, b: Flag) -> Flag { a |= b; a }',
                [(n + '/' + m, [flag(s), flag(t)], flag(s if s is not None else t)) for n, s in FL for m, t in FR]))
    out.append(('flag_from', 'pub fn flag_from(a: bool) -> Flag { Flag::from(a) }', [('true', [True], 'given'), ('false', [False], flag(None))]))
    out.append(('flag_into', 'pub fn flag_into(a: bool) -> Flag { a.into() }', [('true', [True], 'given'), ('false', [False], flag(None))]))
    out.append(('flag_none', 'pub fn flag_none() -> Flag { Flag::NONE }', [('', [], flag(None))]))
    out.append(('flag_default', 'pub fn flag_default() -> Flag { Flag::default() }', [('', [], flag(None))]))
    out.append(('flag_clone', 'pub fn flag_clone(a: &Flag) -> Flag { a.clone() }', [(n, [('ref', flag(s))], flag(s)) for n, s in FL]))
    for nm, T in (('nv', NV), ('na', NA)):
        R = T.rsplit('::', 1)[-1]
        x, y = ('A', T, 0, (A_, V_)), ('A', T, 0, (B_, W_))
        out.append((nm + '_eq', 'pub fn %s_eq<T: PartialEq>(a: &%s<T>, b: &%s<T>) -> bool { a == b }' % (nm, R, R), [('', [('ref', x), ('ref', y)], lambda st: eqfact(st, V_, W_))]))
        out.append((nm + '_ne', 'pub fn %s_ne<T: PartialEq>(a: &%s<T>, b: &%s<T>) -> bool { a != b }' % (nm, R, R), [('', [('ref', x), ('ref', y)], lambda st: not eqfact(st, V_, W_))]))
        out.append((nm + '_clone', 'pub fn %s_clone<T: Clone>(a: &%s<T>) -> %s<T> { a.clone() }' % (nm, R, R), [('', [('ref', x)], x)]))
        out.append((nm + '_copy', 'pub fn %s_copy<T: Copy>(a: &%s<T>) -> %s<T> { *a }' % (nm, R, R), [('', [('ref', x)], x)]))
    return out


def exact(E, st, exp, v):
    """the parameters are distinct unknowns: another one in the place of the expected one is a difference"""
    if not isinstance(v, (bool, int)):
        v = E.res(st, E.strip(st, v))
    if exp == v:
        return 'eq'
    if type(v) is not tuple or v[0] == '?':
        return 'unk'
    if exp[0] == 'S' and v[0] == 'S':
        return 'ne'
    if exp[0] == v[0] == 'A' and exp[1] == v[1]:
        if exp[2] != v[2] or len(exp[3]) != len(v[3]):
            return 'ne'
        rs = [exact(E, st, a, b) for a, b in zip(exp[3], v[3])]
        return 'ne' if 'ne' in rs else 'unk' if 'unk' in rs else 'eq'
    return 'unk'


class AClient(spec_parse.PClient):
    def __init__(self, prog, name, exp):
        super().__init__(prog, [])
        self.name, self.exp = name, exp

        self.leaks = {}

    def opaque_call(self, E, st, fn, args):
        """what a comparison hands to a function that is not analysed"""
        if mentions(tuple(args), A_) or mentions(tuple(args), B_):
            self.leaks[fn] = 1

    def on_undecided(self, E, st, msg):
        super().on_undecided(E, st, msg)
        if self.leaks and self.name.split(':')[0].endswith(('_eq', '_ne')):
            self.violation(None, {'A01'}, self.name + ':span', 'the result depends on the span, through %s' % ', '.join(sorted(self.leaks)))

    def violation(self, st, tags, key, text):
        if st is not None:
            return super().violation(st, tags, key, text)
        self.results.append((tuple(sorted(tags)), key, text, ()))

    def on_return(self, E, st, v):
        v = E.res(st, E.strip(st, v) if not isinstance(v, (bool, int)) else v)
        exp = self.exp(st) if callable(self.exp) else self.exp
        if exp == 'given':
            x = E.res(st, v[3][0]) if type(v) is tuple and v[0] == 'A' else None
            if type(x) is tuple and x[0] == 'A':
                r = 'eq' if x[2] == 1 else 'ne'
            else:
                r = 'unk'
        elif isinstance(exp, bool):
            r = 'unk' if type(v) is tuple else 'eq' if bool(v) == exp else 'ne'
        else:
            r = exact(E, st, exp, v)
        if r == 'eq':
            self.outcome('equal')
        elif r == 'unk':
            self.on_undecided(E, st, 'unknown result of ' + self.name)
        else:
            self.violation(st, {'A01'}, self.name, 'returns %s, expected %s' % (pv(v) if type(v) is tuple else v, exp if isinstance(exp, (bool, str)) else pv(exp)))


def run(seed, thorough):
    it = items()
    path, failed = build.dump_crate('at', [(n, 'pub mod m_%s { use ::structmeta::*; %s }' % (n, t)) for n, t, _ in it])
    P = engine.Prog(path)
    out = []
    for n, text, cases in it:
        if n in failed:
            out.append((n, text, {'error': failed[n][0]}))
            continue
        bs = [b for p, l in P.by_path.items() if p == 'at::m_%s::%s' % (n, n) for b in l]
        r = {'decided': 0, 'undecided': 0, 'why': {}, 'results': [], 'fn': n, 'cases': len(cases), 'steps': 0}
        for label, args, exp in cases:
            c = AClient(P, n + (':' + label if label else ''), exp)
            E = engine.Engine(P, M.Models(P), c)
            E.MAX_STEPS = 50000
            c.attach(E)
            st = St()
            av = []
            for i, a in enumerate(args):
                if type(a) is tuple and a[0] == 'ref':
                    st.mem[(-1, 'a%d' % i)] = a[1]
                    av.append(('R', (-1, 'a%d' % i), (), False))
                else:
                    av.append(a)
            E.call_body(st, bs[0], av, None, None)
            try:
                E.run(st)
            except Undecided as e:
                c.on_undecided(E, st, 'aborted: %s' % e)
            r['decided'] += c.decided
            r['undecided'] += c.undecided
            r['steps'] += E.steps
            for a, b in c.und_why.items():
                r['why'][a] = r['why'].get(a, 0) + b
            r['results'] += c.results
        out.append((n, text, r))
    return out

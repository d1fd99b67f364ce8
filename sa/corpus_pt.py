"""Witness types for derive(Parse) and derive(ToTokens)."""
import random
from spec_parse import PF, Variant, MACRO_DELIM, SPELLINGS

COMMA = 'syn::token::Comma'
LI, LS, ID, EX = 'LitInt', 'LitStr', 'Ident', 'Expr'
TY = {'LitInt': 'syn::lit::LitInt', 'LitStr': 'syn::lit::LitStr', 'Ident': 'proc_macro2::Ident', 'Expr': 'syn::expr::Expr', 'Type': 'syn::ty::Type',
      'Token![=]': 'syn::token::Eq', 'Token![,]': 'syn::token::Comma', 'Token![=>]': 'syn::token::FatArrow', 'Token![==]': 'syn::token::EqEq',
      'Token![fn]': 'syn::token::Fn', 'Token![+]': 'syn::token::Plus'}
DEL = {'(': ('token::Paren', 'syn::token::Paren'), '[': ('token::Bracket', 'syn::token::Bracket'), '{': ('token::Brace', 'syn::token::Brace')}


def p(t, **k):
    return PF(t, TY.get(t, k.pop('T', t)), **k)


def d(c, pre='', **k):
    """delimiter field; `pre` holds closing delimiters in front"""
    return PF(DEL[c][0], DEL[c][1], tt=pre + c, **k)


def m(c='(', pre='', **k):
    return PF('MacroDelimiter', MACRO_DELIM, tt=pre + c, **k)


def pl(t, any=False, **k):
    return PF('Punctuated<%s, Token![,]>' % t, 'syn::punctuated::Punctuated<%s, syn::token::Comma>' % TY[t], any=any, term=(TY[t], COMMA), **k)


class PW:
    def __init__(self, id, item, groups=(), derive='Parse, ToTokens', generics='', where='', pre='', wrap=None, uses=True, ty='W', sattr=''):
        self.id, self.item, self.groups = id, item, set(groups)
        self.derive, self.generics, self.where, self.pre, self.wrap, self.uses, self.ty, self.sattr = derive, generics, where, pre, wrap, uses, ty, sattr

    def text(self):
        head = '#[derive(%s)] %spub ' % (self.derive, self.sattr)
        if len(self.item) == 1 and self.item[0].name is None:
            v = self.item[0]
            fs = ', '.join(f.text() for f in v.fields)
            if v.shape == 'named':
                it = '%sstruct W%s %s { %s }' % (head, self.generics, self.where, fs)
            elif v.shape == 'tuple':
                it = '%sstruct W%s(%s) %s;' % (head, self.generics, fs, self.where)
            else:
                it = '%sstruct W%s %s;' % (head, self.generics, self.where)
        else:
            it = '%senum W%s %s { %s }' % (head, self.generics, self.where, ', '.join(v.text() for v in self.item))
        uses = 'use ::structmeta::*; use ::syn::*; use ::syn::punctuated::Punctuated; ' if self.uses else ''
        return 'pub mod %s { #![allow(unused)] %s%s%s }' % (self.id, uses, self.pre, self.wrap(it) if self.wrap else it)


def auto(shape, fields):
    if shape == 'named':
        for i, f in enumerate(fields):
            if f.name is None:
                f.name = 'f%d' % i
    return fields


def build(seed=1, thorough=False):
    ws = []

    def st(id, fields, groups=(), shape='both', **k):
        for s in (('named', 'tuple') if shape == 'both' else (shape,)):
            import copy
            fs = auto(s, [copy.copy(f) for f in fields])
            ws.append(PW(id + {'named': '_n', 'tuple': '_t', 'unit': ''}[s], [Variant(None, fs, s)], groups, **k))

    def en(id, variants, groups=(), **k):
        vs = []
        for i, (s, fs) in enumerate(variants):
            vs.append(Variant('V%s' % 'ABCDEFGHIJKLMNOP'[i], auto(s, fs), s))
        ws.append(PW(id, vs, ['enum'] + list(groups), **k))

    # --- order -------------------------------------------------------------------
    st('e0', [], ['order'])
    st('unit', [], ['order'], shape='unit')
    st('o1', [p(LI)], ['order'])
    st('o2', [p(LI), p(LI)], ['order'])
    st('o3', [p(LI), p('Token![=]'), p(LS)], ['order'])
    st('o5', [p(ID), p('Token![=>]'), p(EX), p('Token![,]'), p(EX)], ['order'])
    ws.append(PW('o_names', [Variant(None, [p(LI, name='zz'), p(LI, name='aa'), p(LI, name='r#type'), p(LI, name='mm')], 'named')], ['order']))
    ws.append(PW('o_many', [Variant(None, [p(LI if i % 2 else LS) for i in range(12)], 'tuple')], ['order']))
    # --- long and deep -----------------------------------------------------------------------------
    st('big', [p((LI, LI, LS, ID, LI)[i % 5]) for i in range(70)], ['order', 'large'])
    cyc = '([{([({[[('
    st('deep3', [d(c) for c in cyc] + [p(LI)] + [p((LI, LS)[i % 2], tt={'(': ')', '[': ']', '{': '}'}[c]) for i, c in enumerate(cyc[::-1])], ['delim', 'large'])
    st('wide', [f for i in range(12) for f in (d('([{'[i % 3], ')]}'[(i - 1) % 3] if i else ''), p((LI, ID)[i % 2]))] + [p(LS, tt='}')], ['delim', 'large'])
    # --- delimiters ----------------------------------------------------------------
    for c, n in (('(', 'p'), ('[', 'b'), ('{', 'c')):
        cl = {'(': ')', '[': ']', '{': '}'}[c]
        st('d1' + n, [d(c), p(LI)], ['delim'])
        st('d2' + n, [p(LS), d(c), p(LI), p(LI)], ['delim'])
        st('d3' + n, [d(c), p(LI), p(LS, tt=cl)], ['delim'])
        st('d4' + n, [p(LI), d(c), p(LI), p(LS, tt=cl), p(LI)], ['delim'])
        st('d0' + n, [d(c)], ['delim'], shape='tuple')
        st('d5' + n, [d(c), d('(', cl), p(LI), p(LI, tt=')'), p(LI)], ['delim'])
        for c2, n2 in (('(', 'p'), ('[', 'b'), ('{', 'c')):
            cl2 = {'(': ')', '[': ']', '{': '}'}[c2]
            st('n' + n + n2, [d(c), p(LI), d(c2), p(LS), p(LI, tt=cl2), p(LS, tt=cl), p(LI)], ['delim'], shape='named')
            st('q' + n + n2, [d(c), d(c2), p(LS), p(LI, tt=cl2 + cl)], ['delim'], shape='tuple')
    st('deep', [d('('), d('['), d('{'), p(LI), p(LI, tt='}'), p(LI, tt=']'), p(LI, tt=')'), p(LI)], ['delim'])
    st('deep2', [d('{'), d('('), p(LI), p(LS, tt=')'), d('['), p(LI), p(LS, tt=']}'), p(LI)], ['delim'])
    st('open_end', [p(LI), d('('), d('['), d('{'), p(LI)], ['delim'])
    for c in '([{':
        n = {'(': 'p', '[': 'b', '{': 'c'}[c]
        cl = {'(': ')', '[': ']', '{': '}'}[c]
        st('m1' + n, [m(c), p(LI)], ['delim', 'macro'])
        st('m2' + n, [p(LI), m(c), p(LI), p(LS, tt=cl)], ['delim', 'macro'], shape='named')
    st('m3', [m('('), d('[', ')'), p(LI)], ['delim', 'macro'], shape='tuple')
    st('m4', [d('['), m('('), p(LI), p(LI, tt=')'), p(LI, tt=']')], ['delim', 'macro'], shape='named')
    ws.append(PW('m5', [Variant(None, [PF('::syn::MacroDelimiter', MACRO_DELIM, tt='('), p(LI)], 'tuple')], ['delim', 'macro']))
    ws.append(PW('mattr', [Variant(None, [PF('token::Bracket', DEL['['][1], tt='[', attr='#[doc = "x"] #[to_tokens("[",)] #[parse()] '), p(LI, attr='#[to_tokens()] '), PF('LitStr', TY['LitStr'], tt=']', attr='#[to_tokens("]")] #[allow(unused)] ')], 'tuple')], ['delim']))
    # --- any / terminated -------------------------------------------------------------
    st('a1', [p(ID, any=True), p('Token![=]'), p(ID)], ['any'])
    st('a2', [p(LI), pl(LI)], ['any'])
    st('a3', [pl(ID, any=True)], ['any'])
    st('a4', [d('('), pl(EX), p(LI, tt=')')], ['any', 'delim'])
    st('a5', [d('['), pl(ID, any=True), p(ID, tt=']', any=True), d('('), pl(ID)], ['any', 'delim'])
    ws.append(PW('a6', [Variant(None, [PF('Ident', TY['Ident'], any=True, attr='#[parse(any,)] #[parse()] '), PF('Punctuated<Ident, Token![,]>', 'x', any=True, term=(TY['Ident'], COMMA), attr='#[parse(terminated)] #[parse(any)] ')], 'tuple')], ['any']))
    ws.append(PW('a7', [Variant(None, [p(LI, attr='#[allow(unused)] '), PF('LitStr', TY[LS], any=False, attr='#[parse()] #[doc = "any"] ')], 'tuple')], ['any']))
    st('a8', [p(LI), d('('), p(ID, any=True), pl(ID, any=True), d('[', ')'), pl(LI), p(LI, tt=']'), pl(ID)], ['any', 'delim'])
    # --- enums ------------------------------------------------------------------------------
    en('en0', [], ['alt'])
    en('en1', [('tuple', [p(LI)])], ['alt'])
    en('en2', [('tuple', [p(LI)]), ('named', [p(LS)])], ['alt'])
    en('en3', [('tuple', [p(LI), p(LI)]), ('tuple', [p(LI), p(LS)]), ('named', [p(LI)])], ['alt'])
    en('en4', [('tuple', [p(EX)]), ('tuple', [p(LI)]), ('tuple', [p(ID)]), ('tuple', [p('Type')])], ['alt'])
    en('en5', [('tuple', [p(LS)]), ('unit', [])], ['alt'])
    en('en6', [('unit', []), ('tuple', [p(LI)])], ['alt'])
    en('en7', [('tuple', [d('('), p(LI)]), ('tuple', [d('('), p(LS), p(LS, tt=')')]), ('named', [d('['), p(LI), p(LI, tt=']')])], ['alt', 'delim'])
    en('en8', [('tuple', [m('('), p(LI)]), ('tuple', [pl(LI)])], ['alt', 'delim', 'any'])
    en('en9', [('tuple', [p(LI)]), ('tuple', [p(LI)])], ['alt'])
    en('en10', [('tuple', [p(LI), p(LI), p(LI)]), ('tuple', [p(LI), p(LI), p(LS)]), ('unit', []), ('tuple', [p(LI)]), ('unit', [])], ['alt'])
    en('en11', [('tuple', [p('Token![=]') if i % 2 else p(LI), p([LI, LS, ID][i % 3])]) for i in range(11)], ['alt'])
    ws.append(PW('en_big', [Variant('V%d' % i, [p([LI, LS, ID, 'Token![=]'][i % 4], peek=i % 3 == 1), p([LI, LS, EX][i % 3])], 'tuple') for i in range(36)], ['enum', 'alt', 'peek', 'large']))
    en('en12', [('named', [p(ID), p(EX)]), ('tuple', [p(ID), d('('), p(EX)]), ('tuple', [p(ID), m('('), p(EX)]), ('tuple', [p(ID, any=True)])], ['alt', 'delim', 'any'])
    ws.append(PW('en_names', [Variant('r#fn', [p(LI, name='r#type')], 'named'), Variant('input', [p(LS)], 'tuple'), Variant('Ok', [p(ID)], 'tuple'), Variant('fork', [], 'unit')], ['enum', 'alt', 'hygiene']))
    # --- peek ---------------------------------------------------------------------------------
    en('pk1', [('tuple', [p(LI, peek=True)]), ('tuple', [p(LS)])], ['peek'])
    en('pk2', [('tuple', [p(LI, peek=True), p(LS)]), ('tuple', [p(LI), p(LI)])], ['peek'])
    en('pk3', [('named', [p('Token![=]', peek=True), p(LI)]), ('named', [p('Token![=>]', peek=True), p(LI)]), ('tuple', [p(LI)])], ['peek'])
    en('pk4', [('tuple', [p(ID, peek=True), p('Token![=]', peek=True), p(EX)]), ('tuple', [p(ID, peek=True), p(LI, peek=True)]), ('tuple', [p(EX)])], ['peek'])
    en('pk5', [('tuple', [p(ID, peek=True), p('Token![=]', peek=True), p(LI, peek=True)]), ('tuple', [p(ID, peek=True), p('Token![=]', peek=True), p(LS, peek=True), p(LS)]), ('tuple', [p(LI)])], ['peek'])
    en('pk6', [('tuple', [p(ID, peek=True, any=True), p('Token![=]')]), ('tuple', [p(ID, any=True)])], ['peek', 'any'])
    en('pk7', [('tuple', [p(LI, peek=True)]), ('tuple', [p(LS, peek=True)])], ['peek'])
    en('pk8', [('tuple', [p(EX)]), ('tuple', [p(LI, peek=True)])], ['peek'])
    en('pk9', [('tuple', [p(LS)]), ('tuple', [p(LI, peek=True), p(LI)]), ('tuple', [p(LI), p(LS)]), ('unit', [])], ['peek'])
    en('pk10', [('tuple', [d('(', peek=True), p(LI)]), ('tuple', [d('[', peek=True), p(LI), p(LI, tt=']'), p(LI)]), ('tuple', [d('{', peek=True)]), ('tuple', [p(LI)])], ['peek', 'delim'])
    en('pk11', [('tuple', [p(LI, peek=True), d('(', peek=True), p(LI), p(LI, tt=')')]), ('tuple', [p(LI), p(LS)])], ['peek', 'delim'])
    en('pk12', [('tuple', [d('(', peek=True), p(LI), p(LS, tt=')', peek=True), p(LI)]), ('tuple', [p(LI)])], ['peek', 'delim'])
    en('pk13', [('tuple', [p(LI)]), ('tuple', [p(LS, peek=True)]), ('tuple', [p(ID)])], ['peek'])
    en('pk14', [('tuple', [p('Token![=]', peek=True), p(ID, peek=True, any=True), p(ID, peek=True, any=True)]), ('tuple', [p('Token![=]', peek=True), p(ID, peek=True, any=True), p(LI, peek=True)]), ('tuple', [p('Token![=]')])], ['peek', 'any'])
    en('pk15', [('unit', []), ('tuple', [p(LI, peek=True)])], ['peek'])
    en('pk16', [('tuple', [p(LI, peek=True), p(LI)]), ('tuple', [p(LS, peek=True), p(LI)]), ('tuple', [p(ID, peek=True), p(LI)]), ('tuple', [p('Token![=]', peek=True), p(LI)]), ('tuple', [p('Token![fn]', peek=True), p(LI)])], ['peek'])
    en('pk17', [('named', [d('(', peek=True), p(LI), d('[', ')', peek=True), p(LS), d('{', ']', peek=True), p(ID)]), ('named', [d('(', peek=True), p(LI), d('[', ')', peek=True), p(LI)]), ('tuple', [d('('), p(LS)])], ['peek', 'delim'])
    en('pk18', [('tuple', [p(LI)]), ('tuple', [p(LI, peek=True), p(LI)]), ('tuple', [p(LS)]), ('tuple', [p(LS, peek=True), p(LI)]), ('tuple', [p(ID)])], ['peek', 'alt'])
    en('pk19', [('tuple', [p(ID, peek=True, any=True), p('Token![+]', peek=True), p(EX)]), ('tuple', [p(ID, peek=True), p('Token![=>]', peek=True)]), ('tuple', [p(ID, peek=True), p('Token![==]', peek=True)]), ('tuple', [p(ID, peek=True), p('Token![=]', peek=True)])], ['peek', 'any'])
    st('pks', [p(LI, peek=True), p(LS, peek=True)], ['peek'], shape='tuple')
    # --- generics -----------------------------------------------------------------------------
    B = '::syn::parse::Parse + ::quote::ToTokens'
    ws.append(PW('g1', [Variant(None, [p('T', T='T', name='a'), p('U', T='U', name='b'), d('(', name='c'), p('T', T='T', name='d')], 'named')], ['generic'],
                 generics='<T: %s, U>' % B, where='where U: %s' % B))
    ws.append(PW('g2', [Variant('VA', [p('T', T='T'), p(LI)], 'tuple'), Variant('VB', [p('U', T='U', name='x')], 'named'), Variant('VC', [], 'unit')], ['generic', 'enum'],
                 generics='<T: %s, U>' % B, where='where U: %s + Clone' % B))
    ws.append(PW('g3', [Variant('VA', [p('T', T='T'), p('[(); N]', T='x', attr='') if False else p(LI)], 'tuple'), Variant('VB', [p(LI, peek=True)], 'tuple')], ['generic', 'enum'],
                 generics='<T: %s, const N: usize>' % B))
    ws.append(PW('g4', [Variant(None, [p('T', T='T')], 'tuple')], ['generic'], generics='<T: %s = LitInt>' % B))
    ws.append(PW('g5', [Variant(None, [m('('), p('T', T='T')], 'tuple')], ['generic', 'macro'], generics='<T>', where='where T: %s' % B))
    ws.append(PW('g6', [Variant('VA', [d('('), PF('Punctuated<Self, Token![,]>', 'x', term=('pt::g6::W', COMMA))], 'tuple'), Variant('VB', [p(LI)], 'tuple')], ['generic', 'enum']))
    ws.append(PW('g7', [Variant('VA', [p('T', T='T'), d('['), PF('Punctuated<Self, Token![,]>', 'x', term=('pt::g7::W<T>', COMMA))], 'tuple'), Variant('VB', [p(LI, peek=True)], 'tuple'), Variant('VC', [p('T', T='T', name='x')], 'named')], ['generic', 'enum'],
                 generics='<T: %s>' % B, where='where Self: Sized'))
    ws.append(PW('g8', [Variant('VA', [d('('), PF('Punctuated<Self, Token![,]>', 'x', term=('pt::g8::W', COMMA))], 'tuple'), Variant('VB', [PF('Box<Self>', 'alloc::boxed::Box<pt::g8::W>')], 'tuple')], ['generic', 'enum']))
    ws.append(PW('g9', [Variant('VA', [p('T', T='T'), PF("Ph<'a, N>", "pt::g9::Ph<'_, N>")], 'tuple'), Variant('VB', [p('T', T='T')], 'tuple'), Variant('VC', [], 'unit')], ['generic', 'enum'],
                 generics="<'a, T: 'a, const N: usize = 3>", where="where T: %s, for<'x> &'x T: Copy" % B,
                 pre="pub struct Ph<'a, const N: usize>(::std::marker::PhantomData<&'a u8>); impl<'a, const N: usize> ::syn::parse::Parse for Ph<'a, N> { fn parse(_: ::syn::parse::ParseStream) -> ::syn::Result<Self> { todo!() } } impl<'a, const N: usize> ::quote::ToTokens for Ph<'a, N> { fn to_tokens(&self, _: &mut ::proc_macro2::TokenStream) { todo!() } } "))
    ws.append(PW('g10', [Variant(None, [p('T', T='T', name='a'), p(LI, name='b')], 'named')], ['generic'], generics="<T: %s + ?Sized = LitInt, const B: bool = true>" % B, where='where Self: Sized, T: Sized,'))
    # --- hygiene -------------------------------------------------------------------------------
    host = 'pub mod syn {} pub mod structmeta {} pub mod std {} pub mod core {} pub mod quote {} pub mod proc_macro2 {} '
    hs = {'LitInt': '::syn::LitInt', 'Ident': '::syn::Ident'}

    def hp(t, **k):
        return PF(hs[t], TY[t], **k)
    ws.append(PW('h1', [Variant(None, [hp('LitInt', name='input'), PF('::syn::token::Paren', DEL['('][1], tt='(', name='tokens'), hp('LitInt', name='input_1'), PF('::syn::MacroDelimiter', MACRO_DELIM, tt=')[', name='content'), hp('LitInt', name='token')], 'named')],
                 ['hygiene'], pre=host, uses=False, derive='::structmeta::Parse, ::structmeta::ToTokens'))
    ws.append(PW('h2', [Variant('VA', [hp('LitInt', name='input', peek=True), hp('LitInt', name='fork')], 'named'), Variant('VB', [hp('Ident', name='value', any=True), hp('LitInt', name='r#fn')], 'named'), Variant('VC', [], 'unit')],
                 ['hygiene', 'enum'], pre=host, uses=False, derive='::structmeta::Parse, ::structmeta::ToTokens'))

    def mac(it):
        i = it.index('{')
        return 'macro_rules! m { ($($f:tt)*) => { %s { $($f)* } } } m!(%s);' % (it[:i], it[i + 1:it.rindex('}')])
    ws.append(PW('h3', [Variant(None, [p(LI, name='a'), d('(', name='b'), p(ID, name='c', any=True), m('[', ')', name='e'), p(LI, name='f')], 'named')], ['hygiene'], wrap=mac))
    ws.append(PW('h4', [Variant('VA', [p(LI), d('('), p(LS)], 'tuple'), Variant('VB', [p(ID, any=True), p(LI)], 'tuple'), Variant('VC', [p(LS, peek=True)], 'tuple')], ['hygiene', 'enum'], wrap=mac))

    def mac2(it):
        return 'macro_rules! m { ($($n:ident : $t:ty),*) => { #[derive(Parse, ToTokens)] pub struct W { $($n: $t),* } } } m!(a: LitInt, b: Token![=], c: LitStr);'
    ws.append(PW('h5', [Variant(None, [p(LI, name='a'), p('Token![=]', name='b'), p(LS, name='c')], 'named')], ['hygiene'], wrap=mac2))
    def mac3(it):
        return ('macro_rules! m { ($o:literal $c:literal $p:path, $q:ty, $t:ty, $i:ident) => { #[derive(Parse, ToTokens)] pub struct W(pub $q, #[to_tokens($o)] pub $p, #[parse($i)] pub $t, #[to_tokens($c)] pub $q, #[to_tokens($o)] pub token::Paren, pub $q); } } '
                'm!("(" ")" MacroDelimiter, LitInt, Ident, any);')
    ws.append(PW('h6', [Variant(None, [p(LI), m('('), p(ID, any=True), p(LI, tt=')'), d('('), p(LI)], 'tuple')], ['hygiene', 'macro'], wrap=mac3))

    def mac4(it):
        return ('macro_rules! m { ($($v:ident ($($t:ty),*)),*; $l:ident: $u:ty) => { #[derive(Parse, ToTokens)] pub enum W { $($v($(#[parse(peek)] $t),*),)* VZ { $l: $u } } } } m!(VA (LitInt, Token![=]), VB (Token![fn]); fork: LitStr);')
    ws.append(PW('h7', [Variant('VA', [p(LI, peek=True), p('Token![=]', peek=True)], 'tuple'), Variant('VB', [p('Token![fn]', peek=True)], 'tuple'), Variant('VZ', [p(LS, name='fork')], 'named')], ['hygiene', 'enum', 'peek'], wrap=mac4))
    # --- ToTokens only (no Parse layout needed) -----------------------------------------------
    ws.append(PW('t1', [Variant('VA', [], 'unit'), Variant('VB', [p(LI), p(LI), p(LI)], 'tuple'), Variant('VC', [p(LI, name='zz'), p(LS, name='aa')], 'named'), Variant('VD', [d('('), p(LI), d('[', ')'), p(LS)], 'tuple'), Variant('VE', [m('('), p(LI)], 'tuple')],
                 ['enum', 'tt'], derive='ToTokens'))
    ws.append(PW('t2', [Variant(None, [p('T', T='T'), p('&\'a T', T='x'), p('Vec2', T='x')], 'tuple')], ['generic', 'tt'], derive='ToTokens', generics="<'a, T: ::quote::ToTokens>",
                 pre='pub struct Vec2; impl ::quote::ToTokens for Vec2 { fn to_tokens(&self, _: &mut ::proc_macro2::TokenStream) { todo!() } } '))
    # --- every small layout -------------------------------------------------------------------
    from corpus_cf import layouts, layout_error
    rx = random.Random(seed * 11 + 5)
    for n, cap in ((1, 99), (2, 99), (3, 400 if thorough else 99), (4, 700 if thorough else 60)):
        ls = [x for x in layouts(n, False) if layout_error(x, False) is None and any(c or o for c, o, _ in x)]
        if len(ls) > cap:
            ls = rx.sample(ls, cap)
        for i, x in enumerate(ls):
            st('xl%d_%d' % (n, i), [d(o, c) if o else p((LI, LS, ID)[j % 3], tt=c) for j, (c, o, _) in enumerate(x)], ['delim', 'small'], shape='named' if i % 2 else 'tuple')
    for n, cap in ((1, 20), (2, 40), (3, 300 if thorough else 60), (4, 1920 if thorough else 16)):
        ls = [x for x in layouts(n, True) if layout_error(x, True) is None and any(k for _, _, k in x)]
        if len(ls) > cap:
            ls = rx.sample(ls, cap)
        for i in range(0, len(ls), 2):
            vs = [[d(o, c, peek=k) if o else p((LI, LS, ID)[(i + j) % 3], tt=c, peek=k) for j, (c, o, k) in enumerate(x)] for x in ls[i:i + 2]]
            en('xe%d_%d' % (n, i), [('tuple' if k else 'named', fs) for k, fs in enumerate(vs)] + [('tuple', [p(EX)])], ['peek', 'alt', 'delim', 'small'])
    # --- the same in other spellings of the attributes --------------------------------------------
    import copy
    spelled = []
    for w in ws:
        fs = [f for v in w.item for f in v.fields]
        if w.wrap or w.generics or w.groups & {'hygiene', 'generic', 'tt'} or any(f.attr is not None for f in fs) or not any(f.tt or f.any or f.term or f.peek for f in fs):
            continue
        rich = any(len(f.tt) + f.any + bool(f.term) + f.peek > 1 for f in fs)
        k = len(spelled)
        if 'small' in w.groups:
            ns = [k] if thorough or rich and len(w.id) % 2 else []
        else:
            ns = range(SPELLINGS) if thorough else [k, k + 3] if rich else [k]
        for n in sorted({n % SPELLINGS for n in ns}):
            item = copy.deepcopy(w.item)
            for v in item:
                for f in v.fields:
                    f.sp = n
            spelled.append(PW('%s_s%d' % (w.id, n), item, w.groups | {'spelled'}, w.derive))
    ws += spelled
    # --- random -------------------------------------------------------------------------------
    r = random.Random(seed * 7 + 3)
    for i in range(2000 if thorough else 24):
        if r.random() < .5:
            st('rs%d' % i, rand_fields(r, r.randint(2, 9)), ['random', 'order', 'delim'], shape=r.choice(['named', 'tuple']))
        else:
            vs = []
            for _ in range(r.randint(2, 5)):
                fs = rand_fields(r, r.randint(0, 4), True)
                vs.append((r.choice(['named', 'tuple']) if fs else 'unit', fs))
            en('re%d' % i, vs, ['random', 'alt', 'peek'])
    return ws


def rand_fields(r, n, peeks=False):
    out, stack = [], []
    pk = peeks and r.random() < .5
    npk = 0
    for _ in range(n):
        tt = ''
        while stack and r.random() < .35:
            tt += {'(': ')', '[': ']', '{': '}'}[stack.pop()]
        x = r.random()
        k = {}
        if pk and not stack and npk < 3 and r.random() < .8:
            k['peek'] = True
            npk += 1
        elif not stack:
            pk = False
        if x < .25:
            c = r.choice('([{')
            stack.append(c)
            out.append(d(c, tt, **k) if r.random() < .7 or k else m(c, tt))
        elif x < .35 and not k:
            out.append(pl(r.choice([LI, ID, EX]), tt=tt))
        elif x < .45:
            out.append(p(ID, any=True, tt=tt, **k))
        else:
            out.append(p(r.choice([LI, LI, LS, ID, 'Token![=]', 'Token![,]']), tt=tt, **k))
    return out

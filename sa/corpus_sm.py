"""Witness structs for derive(StructMeta).

Each witness is a struct definition together with the documented meaning of every field
(`spec_sm.Field`).  The derive macro expands them at compile time; the analysis then
works on the compiled parsers.
"""
import random, re, os
from spec_sm import Field, Witness

TYPES = {'LitInt': 'syn::lit::LitInt', 'LitStr': 'syn::lit::LitStr', 'LitBool': 'syn::lit::LitBool',
         'Expr': 'syn::expr::Expr', 'Ident': 'proc_macro2::Ident', 'Type': 'syn::ty::Type', 'LitChar': 'syn::lit::LitChar'}
KINDS_PLAIN = ['bool', 'flag', 'val', 'vec', 'nv', 'nvo', 'na', 'nao', 'nav', 'naov']
KINDS_WRAP = ['val', 'vec', 'nv', 'nvo', 'na', 'nao', 'nav', 'naov']


class F:
    def __init__(self, mode, name, kind='val', T='LitInt', opt=False, spell=None, ident=None, attr=None, extra='', s=None):
        self.mode, self.name, self.kind, self.T, self.opt = mode, name, kind, T, opt
        self.spell = spell or {}
        self.ident, self.attr, self.extra = ident, attr, extra
        self.ts = s        # rendered type of T when it is not in TYPES

    def sp(self, n):
        return self.spell.get(n, n)

    def type_text(self):
        T = self.sp('T') if 'T' in self.spell else self.T
        k = self.kind
        o, v = self.sp('Option'), self.sp('Vec')
        nv, na = self.sp('NameValue'), self.sp('NameArgs')
        t = {'bool': self.sp('bool'), 'flag': self.sp('Flag'), 'val': T, 'vec': '%s<%s>' % (v, T), 'nv': '%s<%s>' % (nv, T),
             'nvo': '%s<%s<%s>>' % (nv, o, T), 'na': '%s<%s>' % (na, T), 'nao': '%s<%s<%s>>' % (na, o, T),
             'nav': '%s<%s<%s>>' % (na, v, T), 'naov': '%s<%s<%s<%s>>>' % (na, o, v, T)}[k]
        if self.mode == 'rest':
            return '%s<%s, %s>' % (self.sp('HashMap'), self.sp('String'), t)
        if self.mode == 'var':
            return '%s<%s>' % (v, T)
        if self.opt or self.mode == 'opt':
            return '%s<%s>' % (o, t)
        return t


def q(mode, name, kind='val', T='LitInt', **k):
    return F(mode, name, kind, T, **k)


class W:
    def __init__(self, id, shape, fields, filt=False, groups=(), item=None, pre='', derive='StructMeta', generics='', tail='',
                 sattr=None, wrap=None, name='W', uses=True, root=''):
        self.id, self.shape, self.fields, self.filt = id, shape, fields, filt
        self.groups = set(groups)
        self.pre, self.derive, self.generics, self.tail = pre, derive, generics, tail
        self.sattr, self.wrap, self.name, self.uses, self.root = sattr, wrap, name, uses, root

    def field_text(self, f, i):
        attrs = ''
        unn = f.mode in ('req', 'opt', 'var')
        if f.attr is not None:
            attrs = f.attr
        elif self.shape == 'named' and unn:
            attrs = '#[struct_meta(unnamed)] '
        elif self.shape == 'tuple' and f.mode == 'named':
            attrs = '#[struct_meta(name = "%s")] ' % f.name
        elif self.shape == 'named' and f.mode == 'named' and f.ident is not None and f.ident.replace('r#', '') != f.name:
            attrs = '#[struct_meta(name = "%s")] ' % f.name
        attrs = f.extra + attrs
        if self.shape == 'named':
            ident = f.ident or (f.name if f.mode == 'named' else '%s%d' % (f.mode, i))
            return '%s%s: %s' % (attrs, ident, f.type_text())
        return attrs + f.type_text()

    def text(self):
        fs = ', '.join(self.field_text(f, i) for i, f in enumerate(self.fields))
        sa = self.sattr
        if sa is None:
            sa = '#[struct_meta(name_filter = "snake_case")] ' if self.filt else ''
        head = '#[derive(%s)] %s%s' % (self.derive, sa, 'pub struct %s%s' % (self.name, self.generics))
        if self.shape == 'named':
            item = '%s %s { %s }' % (head, self.tail, fs)
        elif self.shape == 'tuple':
            item = '%s(%s) %s;' % (head, fs, self.tail)
        else:
            item = head + ';'
        uses = 'use ::structmeta::*; use ::syn::*; use ::std::collections::HashMap; ' if self.uses else ''
        body = self.wrap(item, fs) if self.wrap else item
        return 'pub mod %s { #![allow(unused)] %s%s%s }%s' % (self.id, uses, self.pre, body, self.root)

    def witness(self, crate):
        fs = []
        for i, f in enumerate(self.fields):
            T = f.ts or TYPES.get(f.T, f.T)
            whole = T
            fs.append(Field(i, f.mode, f.name, f.kind, T, f.opt, whole))
        near = near_names([f.name for f in fs if f.mode == 'named']) if 'near' in self.groups else ()
        return Witness(self.id, '<%s::%s::%s' % (crate, self.id, self.name), fs, self.filt, near,
                       max(len(f.name or '') for f in fs) + 2 if 'msg' in self.groups else 0)


def build(seed=1, thorough=False):
    ws = []

    def add(id, shape, fields, groups, **k):
        ws.append(W(id, shape, fields, groups=groups, **k))

    # --- one field of every kind -------------------------------------------------
    for k in KINDS_PLAIN:
        add('one_' + k, 'named', [q('named', 'aa', k)], ['one', 'named'])
    for k in KINDS_WRAP:
        add('opt_' + k, 'named', [q('named', 'aa', k, opt=True)], ['one', 'named'])
        add('rest_' + k, 'named', [q('rest', None, k)], ['one', 'rest'])
    # --- ... next to unnamed parameters ------------------------------------------
    for k in KINDS_PLAIN:
        add('uo_' + k, 'tuple', [q('named', 'aa', k), q('opt', None, T='LitStr' if k in ('val', 'nao') else 'Expr')], ['amb', 'pos'])
    for k in KINDS_WRAP:
        add('uv_' + k, 'named', [q('named', 'aa', k, opt=True), q('var', None, T='Expr')], ['amb', 'pos'])
        add('ur_' + k, 'tuple', [q('opt', None, T='Expr'), q('rest', None, k)], ['amb', 'rest', 'pos'])
    for k in ('bool', 'nvo', 'nao', 'vec'):
        add('uq_' + k, 'tuple', [q('req', None), q('named', 'aa', k)], ['amb', 'pos'])
    # --- several parameters, same and different styles, same types ---------------
    add('same2', 'named', [q('named', 'bb'), q('named', 'aa')], ['route'])
    add('same3', 'named', [q('named', 'zz', opt=True), q('named', 'aa'), q('named', 'mm', opt=True)], ['route'])
    add('same4', 'tuple', [q('named', 'n2', 'nv'), q('named', 'n10', 'nv', opt=True), q('named', 'n1', 'nvo'), q('named', 'n9', 'val')], ['route'])
    add('args3', 'named', [q('named', 'cc', 'na'), q('named', 'bb', 'nav', opt=True), q('named', 'aa', 'vec')], ['route'])
    add('flags3', 'named', [q('named', 'cc', 'bool'), q('named', 'aa', 'flag'), q('named', 'bb', 'bool')], ['route', 'flag'])
    add('multi3', 'named', [q('named', 'cc', 'nao'), q('named', 'aa', 'nvo'), q('named', 'bb', 'naov', opt=True)], ['route', 'style'])
    add('mix5', 'named', [q('named', 'ee', 'bool'), q('named', 'bb', 'nv'), q('named', 'cc', 'nao', opt=True), q('named', 'dd', 'vec'), q('named', 'aa', 'nvo')], ['route', 'style'])
    add('types5', 'named', [q('named', 'ee', 'val', 'LitStr'), q('named', 'bb', 'nv', 'LitBool', opt=True), q('named', 'cc', 'na', 'Expr'), q('named', 'dd', 'nvo', 'Ident'), q('named', 'aa', 'nav', 'Type', opt=True)], ['route'])
    add('big12', 'named', [q('named', 'p%d' % i, ['bool', 'nv', 'vec', 'nvo'][i % 4], opt=(i % 4 in (1, 2))) for i in range(12)], ['route', 'big'])
    add('big16', 'tuple', [q('named', 'q%d' % (15 - i), ['val', 'nao', 'flag', 'na', 'nv'][i % 5], ['LitInt', 'LitStr'][i % 2], opt=(i % 5 in (0, 3, 4))) for i in range(16)], ['route', 'big'])
    add('big20', 'named', [q('named', 'p%02d' % ((i * 7) % 20), 'nv', opt=True) for i in range(20)], ['route', 'big'])
    add('big13a', 'tuple', [q('named', 'a' * (13 - i), ['na', 'nav'][i % 2], opt=True) for i in range(13)] + [q('rest', None, 'nvo')], ['route', 'big', 'rest'])
    add('big13f', 'named', [q('named', 'f%d' % i, ['bool', 'flag'][i % 2]) for i in range(13)], ['route', 'big', 'flag'])
    for a in ('bool', 'val', 'na', 'nvo', 'nao'):
        for b in ('val', 'na', 'nvo', 'naov'):
            add('rr_%s_%s' % (a, b), 'named', [q('named', 'aa', a, opt=a in ('val', 'na')), q('rest', None, b, 'LitStr')], ['rest', 'style'])
    add('rest_many', 'named', [q('named', 'bb', 'nv'), q('rest', None, 'nao'), q('named', 'aa', 'bool'), q('named', 'cc', 'vec', opt=True)], ['rest', 'style'])
    # --- many ---------------------------------------------------------------------------
    add('big_n', 'named', [q('named', 'p%d' % i, ('bool', 'nv', 'na', 'flag')[i % 4], opt=i % 4 in (1, 2)) for i in range(24)], ['route', 'large'])
    add('big_u', 'tuple', [q('req', None) for _ in range(20)] + [q('opt', None) for _ in range(34)] + [q('named', 'aa', 'bool')], ['pos', 'large'])
    # --- positional ---------------------------------------------------------------
    for a in range(4):
        for b in range(3):
            for c in range(2):
                if a + b + c == 0 or (thorough is False and a == 3 and b == 2):
                    continue
                fs = [q('req', None) for _ in range(a)] + [q('opt', None) for _ in range(b)] + [q('var', None) for _ in range(c)]
                add('pos_%d%d%d' % (a, b, c), 'tuple', fs, ['pos'])
    add('pos_named', 'named', [q('req', None), q('named', 'nn', 'nv', opt=True), q('req', None, T='LitStr'), q('opt', None), q('named', 'ff', 'bool'), q('opt', None, T='LitStr'), q('var', None)], ['pos', 'amb'])
    add('pos_named2', 'tuple', [q('named', 'ff', 'flag'), q('req', None), q('named', 'vv', 'val'), q('var', None, T='Ident')], ['pos', 'amb'])
    add('pos_named3', 'tuple', [q('opt', None), q('opt', None), q('opt', None), q('named', 'vv', 'val', opt=True)], ['pos', 'amb'])
    add('pos_rest', 'tuple', [q('req', None), q('opt', None), q('rest', None, 'nv'), q('var', None)], ['pos', 'rest', 'amb'])
    add('pos_11', 'tuple', [q('req', None, T=['LitInt', 'LitStr'][i % 3 == 2]) for i in range(11)], ['pos', 'big'])
    add('pos_0b', 'tuple', [q('opt', None, T=['LitInt', 'LitStr'][i % 3 == 2]) for i in range(11)] + [q('named', 'ff', 'bool')], ['pos', 'big'])
    add('pos_341', 'named', [q('req', None), q('req', None, T='LitStr'), q('req', None), q('named', 'xx', 'vec'), q('opt', None, T='LitStr'), q('opt', None), q('opt', None, T='LitStr'), q('opt', None), q('var', None, T='LitStr')], ['pos', 'big'])
    # --- name filter ----------------------------------------------------------------
    for k in ('bool', 'nvo', 'na', 'val'):
        add('flt_' + k, 'named', [q('named', 'aa', k), q('opt', None, T='Expr')], ['filter'], filt=True)
        add('fltr_' + k, 'tuple', [q('var', None, T='Expr'), q('rest', None, 'nao' if k == 'bool' else k)], ['filter', 'rest'], filt=True)
    add('flt_only', 'named', [q('named', 'aa', 'nvo'), q('named', 'Bb', 'bool'), q('named', 'c_1', 'val', opt=True)], ['filter'], filt=True)
    add('flt_upper', 'named', [q('named', 'Aa', 'bool'), q('opt', None, T='Expr')], ['filter'], filt=True)
    add('flt_digit', 'named', [q('named', 'a1', 'bool'), q('named', '_a', 'bool'), q('opt', None, T='Expr')], ['filter'], filt=True)
    add('flt_none', 'named', [q('named', 'Aa', 'nao'), q('named', 'aA', 'bool'), q('opt', None, T='Expr')], ['filter', 'amb'])
    # --- names ------------------------------------------------------------------------
    add('raw', 'named', [q('named', 'type', 'nv', ident='r#type'), q('named', 'match', 'bool', ident='r#match'), q('named', 'self', 'vec', opt=True, ident='s')], ['names', 'route'])
    add('rename', 'named', [q('named', 'bb', 'nv', ident='aa'), q('named', 'aa', 'nv', ident='bb'), q('opt', None, ident='cc')], ['names', 'route'])
    add('doc', 'named', [q('named', 'aa', 'nv', extra='/** documented */ #[allow(dead_code)] '), q('opt', None, extra='#[doc = "x"] #[cfg(all())] ')], ['names', 'pos'])
    add('attr2', 'tuple', [q('named', 'aa', 'bool', attr='#[struct_meta(name = "aa",)] '), q('named', 'bb', 'nv', attr='#[struct_meta()] #[struct_meta(name = "bb")] ')], ['names'])
    add('cfgattr', 'named', [q('named', 'xx', 'nvo', ident='aa', attr='#[cfg_attr(all(), struct_meta(name = "xx"))] ')], ['names'])
    add('unn_last', 'named', [q('named', 'aa', 'bool'), q('opt', None, ident='bb', attr='#[struct_meta(name = "zz", unnamed)] ')], ['names', 'pos'])
    # --- names that resemble each other -------------------------------------------------
    add('near1', 'named', [q('named', 'aa', 'nv', opt=True), q('named', 'a_', 'bool')], ['names', 'near'])
    add('near2', 'named', [q('named', 'foo_bar', 'nvo', opt=True), q('opt', None, T='LitStr')], ['names', 'near'])
    add('near3', 'named', [q('named', 'Aa', 'nao', opt=True), q('named', 'aA', 'nv', opt=True)], ['names', 'near'])
    add('near4', 'named', [q('named', 'aa', 'bool'), q('rest', None, 'nv')], ['names', 'near', 'rest'])
    add('near5', 'tuple', [q('named', '_a', 'na', opt=True), q('named', 'type', 'bool'), q('rest', None, 'na')], ['names', 'near', 'rest'])
    add('near6', 'tuple', [q('named', 'ab', 'nv'), q('named', 'ba', 'nv', opt=True)], ['names', 'near'])
    add('near7', 'named', [q('named', 'aa', 'nvo'), q('named', 'A1', 'bool'), q('opt', None, T='Expr')], ['names', 'near', 'filter'], filt=True)
    add('near8', 'named', [q('named', n, 'bool') for i, n in enumerate(('x', 'X', 'x_', '_x', 'x1', 'x_1', 'Xx', 'xX', 'x_x'))], ['names', 'near', 'route'])
    add('near9', 'named', [q('named', n, 'bool', ident=i) for n, i in (('type', 'r#type'), ('Type', 'Type'), ('type_', 'type_'), ('b', 'a'), ('a', 'b'), ('_0', '_0'), ('_1', '_1'), ('_value_0', '_value_0'))], ['names', 'near', 'route'])
    add('near10', 'tuple', [q('req', None)] + [q('named', n, 'flag') for i, n in enumerate(('x', 'X', 'x_', '_x', '_1', '_2', 'xx'))], ['names', 'near', 'route'])
    # --- unlisted identifiers spelled out character by character (texts of error messages) ----
    for i, ns in enumerate((['a'], ['abcdefgh'], ['abababa'], ['abcdefghijklmnopq'], ['aaaaaa', 'aaaaa'], ['ab'], ['ba', 'ab'], ['abc', 'a'], ['\u00e9a'], ['aab', 'ab', 'b'])):
        add('msg%d' % i, 'named', [q('named', n, ('nv', 'na', 'bool')[j], opt=j < 2) for j, n in enumerate(ns)], ['msg'])
    for i, ns in enumerate((['zz', 'ab'], ['ba', 'zz', 'abc'], ['ab', 'ba', 'q'])):
        for m in ('nv', 'na', 'bool'):
            add('msg_%s%d' % (m, i), 'named', [q('named', n, m, opt=m != 'bool') for n in ns], ['msg'])
    add('uni', 'named', [q('named', 'gr\u00f6\u00dfe', 'nv'), q('named', '\u540d', 'bool'), q('named', 'o', 'val', opt=True)], ['names', 'route'])
    add('long', 'named', [q('named', 'a_very_long_parameter_name_that_goes_on', 'nv', opt=True), q('named', 'a_very_long_parameter_name_that_goes_on_', 'nv', opt=True), q('opt', None)], ['names', 'route', 'near'])
    add('attr3', 'named', [q('named', 'zz', 'bool', ident='a', attr='#[struct_meta(name = "yy", name = "zz")] '), q('opt', None, ident='b', attr='#[struct_meta(unnamed)] #[struct_meta(name = "qq")] '),
                           q('named', 'ww', 'val', opt=True, ident='c', attr='#[struct_meta(name = "vv")] #[doc = "x"] #[struct_meta(name = "ww")] ')], ['names', 'pos'])
    add('attr4', 'tuple', [q('named', 'r', 'val', 'HashMap<String, LitInt>', s='std::collections::hash::map::HashMap<alloc::string::String, syn::lit::LitInt>', attr='#[struct_meta(name = "r")] ')], ['names'],
        pre='use self::own::HashMap; pub mod own { pub struct HashMap<A, B>(pub A, pub B); impl<A, B> ::syn::parse::Parse for HashMap<A, B> { fn parse(_: ::syn::parse::ParseStream) -> ::syn::Result<Self> { todo!() } } } ') if False else None
    # --- values of unusual types -------------------------------------------------------
    add('vt1', 'named', [q('named', 'aa', 'val', 'Option<LitInt>', opt=True, s='core::option::Option<syn::lit::LitInt>'), q('named', 'bb', 'val', 'Box<Expr>', s='alloc::boxed::Box<syn::expr::Expr>'), q('named', 'cc', 'na', 'Token![fn]', s='syn::token::Fn'),
                         q('named', 'dd', 'nv', '::syn::punctuated::Punctuated<In, Token![,]>' if False else 'In', s='sm::vt1::In'), q('named', 'ee', 'nav', 'In', s='sm::vt1::In', opt=True)], ['route', 'style'],
        pre='#[derive(StructMeta)] pub struct In { a: LitInt, b: Flag } ')
    add('vt2', 'tuple', [q('req', None, T='Token![=]', s='syn::token::Eq'), q('opt', None, T='Option<LitInt>', s='core::option::Option<syn::lit::LitInt>'), q('var', None, T='Option<LitStr>', s='core::option::Option<syn::lit::LitStr>'),
                         q('rest', None, 'val', 'Option<Ident>', s='core::option::Option<proc_macro2::Ident>')], ['pos', 'rest', 'amb'])
    add('vt3', 'named', [q('named', 'aa', 'nvo', 'Option<LitInt>', s='core::option::Option<syn::lit::LitInt>'), q('named', 'bb', 'naov', 'Option<LitInt>', s='core::option::Option<syn::lit::LitInt>'), q('named', 'cc', 'nao', 'Box<Option<LitInt>>', s='alloc::boxed::Box<core::option::Option<syn::lit::LitInt>>')], ['route', 'style'])
    # --- empty -----------------------------------------------------------------------
    add('unit', 'unit', [], ['empty', 'pos'])
    add('empty_named', 'named', [], ['empty', 'pos'])
    add('empty_tuple', 'tuple', [], ['empty', 'pos'])
    # --- spelling of types -------------------------------------------------------------
    std = {'Option': 'std::option::Option', 'Vec': 'std::vec::Vec', 'HashMap': 'std::collections::HashMap', 'String': 'std::string::String',
           'NameValue': 'structmeta::NameValue', 'NameArgs': 'structmeta::NameArgs', 'Flag': 'structmeta::Flag', 'bool': 'std::primitive::bool'}
    core = {'Option': '::core::option::Option', 'Vec': '::std::vec::Vec', 'HashMap': '::std::collections::hash_map::HashMap', 'String': '::std::string::String',
            'NameValue': '::structmeta::NameValue', 'NameArgs': '::structmeta::NameArgs', 'Flag': '::structmeta::Flag', 'bool': '::core::primitive::bool'}
    half = {'Option': 'option::Option', 'Vec': 'vec::Vec', 'HashMap': 'collections::HashMap', 'String': 'string::String'}
    alloc = {'Vec': 'alloc::vec::Vec', 'String': 'alloc::string::String', 'HashMap': 'hash_map::HashMap'}
    for n, sp, pre in (('std', std, 'use structmeta;'), ('core', core, ''),
                       ('half', half, 'use std::{option, vec, collections, string};'),
                       ('alloc', alloc, 'extern crate alloc; use std::collections::hash_map;')):
        pre = '' if n == 'std' else pre
        add('sp1_' + n, 'named', [q('named', 'aa', 'bool', spell=sp), q('named', 'bb', 'nvo', spell=sp, opt=True), q('named', 'cc', 'naov', spell=sp),
                                  q('named', 'dd', 'vec', spell=sp), q('named', 'ff', 'flag', spell=sp)], ['classify'], pre=pre)
        add('sp2_' + n, 'tuple', [q('req', None), q('opt', None, spell=sp), q('var', None, spell=sp), q('rest', None, 'nao', spell=sp)], ['classify'], pre=pre)
    add('sp_own', 'named', [q('named', 'aa', 'val', 'own::Flag', s='sm::sp_own::own::Flag'), q('named', 'bb', 'val', 'own::Vec<LitInt>', s='sm::sp_own::own::Vec<syn::lit::LitInt>')], ['classify'],
        pre='pub mod own { pub struct Flag; pub struct Vec<T>(T); impl ::syn::parse::Parse for Flag { fn parse(_: ::syn::parse::ParseStream) -> ::syn::Result<Self> { todo!() } } impl<T> ::syn::parse::Parse for Vec<T> { fn parse(_: ::syn::parse::ParseStream) -> ::syn::Result<Self> { todo!() } } } ')

    def local(decls):
        out = ''
        for d in decls.split(' '):
            n, g = (d.split('<')[0], '<' + d.split('<')[1]) if '<' in d else (d, '')
            out += ('#[allow(non_camel_case_types)] pub struct %s%s%s; impl%s ::syn::parse::Parse for %s%s { fn parse(_: ::syn::parse::ParseStream) -> ::syn::Result<Self> { todo!() } } '
                    % (n, g, '(%s)' % ', '.join('pub ' + x for x in g[1:-1].split(',')) if g else '', g, n, g))
        return out

    def val(name, ty, rendered, opt=False, mode='named', kind='val'):
        return q(mode, name, kind, ty, opt=opt, s=rendered)
    LI = 'syn::lit::LitInt'
    own = ('pub mod own { pub mod std { pub mod option { %s} pub mod vec { %s} pub mod primitive { %s} pub mod collections { %s} pub mod string { %s} } pub mod core { pub mod primitive { %s} } '
           'pub mod structmeta { %s} pub mod option { %s} pub mod vec { %s} } '
           % tuple(map(local, ('Option<A>', 'Vec<A>', 'bool', 'HashMap<A,B>', 'String', 'bool', 'Flag NameValue<A> NameArgs<A>', 'Option<A>', 'Vec<A>'))))
    for pfx, n in (('own::', 'sp_long'), ('self::own::', 'sp_self')):
        r = 'sm::%s::own::' % n
        add(n, 'named', [val('aa', pfx + 'std::option::Option<LitInt>', r + 'std::option::Option<%s>' % LI), val('bb', pfx + 'std::vec::Vec<LitInt>', r + 'std::vec::Vec<%s>' % LI),
                         val('cc', pfx + 'structmeta::Flag', r + 'structmeta::Flag', opt=True), val('dd', pfx + 'structmeta::NameValue<LitInt>', r + 'structmeta::NameValue<%s>' % LI),
                         val('ee', pfx + 'structmeta::NameArgs<LitInt>', r + 'structmeta::NameArgs<%s>' % LI, opt=True), val('ff', pfx + 'std::primitive::bool', r + 'std::primitive::bool'),
                         val('gg', pfx + 'std::collections::HashMap<String, LitInt>', r + 'std::collections::HashMap<alloc::string::String, %s>' % LI)], ['classify'], pre=own)
        add(n + '_b', 'tuple', [val(None, pfx + 'std::option::Option<LitInt>', (r + 'std::option::Option<%s>' % LI).replace(n, n + '_b'), mode='req'),
                                val(None, pfx + 'option::Option<LitInt>', (r + 'option::Option<%s>' % LI).replace(n, n + '_b'), mode='req'),
                                val(None, pfx + 'vec::Vec<LitInt>', (r + 'vec::Vec<%s>' % LI).replace(n, n + '_b'), mode='opt'),
                                val(None, pfx + 'std::vec::Vec<LitInt>', (r + 'std::vec::Vec<%s>' % LI).replace(n, n + '_b'), mode='var')], ['classify'], pre=own)
    r = 'sm::sp_inner::own::'
    add('sp_inner', 'named', [val('aa', 'own::std::option::Option<LitInt>', r + 'std::option::Option<%s>' % LI, kind='nv'), val('bb', 'own::std::vec::Vec<LitInt>', r + 'std::vec::Vec<%s>' % LI, kind='na', opt=True),
                              val('cc', 'own::structmeta::Flag', r + 'structmeta::Flag', kind='nvo'), val('dd', 'own::structmeta::NameValue<LitInt>', r + 'structmeta::NameValue<%s>' % LI, kind='vec'),
                              val('ee', 'own::std::option::Option<LitInt>', r + 'std::option::Option<%s>' % LI, kind='naov')], ['classify'], pre=own)
    # paths that begin with self, super, crate and go on like a recognised one
    mods = 'pub mod option { %s} pub mod vec { %s} pub mod primitive { %s} pub mod collections { %s} pub mod string { %s} pub mod structmeta { %s} ' % tuple(
        map(local, ('Option<A>', 'Vec<A>', 'bool', 'HashMap<A,B>', 'String', 'Flag NameValue<A> NameArgs<A>')))
    mods += 'pub mod std { %s} pub mod alloc { %s} ' % (mods, mods.split('pub mod primitive')[0])
    kw_types = [('option::Option', 1), ('vec::Vec', 1), ('structmeta::Flag', 0), ('structmeta::NameValue', 1), ('structmeta::NameArgs', 1), ('primitive::bool', 0),
                ('std::option::Option', 1), ('std::vec::Vec', 1), ('alloc::vec::Vec', 1), ('std::collections::HashMap', 2), ('collections::HashMap', 2), ('std::primitive::bool', 0), ('std::structmeta::Flag', 0)]
    for kw in ('self', 'super', 'crate'):
        for part, sel in (('a', kw_types[:6]), ('b', kw_types[6:])):
            for t in ('', 't'):
                n = 'sp_kw_%s_%s%s' % (kw, part, t)
                # all definitions of the crate's root are in one place
                base = 'sm::' + ('%s::' % n if kw == 'self' else '')
                add(n, 'tuple' if t else 'named', [val(None if t else 'p%d' % i, '%s::%s' % (kw, ty) + ('', '<LitInt>', '<String, LitInt>')[g], base + ty + ('', '<%s>' % LI, '<alloc::string::String, %s>' % LI)[g],
                                                       mode='req' if t else 'named', opt=not t and i % 3 == 1) for i, (ty, g) in enumerate(sel)], ['classify'],
                    pre=mods if kw == 'self' else '', root=' ' + mods if (kw, part, t) == ('super', 'a', '') else '')
    # modules whose names merely resemble the real ones
    for ai, aff in enumerate((lambda m: 'x' + m, lambda m: m + 'x', lambda m: m.upper(), lambda m: 'my_' + m, lambda m: m + '_2', lambda m: m[1:], lambda m: m[:-1])):
        n = 'sp_aff%d' % ai
        pre = ('pub mod %s { %s} pub mod %s { %s} pub mod %s { %s} pub mod %s { %s} ' % tuple(x for m, d in (
            ('option', 'Option<A>'), ('vec', 'Vec<A>'), ('primitive', 'bool'), ('structmeta', 'Flag NameValue<A> NameArgs<A>')) for x in (aff(m), local(d)))
            + 'pub mod %s { pub mod option { %s} pub mod vec { %s} pub mod collections { %s} } pub mod %s { pub mod primitive { %s} } pub mod std { pub mod %s { %s} } ' % (
                aff('std'), local('Option<A>'), local('Vec<A>'), local('HashMap<A,B>'), aff('core'), local('bool'), aff('option'), local('Option<A>')))
        fs = [(aff('option') + '::Option', 1), (aff('vec') + '::Vec', 1), (aff('primitive') + '::bool', 0), (aff('structmeta') + '::Flag', 0), (aff('structmeta') + '::NameValue', 1),
              (aff('structmeta') + '::NameArgs', 1), (aff('std') + '::option::Option', 1), (aff('std') + '::vec::Vec', 1), (aff('core') + '::primitive::bool', 0), ('std::%s::Option' % aff('option'), 1),
              (aff('std') + '::collections::HashMap', 2)]
        for part, sel in (('a', fs[:6]), ('b', fs[6:])):
            add(n + part, 'named', [val('p%d' % i, ty + ('', '<LitInt>', '<String, LitInt>')[g], 'sm::%s::%s' % (n + part, ty) + ('', '<%s>' % LI, '<alloc::string::String, %s>' % LI)[g], opt=i % 3 == 1 and not ty.endswith('Option'))
                                    for i, (ty, g) in enumerate(sel)], ['classify'], pre=pre)
            add(n + part + 't', 'tuple', [val(None, ty + ('', '<LitInt>', '<String, LitInt>')[g], 'sm::%s::%s' % (n + part + 't', ty) + ('', '<%s>' % LI, '<alloc::string::String, %s>' % LI)[g], mode='req')
                                          for i, (ty, g) in enumerate(sel)], ['classify'], pre=pre)
    # the same names with another number of parameters
    for n, types in (('sp_ar0', 'Option Vec NameValue NameArgs'), ('sp_ar1', 'bool<A> Flag<A>'), ('sp_ar2', 'Option<A,B> Vec<A,B> NameValue<A,B> NameArgs<A,B>'), ('sp_sub', 'Optional<A> Vector<A> NameValues<A> NameArg<A> Bool Flags')):
        fs = []
        for i, d in enumerate(types.split(' ')):
            ty, g = d.split('<')[0], 'LitInt' * ('<' in d) + ', LitInt' * (',' in d)
            rd = 'sm::%s::%s' % (n, ty) + ('<%s>' % g.replace('LitInt', LI) if g else '')
            fs.append(val('p%d' % i, ty + ('<%s>' % g if g else ''), rd, opt=i % 2 == 1 and 'Option' not in types))
        k = 'use ::structmeta::StructMeta; use ::syn::LitInt; '
        add(n, 'named', fs, ['classify'], pre=k + local(types), uses=False)
        add(n + '_b', 'tuple', [val(None, f.T, f.ts.replace(n, n + '_b'), mode='req') for f in fs], ['classify'], pre=k + local(types), uses=False)
    add('sp_map', 'named', [val('aa', 'own::HashMap<String, LitInt>', 'sm::sp_map::own::HashMap<alloc::string::String, %s>' % LI),
                            val('bb', 'own::BTreeMap<String, LitInt>', 'sm::sp_map::own::BTreeMap<alloc::string::String, %s>' % LI),
                            q('rest', None, 'nv')], ['classify', 'rest'], pre='pub mod own { %s} ' % local('HashMap<A,B> BTreeMap<A,B>'))

    def mac_ty(item, fs):
        return ('macro_rules! m { ($($n:ident : $t:ty),*; $($o:ty),*; $u:ty) => { #[derive(StructMeta)] pub struct W { $($n: $t,)* '
                'oo: Option<$u>, vv: Vec<$u>, #[struct_meta(unnamed)] uu: Option<$u>, ha: HashMap<String, NameArgs<$u>> } } } '
                'm!(aa: bool, bb: NameValue<Option<LitInt>>, cc: Option<NameArgs<LitInt>>, dd: Vec<LitInt>, ff: Flag; ; LitInt);')
    add('mac_ty', 'named', [q('named', 'aa', 'bool'), q('named', 'bb', 'nvo'), q('named', 'cc', 'na', opt=True), q('named', 'dd', 'vec'), q('named', 'ff', 'flag'),
                            q('named', 'oo', 'val', opt=True), q('named', 'vv', 'vec'), q('opt', None), q('rest', None, 'na')], ['classify', 'hygiene'], wrap=mac_ty)

    # fragments in fragments, qualified paths in fragments, fragments inside the recognised types
    def mac_tyq(item, fs):
        return ('macro_rules! a { ($($x:ty),*; $($u:ty),*) => { b! { $($x),*; $($u),* } } } '
                'macro_rules! b { ($a:ty, $b:ty, $c:ty, $d:ty, $e:ty, $f:ty, $h:ty, $r:ty; $p:ty, $q:ty) => { #[derive(StructMeta)] pub struct W { aa: $a, bb: $b, cc: $c, dd: $d, ee: $e, ff: $f, '
                'gg: ::structmeta::NameArgs<$p>, hh: std::option::Option<$h>, ii: Option<NameArgs<$p>>, jj: NameValue<$q>, #[struct_meta(unnamed)] kk: $q, #[struct_meta(unnamed)] ll: $p, rr: $r } } } '
                'a!(::std::primitive::bool, ::structmeta::NameValue<std::option::Option<LitInt>>, std::option::Option<structmeta::NameArgs<LitInt>>, ::std::vec::Vec<::syn::LitInt>, ::structmeta::Flag, '
                'core::option::Option<LitInt>, ::structmeta::NameValue<::syn::LitInt>, ::std::collections::HashMap<::std::string::String, ::structmeta::NameArgs<std::vec::Vec<LitInt>>>; '
                'std::vec::Vec<LitInt>, ::core::option::Option<::syn::LitInt>);')
    add('mac_tyq', 'named', [q('named', 'aa', 'bool'), q('named', 'bb', 'nvo'), q('named', 'cc', 'na', opt=True), q('named', 'dd', 'vec'), q('named', 'ee', 'flag'), q('named', 'ff', 'val', opt=True),
                             q('named', 'gg', 'nav'), q('named', 'hh', 'nv', opt=True), q('named', 'ii', 'nav', opt=True), q('named', 'jj', 'nvo'), q('opt', None), q('var', None),
                             q('rest', None, 'nav')], ['classify', 'hygiene'], pre='use structmeta;', wrap=mac_tyq)

    def mac_own(item, fs):
        return ('macro_rules! m { ($($n:ident : $t:ty),*) => { #[derive(StructMeta)] pub struct W { $($n: $t),* } } } '
                'm!(aa: own::std::option::Option<LitInt>, bb: own::structmeta::Flag, cc: own::std::vec::Vec<LitInt>);')
    r = 'sm::mac_own::own::'
    add('mac_own', 'named', [val('aa', 'x', r + 'std::option::Option<%s>' % LI), val('bb', 'x', r + 'structmeta::Flag'), val('cc', 'x', r + 'std::vec::Vec<%s>' % LI)], ['classify'], pre=own, wrap=mac_own)

    def mac_tt(item, fs):
        return 'macro_rules! m { ($($f:tt)*) => { #[derive(StructMeta)] pub struct W { $($f)* } } } m!(%s);' % fs
    add('mac_tt', 'named', [q('named', 'aa', 'bool'), q('named', 'bb', 'nvo'), q('named', 'cc', 'na', opt=True), q('named', 'dd', 'vec'), q('named', 'ff', 'flag'),
                            q('named', 'gg', 'naov'), q('req', None), q('opt', None), q('var', None)], ['hygiene'], wrap=mac_tt)
    add('mac_tt2', 'named', [q('req', None), q('req', None), q('rest', None, 'nao')], ['hygiene'], wrap=mac_tt)
    def mac_lit(item, fs):
        return ('macro_rules! m { ($(#[$m:meta])* $v:vis $s:ident $l:literal $p:path, $q:path, $g:ty, $k:tt) => { #[derive(StructMeta)] $(#[$m])* $v struct $s { #[struct_meta(name = $l)] pub aa: $p, '
                'pub bb: Option<$q>, #[struct_meta(unnamed)] pub cc: Option<$g>, #[struct_meta($k)] pub dd: $p } } } m!(#[doc = "x"] #[struct_meta(name_filter = "snake_case")] pub W "zz" NameValue<LitInt>, NameArgs<Vec<LitInt>>, Expr, unnamed2);').replace(', $k:tt', '').replace(', #[struct_meta($k)] pub dd: $p', '').replace(', unnamed2', '')
    add('mac_lit', 'named', [q('named', 'zz', 'nv'), q('named', 'bb', 'nav', opt=True), q('opt', None, T='Expr')], ['classify', 'hygiene'], wrap=mac_lit, filt=True)
    # --- generics -----------------------------------------------------------------------
    add('gen1', 'named', [q('named', 'aa', 'val', 'T', s='T'), q('named', 'bb', 'na', 'U', s='U', opt=True), q('var', None, T='T', s='T')], ['generic'],
        generics='<T: ::syn::parse::Parse, U = LitInt>', tail='where U: ::syn::parse::Parse')
    add('gen2', 'tuple', [q('req', None, T='T', s='T'), q('opt', None, T='T', s='T'), q('rest', None, 'nvo', 'T', s='T')], ['generic'],
        generics='<T, const N: usize>', tail='where T: ::syn::parse::Parse + Clone')
    add('gen3', 'named', [q('named', 'aa', 'nv', "Ph<'a, N>", s="sm::gen3::Ph<'_, N>"), q('named', 'bb', 'nav', 'T', s='T', opt=True), q('opt', None, T='U', s='U')], ['generic'],
        generics="<'a, T: 'a, U = LitInt, const N: usize = 3>", tail="where Self: Sized, T: ::syn::parse::Parse, U: ::syn::parse::Parse, for<'x> &'x T: Copy",
        pre="pub struct Ph<'a, const N: usize>(::std::marker::PhantomData<&'a u8>); impl<'a, const N: usize> ::syn::parse::Parse for Ph<'a, N> { fn parse(_: ::syn::parse::ParseStream) -> ::syn::Result<Self> { todo!() } } ")
    add('gen4', 'named', [q('named', 'aa', 'na', 'Box<Self>', s='alloc::boxed::Box<sm::gen4::W<T>>', opt=True), q('named', 'bb', 'nao', 'T::B', s='<T as sm::gen4::A>::B'), q('named', 'cc', 'vec', 'Self', s='sm::gen4::W<T>', opt=True)], ['generic'],
        generics='<T: A>', tail='where T::B: ::syn::parse::Parse', pre='pub trait A { type B; } ')
    # --- hostile surroundings --------------------------------------------------------------
    hostile = 'pub mod syn {} pub mod structmeta {} pub mod std {} pub mod core {} pub mod quote {} pub mod proc_macro2 {} '
    nsp = {'NameValue': '::structmeta::NameValue', 'NameArgs': '::structmeta::NameArgs', 'Flag': '::structmeta::Flag', 'T': '::syn::LitInt',
           'HashMap': '::std::collections::HashMap'}
    add('host1', 'named', [q('named', 'aa', k, spell=nsp) if i == 0 else q('named', 'n%d' % i, k, spell=nsp) for i, k in enumerate(KINDS_PLAIN)], ['hygiene'],
        pre=hostile, uses=False, derive='::structmeta::StructMeta')
    add('host2', 'tuple', [q('req', None, spell=nsp), q('req', None, spell=nsp), q('opt', None, spell=nsp), q('var', None, spell=nsp), q('rest', None, 'nao', spell=nsp)], ['hygiene'],
        pre=hostile, uses=False, derive='::structmeta::StructMeta')
    add('host3', 'named', [q('named', n, 'nv', opt=True) for n in ('input', 'span', 'index', 'name', 'is_next', 'content', 'named_used', 'unnamed_index', '_value_1')], ['hygiene', 'route'])
    # --- names taken from the derive's own sources ------------------------------------------
    names = harvest()
    for i in range(0, len(names), 7):
        chunk = names[i:i + 7]
        ks = ['nv', 'bool', 'vec', 'nvo', 'na', 'nao']
        add('harv%d' % (i // 7), 'tuple', [q('named', n, ks[(i + j) % 6], opt=ks[(i + j) % 6] in ('nv', 'vec')) for j, n in enumerate(chunk)], ['names', 'harvest'])
    # --- seeded random structs ------------------------------------------------------------------
    rnd = random.Random(seed)
    for i in range(800 if thorough else 12):
        add('rnd%d' % i, rnd.choice(['named', 'tuple']), random_fields(rnd, 9 if thorough else 7), ['random', 'route', 'pos', 'style', 'rest', 'amb'],
            filt=rnd.random() < .2)
    return [w for w in ws if w is not None]


def near_names(names):
    """identifiers that are not parameter names but resemble one"""
    out = set()
    for n in names:
        out |= {n.upper(), n.lower(), n.capitalize(), n + '_', '_' + n, n + n[-1], n[:-1], n[1:], n + '1', n + '_1', 'r#' + n, n.replace('_', ''),
                n.strip('_'), n[1:2] + n[:1] + n[2:], n[:-1] + chr(ord(n[-1]) % 25 + 97), n.replace('a', '\u0430'), n.replace('_', '__'),
                'set_' + n, n + 's', re.sub('_(.)', lambda m: m.group(1).upper(), n), re.sub('([A-Z])', lambda m: '_' + m.group(1).lower(), n)}
    return tuple(sorted(x for x in out - set(names) if x and not x[0].isdigit() and x not in ('_', 'r#_') and x.replace('r#', '')))


def random_fields(rnd, n):
    fs = []
    names = rnd.sample(['aa', 'bb', 'cc', 'x', 'y1', 'long_name', 'Zz', '_p', 'n2', 'n10'], 6)
    k = rnd.randint(2, n)
    nreq, nopt, nvar = rnd.choice([0, 0, 1, 2]), rnd.choice([0, 0, 1, 2]), rnd.choice([0, 0, 1])
    tys = ['LitInt', 'LitStr', 'Expr']
    if rnd.random() < .5:
        tys = ['LitInt']
    unn = [q('req', None, T=rnd.choice(tys)) for _ in range(nreq)] + [q('opt', None, T=rnd.choice(tys)) for _ in range(nopt)] + [q('var', None, T=rnd.choice(tys)) for _ in range(nvar)]
    named = []
    for m in names[:max(1, min(k - len(unn), 5))]:
        o = rnd.random() < .5
        named.append(q('named', m, rnd.choice(KINDS_WRAP if o else KINDS_PLAIN), rnd.choice(tys), opt=o))
    if rnd.random() < .4:
        named.append(q('rest', None, rnd.choice(KINDS_WRAP), rnd.choice(tys)))
    # interleave, keeping the order of the unnamed ones
    out = []
    while unn or named:
        if unn and (not named or rnd.random() < .5):
            out.append(unn.pop(0))
        else:
            out.append(named.pop(0))
    return out


def harvest(repo='/repo'):
    """identifier-like string literals of the derive and its helpers"""
    out = set()
    for d in ('structmeta-derive/src', 'structmeta/src'):
        p = os.path.join(repo, d)
        for f in sorted(os.listdir(p)):
            if not f.endswith('.rs') or f == 'easy_syntax.rs':
                continue
            s = open(os.path.join(p, f), errors='replace').read()
            s = re.sub(r'^\s*//.*$', '', s, flags=re.M)
            for m in re.findall(r'"([A-Za-z_][A-Za-z0-9_]{0,20})"', s):
                if m != '_':
                    out.add(m)
    return sorted(out)[:45]

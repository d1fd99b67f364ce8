"""Definitions that must be rejected: each one on its own line of a witness crate.

phase 'macro': the derive itself has to report the error; phase 'type': the compiler has to
reject the expansion (a field type that lacks the needed trait)."""


import itertools
import os
import random
import re


class CF:
    def __init__(self, id, derive, rule, item, phase='macro', pre='', ok=False):
        self.id, self.derive, self.rule, self.item, self.phase, self.pre, self.ok = id, derive, rule, item, phase, pre, ok

    @property
    def props(self):
        return {'StructMeta': {'S14'}, 'Parse': {'P07'}, 'ToTokens': {'T03'}}[self.derive]

    def text(self):
        return 'pub mod %s { #![allow(unused)] use ::structmeta::{Flag, NameArgs, NameValue}; use ::syn::*; use ::syn::punctuated::Punctuated; use ::std::collections::HashMap; %s #[derive(::structmeta::%s)] %s }' % (
            self.id, self.pre, self.derive, self.item)


def build(seed=1, thorough=False):
    ws = []
    n = {}

    def add(derive, rule, *items, **k):
        for it in items:
            p = {'StructMeta': 's', 'Parse': 'p', 'ToTokens': 't'}[derive]
            if k.get('phase') == 'type':
                p = 'y' + p
            n[p] = n.get(p, 0) + 1
            ws.append(CF('%s%d' % (p, n[p]), derive, rule, it, **k))

    # ---------------------------------------------------------------- StructMeta
    add('StructMeta', 'only structs are supported', 'pub enum W { A, B }', 'pub enum W { A(LitInt) }', 'pub enum W {}', 'pub union W { a: u8, b: u8 }')
    add('StructMeta', 'no unnamed parameter may follow a variadic one',
        'pub struct W(Vec<LitInt>, LitStr);', 'pub struct W(Vec<LitInt>, Vec<LitStr>);', 'pub struct W(Vec<LitInt>, Option<LitStr>);',
        'pub struct W(LitInt, Option<LitInt>, Vec<LitInt>, LitStr);', 'pub struct W(LitStr, Vec<LitInt>, LitStr);',
        'pub struct W { #[struct_meta(unnamed)] a: Vec<LitInt>, b: LitInt, #[struct_meta(unnamed)] c: LitStr }',
        'pub struct W { #[struct_meta(unnamed)] a: Vec<LitInt>, #[struct_meta(unnamed)] b: Vec<LitInt> }',
        'pub struct W(Vec<LitInt>, #[struct_meta(name = "x")] LitInt, Option<LitInt>);',
        'pub struct W(Vec<LitInt>, #[struct_meta(name = "x", unnamed)] LitInt);',
        'pub struct W(LitInt, Vec<LitInt>, HashMap<String, LitInt>, LitInt);')
    add('StructMeta', 'no required unnamed parameter may follow an optional one',
        'pub struct W(Option<LitInt>, LitStr);', 'pub struct W(LitInt, Option<LitInt>, LitStr);', 'pub struct W(Option<LitInt>, Option<LitInt>, LitStr);',
        'pub struct W { #[struct_meta(unnamed)] a: Option<LitInt>, #[struct_meta(unnamed)] b: LitInt }',
        'pub struct W { #[struct_meta(unnamed)] a: Option<LitInt>, z: LitInt, #[struct_meta(unnamed)] b: LitInt }',
        'pub struct W(Option<LitInt>, #[struct_meta(name = "x")] LitInt, LitStr);',
        'pub struct W(Option<LitInt>, HashMap<String, LitInt>, LitStr, Vec<LitStr>);')
    add('StructMeta', 'two parameters may not have the same name',
        'pub struct W { a: LitInt, #[struct_meta(name = "a")] b: LitInt }', 'pub struct W(#[struct_meta(name = "a")] LitInt, #[struct_meta(name = "a")] LitStr);',
        'pub struct W { #[struct_meta(name = "b")] a: LitInt, b: Flag }', 'pub struct W { r#type: LitInt, #[struct_meta(name = "type")] b: NameArgs<LitInt> }',
        'pub struct W { a: Flag, #[struct_meta(name = "a")] b: NameValue<LitInt> }', 'pub struct W { a: NameArgs<LitInt>, #[struct_meta(name = "a")] b: LitStr }',
        'pub struct W { a: Option<LitInt>, #[struct_meta(name = "a")] b: bool, c: LitInt }',
        'pub struct W { z: LitInt, y: LitInt, #[struct_meta(name = "z")] a: LitInt }',
        'pub struct W { z: LitInt, rest: HashMap<String, LitInt>, #[struct_meta(name = "z")] a: LitInt }',
        'pub struct W { a: LitInt, #[struct_meta(name = "b")] #[struct_meta(name = "a")] c: LitInt }')
    add('StructMeta', 'there may be one rest parameter at most',
        'pub struct W { a: HashMap<String, LitInt>, b: HashMap<String, LitInt> }', 'pub struct W(HashMap<String, LitInt>, HashMap<String, LitStr>);',
        'pub struct W { a: HashMap<String, LitInt>, c: LitInt, b: HashMap<String, NameArgs<LitInt>> }',
        'pub struct W { a: HashMap<String, Flag>, b: HashMap<String, Option<LitInt>> }' if False else 'pub struct W(LitInt, HashMap<String, Flag>, HashMap<String, NameValue<LitInt>>);')
    add('StructMeta', 'an unnamed parameter is a value, an optional value or a list of values',
        'pub struct W(bool);', 'pub struct W(Flag);', 'pub struct W(NameValue<LitInt>);', 'pub struct W(NameArgs<LitInt>);', 'pub struct W(NameArgs<Vec<LitInt>>);',
        'pub struct W(NameArgs<Option<LitInt>>);', 'pub struct W(NameValue<Option<LitInt>>);', 'pub struct W(Option<NameValue<LitInt>>);', 'pub struct W(Option<NameArgs<LitInt>>);',
        'pub struct W(Option<Vec<LitInt>>);', 'pub struct W(LitInt, Flag);', 'pub struct W(LitInt, Option<Vec<LitInt>>);', 'pub struct W { #[struct_meta(unnamed)] a: Flag }',
        'pub struct W { #[struct_meta(unnamed)] a: bool }', 'pub struct W { x: LitInt, #[struct_meta(unnamed)] a: NameArgs<LitInt> }', 'pub struct W { #[struct_meta(unnamed)] a: Option<Vec<LitInt>> }',
        'pub struct W(Option<NameArgs<Vec<LitInt>>>);')
    add('StructMeta', 'the arguments of `#[struct_meta]` on the type are validated',
        '#[struct_meta(foo)] pub struct W { a: LitInt }', '#[struct_meta(name_filter = "camelCase")] pub struct W { a: LitInt }', '#[struct_meta(name_filter = "")] pub struct W { a: LitInt }',
        '#[struct_meta(name_filter = "Snake_Case")] pub struct W { a: LitInt }',
        '#[struct_meta(name_filter = snake_case)] pub struct W { a: LitInt }', '#[struct_meta(name_filter)] pub struct W { a: LitInt }', '#[struct_meta(name_filter("snake_case"))] pub struct W { a: LitInt }',
        '#[struct_meta(name_filter = "snake_case", name_filter = "snake_case")] pub struct W { a: LitInt }',
        '#[struct_meta(name_filter = "snake_case")] #[struct_meta(name_filter = "snake_case")] pub struct W { a: LitInt }',
        '#[struct_meta(name_filter = "snake_case" foo)] pub struct W { a: LitInt }', '#[struct_meta] pub struct W { a: LitInt }', '#[struct_meta = "x"] pub struct W { a: LitInt }',
        '#[struct_meta("snake_case")] pub struct W { a: LitInt }', '#[struct_meta(name_filter = 1)] pub struct W { a: LitInt }',
        '#[struct_meta(name_filter = "snake_case")] #[struct_meta(foo)] pub struct W { a: LitInt }')
    add('StructMeta', 'the arguments of `#[struct_meta]` on a field are validated',
        'pub struct W { #[struct_meta(foo)] a: LitInt }', 'pub struct W { #[struct_meta(name)] a: LitInt }', 'pub struct W { #[struct_meta(name = a)] a: LitInt }', 'pub struct W { #[struct_meta(name = 1)] a: LitInt }',
        'pub struct W { #[struct_meta(name("x"))] a: LitInt }', 'pub struct W { #[struct_meta("x")] a: LitInt }', 'pub struct W { #[struct_meta(unnamed = 1)] a: LitInt }', 'pub struct W { #[struct_meta] a: LitInt }',
        'pub struct W { #[struct_meta(name = "x" unnamed)] a: LitInt }', 'pub struct W { b: LitInt, c: LitInt, #[struct_meta(dump)] a: LitInt }', 'pub struct W(LitInt, #[struct_meta(nam = "x")] LitInt);',
        'pub struct W { #[struct_meta(name = "x", bar)] a: LitInt }')
    # ---------------------------------------------------------------- Parse / ToTokens
    for D in ('Parse', 'ToTokens'):
        add(D, 'unions are not supported', 'pub union W { a: u8, b: u8 }')
        for o, Tk in (('(', 'Paren'), ('[', 'Bracket'), ('{', 'Brace')):
            for c in ')]}':
                if '([{'.index(o) != ')]}'.index(c):
                    add(D, 'a closing delimiter has to match the innermost open one',
                        'pub struct W(#[to_tokens("%s")] token::%s, LitInt, #[to_tokens("%s")] LitInt);' % (o, Tk, c))
                    add(D, 'a closing delimiter has to match the innermost open one',
                        'pub struct W { #[to_tokens("%s")] x: MacroDelimiter, a: LitInt, #[to_tokens("%s")] b: LitInt }' % (o, c))
        add(D, 'a closing delimiter has to match the innermost open one',
            'pub struct W(#[to_tokens("(")] token::Paren, #[to_tokens("[")] token::Bracket, LitInt, #[to_tokens(")]")] LitInt);',
            'pub struct W(#[to_tokens("[")] token::Bracket, #[to_tokens("(")] token::Paren, LitInt, #[to_tokens("]")] LitInt, #[to_tokens(")")] LitInt);',
            'pub enum W { A, B(LitInt), C(#[to_tokens("(")] token::Paren, LitInt, #[to_tokens("]")] LitInt) }',
            'pub enum W { C { #[to_tokens("(")] x: token::Paren, a: LitInt, #[to_tokens("}")] b: LitInt }, D }')
        for c in ')]}':
            add(D, 'a closing delimiter needs an open one', 'pub struct W(#[to_tokens("%s")] LitInt);' % c, 'pub struct W { a: LitInt, #[to_tokens("%s")] b: LitInt }' % c,
                'pub enum W { A(LitInt), B(LitInt, #[to_tokens("%s")] LitInt) }' % c,
                'pub struct W(#[to_tokens("%s")] token::Paren, LitInt, #[to_tokens("%s%s")] LitInt);' % ('([{'[')]}'.index(c)], c, c))
        add(D, 'delimiters do not extend across variants', 'pub enum W { A(#[to_tokens("(")] token::Paren, LitInt), B(LitInt, #[to_tokens(")")] LitInt) }')
        add(D, '`to_tokens` accepts delimiter characters only',
            'pub struct W(#[to_tokens("a")] LitInt);', 'pub struct W(#[to_tokens("( ")] token::Paren, LitInt);', 'pub struct W(#[to_tokens("<")] LitInt);',
            'pub struct W { a: LitInt, #[to_tokens(",")] b: LitInt }', 'pub enum W { A(#[to_tokens("|")] LitInt) }', 'pub struct W(#[to_tokens("(")] token::Paren, #[to_tokens("x)")] LitInt);')
        add(D, 'the arguments of `to_tokens` are validated',
            'pub struct W(#[to_tokens(foo)] LitInt);', "pub struct W(#[to_tokens('(')] token::Paren);", 'pub struct W(#[to_tokens] LitInt);', 'pub struct W(#[to_tokens = "("] token::Paren);',
            'pub struct W(#[to_tokens(1)] LitInt);', 'pub struct W(#[to_tokens("(" "[")] token::Paren);')
    add('Parse', 'the arguments of `parse` are validated',
        'pub struct W(#[parse(foo)] LitInt);', 'pub struct W(#[parse] LitInt);', 'pub struct W(#[parse = "any"] Ident);', 'pub struct W(#[parse("any")] Ident);', 'pub struct W(#[parse(any terminated)] Ident);',
        'pub struct W { a: LitInt, #[parse(any, foo)] b: Ident }', 'pub enum W { A(#[parse(peak)] Ident) }', 'pub struct W(#[parse(any = 1)] Ident);', '#[parse(foo)] pub struct W(Ident);', '#[parse] pub struct W(Ident);')
    add('Parse', 'a peeked field may not be enclosed in delimiters',
        'pub enum W { A(#[to_tokens("(")] token::Paren, #[parse(peek)] LitInt), B(LitInt) }', 'pub enum W { A(#[to_tokens("(")] #[parse(peek)] token::Paren, #[parse(peek)] LitInt), B(LitInt) }',
        'pub enum W { A { #[to_tokens("[")] x: token::Bracket, #[to_tokens("(")] y: token::Paren, #[to_tokens(")")] #[parse(peek)] z: LitInt }, B(LitInt) }',
        'pub enum W { B(LitInt), A(#[to_tokens("{")] #[parse(peek)] token::Brace, LitInt, #[parse(peek)] LitInt) }')
    add('Parse', 'every field before a peeked one has to be peeked',
        'pub enum W { A(LitInt, #[parse(peek)] LitInt), B(LitStr) }', 'pub enum W { A(#[parse(peek)] LitInt, LitStr, #[parse(peek)] LitInt), B(LitStr) }',
        'pub enum W { B(LitStr), A { a: LitInt, #[parse(peek)] b: LitInt } }', 'pub enum W { A(#[to_tokens("(")] token::Paren, LitInt, #[to_tokens(")")] #[parse(peek)] LitInt), B(LitStr) }',
        'pub enum W { A(#[parse(any)] Ident, #[parse(peek)] LitInt), B(LitStr) }')
    add('Parse', 'at most three fields are peeked',
        'pub enum W { A(#[parse(peek)] LitInt, #[parse(peek)] LitInt, #[parse(peek)] LitInt, #[parse(peek)] LitInt), B(LitStr) }',
        'pub enum W { B(LitStr), A { #[parse(peek)] a: Ident, #[parse(peek)] b: Token![=], #[parse(peek, any)] c: Ident, #[parse(peek)] d: LitInt, e: LitInt } }',
        'pub enum W { A(#[parse(peek)] LitInt, #[parse(peek)] LitInt, #[parse(peek)] LitInt, #[parse(peek)] LitInt, #[parse(peek)] LitInt), B(LitStr) }')
    # ---------------------------------------------------------------- rejected by the type checker
    N = 'pub struct NoTrait;'
    add('StructMeta', 'a value type has to implement Parse',
        'pub struct W { a: NoTrait }', 'pub struct W(NoTrait);', 'pub struct W { a: Option<NoTrait> }', 'pub struct W(Option<NoTrait>);', 'pub struct W(Vec<NoTrait>);', 'pub struct W { a: Vec<NoTrait> }',
        'pub struct W { a: NameValue<NoTrait> }', 'pub struct W { a: NameArgs<NoTrait> }', 'pub struct W { a: NameArgs<Vec<NoTrait>> }', 'pub struct W { a: NameArgs<Option<NoTrait>> }',
        'pub struct W { a: HashMap<String, NoTrait> }', 'pub struct W { a: Option<bool> }', 'pub struct W { a: Option<Flag> }', 'pub struct W { a: HashMap<String, Vec<NoTrait>> }', phase='type', pre=N)
    add('Parse', 'every field type has to implement Parse', 'pub struct W(NoTrait);', 'pub struct W { a: LitInt, b: NoTrait }', 'pub enum W { A(LitInt), B(NoTrait) }',
        'pub struct W(#[parse(any)] LitInt);', 'pub struct W(#[parse(terminated)] LitInt);', phase='type', pre=N)
    add('Parse', 'the type of a delimiter field is that delimiter\'s token', 'pub struct W(#[to_tokens("(")] token::Bracket, LitInt);', 'pub struct W(#[to_tokens("[")] token::Paren, LitInt);', 'pub struct W(#[to_tokens("{")] token::Paren, LitInt);',
        'pub struct W(#[to_tokens("(")] LitInt, LitInt);', phase='type', pre=N)
    add('ToTokens', 'every field type has to implement ToTokens', 'pub struct W(NoTrait);', 'pub struct W { a: LitInt, b: NoTrait }', 'pub enum W { A(LitInt), B(NoTrait) }', 'pub enum W { A, B { x: NoTrait } }', phase='type', pre=N)
    add('ToTokens', 'the type of a delimiter field is that delimiter\'s token', 'pub struct W(#[to_tokens("(")] token::Bracket, LitInt);', 'pub struct W(#[to_tokens("[")] token::Paren, LitInt);', 'pub struct W(#[to_tokens("{")] token::Paren, LitInt);',
        'pub struct W(#[to_tokens("(")] LitInt, LitInt);', phase='type', pre=N)
    return ws + [w for w in enumerated(seed, thorough) if not w.ok]


# ------------------------------------------------------------------------------ all small definitions
OPEN, CLOSE = '([{', ')]}'
TOKEN = {'(': 'Paren', '[': 'Bracket', '{': 'Brace'}
CLOSES = ('', ')', ']', '))', ')]', '])', ']]')


def layout_error(fields, peeks):
    """the rule a layout breaks; fields: (closing delimiters, opening delimiter or '', peeked)"""
    stack, unpeeked, n = [], False, 0
    for closes, opens, peek in fields:
        for c in closes:
            if not stack:
                return 'a closing delimiter needs an open one'
            if stack.pop() != OPEN[CLOSE.index(c)]:
                return 'a closing delimiter has to match the innermost open one'
        if peeks and peek:
            n += 1
            if stack:
                return 'a peeked field may not be enclosed in delimiters'
            if unpeeked:
                return 'every field before a peeked one has to be peeked'
            if n > 3:
                return 'at most three fields are peeked'
        elif not stack:
            unpeeked = True
        if opens:
            stack.append(opens)
    return None


def layout_item(fields, style, peeks, culprits=()):
    """the definition, in one of several spellings"""
    out = []
    for i, (closes, opens, peek) in enumerate(fields):
        at = []
        if closes and opens and style % 3:
            at.append('#[to_tokens("%s", "%s")]' % (closes, opens) if style % 3 == 1 else '#[to_tokens("%s")] #[to_tokens("%s")]' % (closes, opens))
        elif closes or opens:
            at.append('#[to_tokens("%s%s")]' % (closes, opens))
        if peek:
            at.insert(0 if style % 2 else len(at), '#[parse(peek)]')
        at.append(('f%d: ' % i if style % 5 == 0 else '') + ('token::' + TOKEN[opens] if opens else 'LitInt'))
        out.append(' '.join(at))
    out = mark(out, culprits)
    body = '{ %s }' % ', '.join(out) if style % 5 == 0 else '(%s)' % ', '.join(out)
    if peeks or style % 7 == 3:
        return 'pub enum W { V0(LitStr), A%s }' % body if style % 4 == 1 else 'pub enum W { A%s, V1(LitStr) }' % body
    return 'pub struct W' + body + ('' if style % 5 == 0 else ';')


def layouts(n, peeks):
    """all sequences of n fields in which at most the last one is wrong"""
    fs = [(c, o, p) for c in CLOSES for o in ('', '(', '[') for p in ((False, True) if peeks else (False,))]

    def go(pre):
        for f in fs:
            x = pre + (f,)
            if len(x) == n:
                yield x
            elif layout_error(x, peeks) is None:
                yield from go(x)
    return go(())


def fair(ls, peeks, cap, rng):
    """cap of the layouts, the rarer verdicts first: a fair share for each"""
    if len(ls) <= cap:
        return ls
    by, out = {}, []
    for x in rng.sample(ls, len(ls)):
        by.setdefault(layout_error(x, peeks), []).append(x)
    while len(out) < cap and any(by.values()):
        for k in sorted(by, key=str):
            if by[k] and len(out) < cap:
                out.append(by[k].pop())
    return out


UNNAMED = {'req': 'LitInt', 'opt': 'Option<LitInt>', 'var': 'Vec<LitInt>', 'map': 'HashMap<String, LitInt>', 'nam': 'LitInt'}


def params_error(kinds):
    un = [k for k in kinds if k in ('req', 'opt', 'var')]
    for a, b in zip(un, un[1:]):
        if a == 'var':
            return 'no unnamed parameter may follow a variadic one'
        if a == 'opt' and b == 'req':
            return 'no required unnamed parameter may follow an optional one'
    if kinds.count('map') > 1:
        return 'there may be one rest parameter at most'
    return None


def params_item(kinds, style, culprits=()):
    out = []
    for i, k in enumerate(kinds):
        if style % 2:
            out.append(('#[struct_meta(name = "n%d")] ' % i if k == 'nam' else '') + UNNAMED[k])
        else:
            out.append(('#[struct_meta(unnamed)] ' if k in ('req', 'opt', 'var') else '') + 'n%d: ' % i + UNNAMED[k])
    out = mark(out, culprits)
    return 'pub struct W(%s);' % ', '.join(out) if style % 2 else 'pub struct W { %s }' % ', '.join(out)


# the ways to say which name a field has: (attribute, field name) -> name or None
NAMINGS = (('', 'a', 'a'), ('', 'b', 'b'), ('#[struct_meta(name = "a")]', 'c', 'a'), ('#[struct_meta(name = "b")]', 'a', 'b'), ('#[struct_meta(unnamed)]', 'a', None),
           ('', 'r#type', 'type'), ('#[struct_meta(name = "type")]', 'b', 'type'), ('#[struct_meta(name = "A")]', 'a', 'A'))
NKINDS = ('LitInt', 'Flag', 'Option<LitStr>', 'NameArgs<LitInt>', 'Option<NameArgs<LitInt>>', 'bool', 'Vec<LitInt>', 'NameArgs<Vec<LitInt>>', 'Option<NameValue<LitInt>>')


def enumerated(seed=1, thorough=False):
    """every small definition of a shape, valid or not by the documented rules"""
    rng = random.Random(seed)
    ws, n = [], {}

    def add(derive, rule, item):
        p = {'StructMeta': 'xs', 'Parse': 'xp', 'ToTokens': 'xt'}[derive]
        n[p] = n.get(p, 0) + 1
        ws.append(CF('%s%d' % (p, n[p]), derive, rule or 'documented definitions are accepted', item, ok=rule is None))
    for D, peeks in (('Parse', True), ('ToTokens', False)):
        for size in (1, 2, 3, 4):
            ls = list(layouts(size, peeks))
            cap = {1: 99, 2: 400, 3: 500, 4: 400}[size] * (3 if thorough else 1)
            ls = fair(ls, peeks, cap, rng)
            for i, x in enumerate(ls):
                add(D, layout_error(x, peeks), layout_item(x, i + size, peeks))
    for size in (1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4):
        for i, ks in enumerate(itertools.product(UNNAMED, repeat=size)):
            add('StructMeta', params_error(ks), params_item(ks, i + size))
    for size in (2, 3):
        for i, xs in enumerate(itertools.product(NAMINGS, repeat=size)):
            if len({x[1] for x in xs}) < size:
                continue
            names = [x[2] for x in xs if x[2]]
            un = sum(x[2] is None for x in xs)
            kinds = [NKINDS[(i + 4 * j) % len(NKINDS)] if x[2] else 'LitInt' for j, x in enumerate(xs)]
            add('StructMeta', 'two parameters may not have the same name' if len(set(names)) < len(names) else None,
                'pub struct W { %s }' % ', '.join('%s %s: %s' % (x[0], x[1], k) for x, k in zip(xs, kinds)))
    return ws + hygiene()


class Bounds(CF):
    """a generic definition whose implementations are used with the bounds it has and no others"""
    @property
    def props(self):
        return {'C01'}

    def text(self):
        return 'pub mod %s { #![allow(warnings)] %s %s }' % (self.id, self.pre, self.item)


# what a definition may declare: (declaration, argument, type of a field that mentions it)
LTS = (('', '', ''), ("'a", "'a", "&'a ()"), ("'a, 'b: 'a", "'a, 'b", "(&'a (), &'b ())"), ("'r#fn", "'r#fn", "&'r#fn ()"), ("'a: 'static", "'a", "fn(&'a ())"))
TPS = (('', '', ''), ('T', 'T', 'T'), ('T: ?::std::marker::Sized', 'T', '*const T'), ('T: Br', 'T', 'fn(T) -> T::B'), ('T: Br<B = U>, U = u8', 'T, U', '(T, U)'), ('T = ::syn::LitInt', 'T', '[T; 2]'),
       ('r#in', 'r#in', 'r#in'), ('T: for<\'x> Hr<\'x> + ::std::clone::Clone, Input', 'T, Input', '(T, Input)'), ('#[cfg(all())] T, #[cfg(any())] X: Nowhere', 'T', 'T'), ('T: ::std::ops::Fn(u8) -> u8', 'T', 'T'),
       ('T: Br = ::syn::LitInt, Input = <T as Br>::B', 'T, Input', '(<T as Br>::B, Input)'))
CPS = (('', '', ''), ('const N: usize', 'N', '[(); N]'), ('const N: usize = 3, const B: bool = { !true }', 'N, B', '[Cb<B>; N]'), ("const C: char = 'x'", 'C', 'Cc<C>'))
WHS = ('', 'where', 'where Self: ::std::marker::Sized', 'where (): ::std::marker::Copy,', "where for<'x> &'x u8: ::std::marker::Copy, [u8; 3]: ::std::clone::Clone", 'where Box<Self>: ::std::marker::Sized, u8: Br')
BODIES = (('StructMeta', 'struct W%s %s { #[struct_meta(unnamed)] pub a: Ph<%%s>, pub b: Option<Ph<%%s>>, pub c: NameValue<Ph<%%s>>, pub d: NameArgs<Option<Vec<Ph<%%s>>>>, pub e: HashMap<String, Ph<%%s>> }'),
          ('StructMeta', 'struct W%s(pub Ph<%%s>, pub Vec<Ph<%%s>>, #[struct_meta(name = "x")] pub Option<NameArgs<Ph<%%s>>>) %s;'),
          ('Parse', 'struct W%s %s { #[to_tokens("(")] pub a: token::Paren, pub b: Ph<%%s>, #[to_tokens(")")] pub c: Ph<%%s>, #[parse(terminated)] pub d: Punctuated<Ph<%%s>, Token![,]> }'),
          ('Parse', 'enum W%s %s { A(#[parse(peek)] LitInt, Ph<%%s>), B { x: Ph<%%s>, #[to_tokens("[")] y: token::Bracket, z: Ph<%%s> }, C(Ph<%%s>), D }'),
          ('Parse', 'struct W%s(pub Ph<%%s>, #[to_tokens("(")] pub MacroDelimiter, pub Ph<%%s>) %s;'),
          ('Parse', 'enum W%s %s { A(#[parse(peek)] Token![fn], Ph<%%s>), B { #[parse(peek, any)] x: Ident, y: Ph<%%s> } }'))


def bounds(seed, thorough):
    """generic definitions: the implementations exist for all arguments the definition allows"""
    rng = random.Random(seed * 5 + 3)
    combos = [x for x in itertools.product(LTS, TPS, CPS, WHS) if (any(y[0] for y in x[:3]) or x[3]) and not (' = ' in x[1][0].replace('<B = U>', '') and x[2][0] and ' = ' not in x[2][0])]
    # every value of every column, every pair of the columns of parameters, then some of the others
    pick = [x for x in combos if sum(bool(y if isinstance(y, str) else y[0]) for y in x) <= 2]
    rest = [x for x in combos if x not in pick]
    pick += rng.sample(rest, 400 if thorough else 60)
    ws = []
    for i, (l, t, c, w) in enumerate(pick):
        for j, (d, body) in enumerate(BODIES):
            if not thorough and sum(bool(y[0]) for y in (l, t, c)) > 1 and (i + j) % 2:
                continue
            decl = ', '.join(x[0] for x in (l, t, c) if x[0])
            args = ', '.join(x[1] for x in (l, t, c) if x[1])
            used = '(%s)' % ''.join('%s, ' % x[2].replace('*const T', 'Un<T>') for x in (l, t, c) if x[2])
            plain = re.sub(r' = (\{[^}]*\}|<[^>]*>::B|[^,>]*)(?=,|$)', '', re.sub(r'Br<B = U>', 'Br<B#U>', decl)).replace('B#U', 'B = U')
            both = d == 'Parse'
            item = body % ('<%s>' % decl if decl else '', w)
            item = '#[derive(%s)] pub %s ' % ('::structmeta::Parse, ::structmeta::ToTokens' if both else '::structmeta::StructMeta', item.replace('%s', used))
            wty = 'W<%s>' % args if args else 'W'
            uw = w.replace('Self', wty)
            item += 'fn used%s() %s { need::<%s>(); %s }' % ('<%s>' % plain if plain else '', uw, wty, 'emit::<%s>();' % wty if both else '')
            ws.append(Bounds('ge%d_%d' % (i, j), d, 'the implementations of a generic definition exist for all arguments it allows', item, ok=True, pre='use super::gb::*; use ::structmeta::{NameArgs, NameValue}; '
                      'use ::syn::*; use ::syn::punctuated::Punctuated; use ::std::collections::HashMap;'))
    return [Bounds('gb', 'StructMeta', 'surroundings of the generic definitions', """
        pub struct Ph<X: ?Sized>(::std::marker::PhantomData<X>); impl<X: ?Sized> ::syn::parse::Parse for Ph<X> { fn parse(_: ::syn::parse::ParseStream) -> ::syn::Result<Self> { Ok(Ph(::std::marker::PhantomData)) } }
        impl<X: ?Sized> ::quote::ToTokens for Ph<X> { fn to_tokens(&self, _: &mut ::proc_macro2::TokenStream) {} }
        pub struct Un<X: ?Sized>(::std::marker::PhantomData<X>); pub struct Cb<const B: bool>; pub struct Cc<const C: char>; pub trait Br { type B; } impl Br for u8 { type B = u8; } impl Br for ::syn::LitInt { type B = u8; }
        pub trait Hr<'x> {} pub fn need<X: ::syn::parse::Parse>() {} pub fn emit<X: ::quote::ToTokens>() {}
        """.replace('\n', ' '), ok=True)] + ws


PRELUDE = """Option Result Vec String Box Some None Ok Err Default Into From Clone Iterator IntoIterator ToString AsRef Copy Drop Fn FnMut Sized Send Sync PartialEq Eq Ord Extend
TryFrom TryInto bool str usize u8 char Error Span Ident Punct Group Delimiter TokenStream TokenTree Parse ToTokens ParseStream ParseBuffer StructMeta HashMap Peek IdentExt NameIndex
Flag NameValue NameArgs Token Paren MacroDelimiter Speculative""".split()
MACROS = 'format unreachable vec matches write panic quote bail concat stringify println assert parenthesized bracketed braced Token'.split()
_SM = ('aa: ::syn::LitInt, bb: ::std::primitive::bool, cc: ::structmeta::NameValue<::syn::LitInt>, dd: ::structmeta::Flag, ee: ::structmeta::NameArgs<::std::vec::Vec<::syn::LitInt>>, '
       '#[struct_meta(unnamed)] ff: ::std::option::Option<::syn::LitInt>, #[struct_meta(unnamed)] gg: ::std::vec::Vec<::syn::LitInt>, hh: ::std::collections::HashMap<::std::string::String, ::syn::LitInt>')
_SMT = ('::syn::LitInt, ::std::option::Option<::syn::LitInt>, ::std::vec::Vec<::syn::LitInt>, #[struct_meta(name = "a")] ::std::option::Option<::structmeta::NameValue<::syn::LitInt>>, '
        '#[struct_meta(name = "b")] ::structmeta::NameArgs<::std::option::Option<::syn::LitInt>>, ::std::collections::HashMap<::std::string::String, ::structmeta::NameValue<::syn::LitInt>>')
_PT = '#[to_tokens("(")] ::syn::token::Paren, ::syn::LitInt, #[to_tokens(")[")] ::syn::token::Bracket, #[to_tokens("]")] ::syn::Ident'
_EN = 'A(%s) , B(::syn::LitStr), C, D { x: ::syn::LitInt }'


class Hygiene(CF):
    """a valid definition next to names the expansion may mention"""
    @property
    def props(self):
        return {'C02'}

    def text(self):
        return 'pub mod %s { #![allow(unused, non_camel_case_types, non_snake_case, ambiguous_glob_reexports)] %s %s }' % (self.id, self.pre, self.item)


def hygiene():
    ws = []
    rule = 'generated code does not depend on names at the place of use'

    def add(id, derive, item, pre=''):
        ws.append(Hygiene(id, derive, rule, item, ok=True, pre=pre))
    peek = '#[parse(peek)] ::syn::LitInt'
    forms = (('s', 'StructMeta', 'pub struct %%s { %s }' % _SM), ('t', 'StructMeta', 'pub struct %%s(%s);' % _SMT), ('p', 'Parse', 'pub struct %%s(%s);' % _PT),
             ('pn', 'Parse', 'pub struct %s { #[to_tokens("{")] a: ::syn::token::Brace, #[parse(any)] b: ::syn::Ident, #[parse(terminated)] c: ::syn::punctuated::Punctuated<::syn::LitInt, ::syn::token::Comma> }'),
             ('e', 'Parse', 'pub enum %%s { %s }' % (_EN % peek)), ('x', 'Parse', 'pub struct %s(#[to_tokens("(")] ::syn::MacroDelimiter, ::syn::LitInt, ::syn::Ident);'), ('o', 'ToTokens', 'pub struct %%s(%s);' % _PT), ('f', 'ToTokens', 'pub enum %%s { %s }' % (_EN % '::syn::LitInt')))
    for n in PRELUDE:
        for k, d, item in forms:
            if n != 'Self':
                # the type itself has that name; another type, a function, a constant in scope; variants in scope
                add('hy_%s_%s' % (k, n), d, '#[derive(::structmeta::%s)] %s' % (d, item % n))
        for k, d, item in forms:
            if k in 'stpefx':
                der = '#[derive(::structmeta::%s)] ' % d
                add('hg_%s_%s' % (k, n), d, der + item % 'W', 'pub mod k { pub enum Kind { %s, Zz } pub use Kind::*; } use k::*;' % n)
                # (the documented types are recognised by their names, whatever those stand for)
                if n not in ('bool', 'str', 'usize', 'u8', 'char', 'Flag'):
                    add('hp_%s_%s' % (k, n), d, der + generic(item, n))
    for m in MACROS:
        for k, d, item in forms:
            add('hm_%s_%s' % (k, m), d, '#[derive(::structmeta::%s)] %s' % (d, item % 'W'), 'macro_rules! %s { ($($t:tt)*) => { compile_error!("the macro of the user") } }' % m)
    # names that only their letters' case, underscores or `r#` tell apart
    close = ('a', 'A', '_a', 'a_', 'a1', 'a_1', '_a1', 'aB', 'AB', 'ab', 'a_b', 'Ab', 'r#type', 'Type', 'type_', '_type', 'r_type', '_0', '_1', 'x0', 'x_0', '__a', 'a__')
    for j, (d, k) in enumerate((('StructMeta', '%s: ::std::option::Option<::syn::LitInt>'), ('StructMeta', '%s: ::std::primitive::bool'), ('StructMeta', '%s: ::structmeta::NameArgs<::std::option::Option<::std::vec::Vec<::syn::LitInt>>>'),
                                ('Parse, ::structmeta::ToTokens', '%s: ::syn::LitInt'), ('Parse, ::structmeta::ToTokens', '#[parse(any)] %s: ::syn::Ident'))):
        add('hc_s%d' % j, d.split(',')[0], '#[derive(::structmeta::%s)] pub struct W { %s }' % (d, ', '.join(k % n for n in close)))
    for j, body in enumerate(('%s(::syn::LitInt)', '%s { #[parse(peek)] a: ::syn::LitInt, A: ::syn::LitInt }', '%s')):
        add('hc_e%d' % j, 'Parse', '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W { %s }' % ', '.join(body % n for n in close))
    # methods of traits in scope that every type has; no prelude (its traits but `ToString` and `IntoIterator` imported)
    ext = ' '.join('fn %s(&self) -> [u8; 77] { [0; 77] }' % m for m in METHODS)
    for k, d, item in PLACED:
        loc, it = LOCAL + (GENERIC if 'P<' in item else ''), '#[derive(::structmeta::%s)] ' % d + item
        add('ha_' + k, d.split(',')[0], it, loc + 'pub trait Everything { %s } impl<T: ?::std::marker::Sized> Everything for T {}' % ext)
        add('hz_' + k, d.split(',')[0], '#[no_implicit_prelude] pub mod inner { %s %s%s }' % (SOME_TRAITS, loc, it))
    # the identifiers of the derives' own sources, as fields, variants and type parameters
    low, up = sources()
    kinds = ('::syn::LitInt', '::structmeta::Flag', '::std::option::Option<::syn::LitInt>', '::std::vec::Vec<::syn::LitInt>', '::structmeta::NameValue<::syn::LitInt>',
             '::structmeta::NameArgs<::syn::LitInt>', '::std::primitive::bool', '::std::option::Option<::structmeta::NameArgs<::std::vec::Vec<::syn::LitInt>>>')
    for o, names in enumerate((low, low[::-1], low[::2] + low[1::2], low[3::5])):
        for j in range(2):
            fs = ', '.join('%s%s: %s' % ('#[struct_meta(unnamed)] ' if j and i % 9 == 0 else '', n, kinds[0] if j and i % 9 == 0 else kinds[(i + 3 * o) % len(kinds)]) for i, n in enumerate(names))
            add('hb_s%d%d' % (o, j), 'StructMeta', '#[derive(::structmeta::StructMeta)] pub struct W { %s }' % fs)
        fs = ', '.join('%s: ::syn::LitInt' % n for n in names)
        for d in ('Parse', 'ToTokens'):
            add('hb_%s%d' % (d, o), d, '#[derive(::structmeta::%s)] pub struct W { %s }' % (d, fs))
            add('hb_%se%d' % (d, o), d, '#[derive(::structmeta::%s)] pub enum W { V { %s }, %s, Z { %s } }' % (
                d, fs, ', '.join('%s(::syn::LitInt)' % n for n in (up if o % 2 else up[::-1]) if n not in ('V', 'Z')), fs))
            add('hb_%sg%d' % (d, o), d, '#[derive(::structmeta::%s)] pub struct W { #[to_tokens("(")] %s: ::syn::token::Paren, %s }' % (
                d, names[0], ', '.join('#[to_tokens("%s")] %s: %s' % (('', '[', ']', ')', '(')[i % 5 + 1 if i % 5 < 4 else 0], n, ('::syn::LitInt', '::syn::token::Bracket', '::syn::LitInt', '::syn::LitInt', '::syn::token::Paren')[i % 5 + 1 if i % 5 < 4 else 0])
                                       for i, n in enumerate(names[1:]))))
    return ws


class Located(CF):
    """an invalid definition; the error has to lie in one of the marked parts, given as {from, to} in characters of the item"""
    def __init__(self, id, derive, rule, item, phase='macro', pre=''):
        parts, out, start = [], '', None
        for c in item:
            if c == '\u00ab':
                start = len(out)
            elif c == '\u00bb':
                parts.append((start, len(out)))
            else:
                out += c
        CF.__init__(self, id, derive, rule, out, phase=phase, pre=pre)
        self.parts = parts

    @property
    def props(self):
        return {'C08'}

    def columns(self):
        """the marked parts as columns of the line"""
        off = len(self.text()) - len(' }') - len(self.item)
        assert self.text()[off:off + len(self.item)] == self.item
        return [(a + off + 1, b + off + 1) for a, b in self.parts]


def mark(fields, culprits):
    return ['\u00ab%s\u00bb' % f if i in culprits else f for i, f in enumerate(fields)]


def params_culprits(kinds):
    """the parameters that conflict with an earlier one"""
    out = set()
    for i, k in enumerate(kinds):
        before = [x for x in kinds[:i] if x in ('req', 'opt', 'var')]
        if k in ('req', 'opt', 'var') and 'var' in before or k == 'req' and 'opt' in before or k == 'map' and 'map' in kinds[:i]:
            out.add(i)
    return out


def located(seed=1, thorough=False):
    rng = random.Random(seed)
    ws, n = [], {}

    def add(derive, rule, *items, **k):
        for it in items:
            p = {'StructMeta': 'ls', 'Parse': 'lp', 'ToTokens': 'lt'}[derive]
            n[p] = n.get(p, 0) + 1
            ws.append(Located('%s%d' % (p, n[p]), derive, rule, it, **k))
    for size in (2, 3, 4):
        for i, ks in enumerate(itertools.product(UNNAMED, repeat=size)):
            rule = params_error(ks)
            if rule and (size < 4 or thorough or i % 3 == 0):
                add('StructMeta', rule, params_item(ks, i + size, params_culprits(ks)))
    for size in (2, 3):
        for i, xs in enumerate(itertools.product(NAMINGS, repeat=size)):
            if len({x[1] for x in xs}) < size:
                continue
            names = [x[2] for x in xs]
            late = {j for j, x in enumerate(names) if x and x in names[:j]}
            if not late or size == 3 and not thorough and i % 3:
                continue
            kinds = [NKINDS[(i + 4 * j) % len(NKINDS)] if x[2] else 'LitInt' for j, x in enumerate(xs)]
            add('StructMeta', 'two parameters may not have the same name', 'pub struct W { %s }' % ', '.join(mark(['%s %s: %s' % (x[0], x[1], k) for x, k in zip(xs, kinds)], late)))
    for D, peeks in (('Parse', True), ('ToTokens', False)):
        for size in (1, 2, 3, 4):
            ls = [x for x in layouts(size, peeks) if layout_error(x, peeks)]
            cap = 100 * (3 if thorough else 1)
            for i, x in enumerate(fair(ls, peeks, cap, rng)):
                add(D, layout_error(x, peeks), layout_item(x, i + size, peeks, {size - 1}))
    # wrong kinds of parameters, at each place
    for bad in ('bool', 'Flag', 'NameValue<LitInt>', 'NameArgs<LitInt>', 'NameArgs<Option<LitInt>>', 'Option<NameValue<LitInt>>', 'Option<NameArgs<Vec<LitInt>>>', 'Option<Vec<LitInt>>'):
        add('StructMeta', 'an unnamed parameter is a value, an optional value or a list of values', 'pub struct W(\u00ab%s\u00bb);' % bad, 'pub struct W(LitInt, \u00ab%s\u00bb);' % bad,
            'pub struct W { a: LitInt, \u00ab#[struct_meta(unnamed)] b: %s\u00bb, c: Flag }' % bad, 'pub struct W(LitInt, Option<LitStr>, \u00abpub %s\u00bb, Vec<LitInt>);' % bad)
    # arguments of the attributes
    for at in ('foo', 'name', 'name = a', 'name = 1', 'name("x")', '"x"', 'name = "x" unnamed', 'dump', 'nam = "x"', 'name = "x", bar', 'unnamed = 1', 'unnamed, 3'):
        f = '\u00ab#[struct_meta(%s)] a: LitInt\u00bb' % at
        add('StructMeta', 'the arguments of `#[struct_meta]` on a field are validated', 'pub struct W { %s }' % f, 'pub struct W { b: LitInt, %s, c: Flag }' % f, 'pub struct W(LitInt, %s);' % f.replace(' a:', ''))
    for at in ('foo', 'name_filter = "camelCase"', 'name_filter = ""', 'name_filter = snake_case', 'name_filter', 'name_filter("snake_case")', '"snake_case"', 'name_filter = 1', 'name_filter = "snake_case" foo', 'dump, foo'):
        add('StructMeta', 'the arguments of `#[struct_meta]` on the type are validated', '\u00ab#[struct_meta(%s)]\u00bb pub struct W { a: LitInt }' % at,
            '#[doc = "x"] \u00ab#[struct_meta(%s)]\u00bb pub struct W(LitInt, Flag);' % at if at == 'foo' else '#[doc = "x"] \u00ab#[struct_meta(%s)]\u00bb pub struct W(LitInt);' % at)
    for D in ('Parse', 'ToTokens'):
        for at in ('"a"', '"( "', '"<"', '","', 'foo', "'('", '1', '"(" "["', '"(", foo'):
            f = '\u00ab#[to_tokens(%s)] token::Paren\u00bb' % at
            add(D, 'the arguments of `to_tokens` are validated', 'pub struct W(%s);' % f, 'pub struct W(LitInt, %s, LitStr);' % f, 'pub enum W { A(LitStr), B(LitInt, %s) }' % f)
    for at in ('foo', '"any"', 'any terminated', 'any, foo', 'peak', 'any = 1', 'peek(1)', 'any, 1'):
        f = '\u00ab#[parse(%s)] Ident\u00bb' % at
        add('Parse', 'the arguments of `parse` are validated', 'pub struct W(%s);' % f, 'pub struct W(LitInt, %s, LitStr);' % f, 'pub enum W { A(LitStr), B(%s, LitInt) }' % f,
            '\u00ab#[parse(%s)]\u00bb pub struct W(Ident);' % at)
    # values that cannot be parsed
    N = 'pub struct NoTrait;'
    kinds = ('NoTrait', 'Option<NoTrait>', 'Vec<NoTrait>', 'NameValue<NoTrait>', 'NameArgs<NoTrait>', 'NameArgs<Vec<NoTrait>>', 'NameArgs<Option<NoTrait>>', 'HashMap<String, NoTrait>', 'Option<bool>',
             'Option<Flag>', 'Option<NameValue<NoTrait>>', 'Option<NameArgs<NoTrait>>', 'NameValue<Option<NoTrait>>', 'HashMap<String, NameArgs<NoTrait>>', 'Option<Vec<NoTrait>>')
    for k in kinds:
        add('StructMeta', 'a value type has to implement Parse', 'pub struct W { \u00aba: %s\u00bb }' % k, 'pub struct W { a: LitInt, \u00abb: %s\u00bb, c: Flag }' % k,
            'pub struct W(LitInt, \u00ab#[struct_meta(name = "x")] pub %s\u00bb);' % k if 'Map' not in k else 'pub struct W(LitInt, \u00abpub %s\u00bb);' % k, phase='type', pre=N)
    for k in kinds[:3]:
        add('StructMeta', 'a value type has to implement Parse', 'pub struct W(\u00ab%s\u00bb);' % k, 'pub struct W { #[struct_meta(unnamed)] a: LitInt, \u00ab#[struct_meta(unnamed)] b: %s\u00bb, c: Flag }' % k, phase='type', pre=N)
    return ws


LOCAL = ("pub struct L(::syn::LitInt); impl ::syn::parse::Parse for L { fn parse(i: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { ::std::result::Result::Ok(Self(i.parse()?)) } } "
         "impl ::quote::ToTokens for L { fn to_tokens(&self, t: &mut ::proc_macro2::TokenStream) { ::quote::ToTokens::to_tokens(&self.0, t) } } ")
PLACED = (
    ('s', 'StructMeta', 'pub struct W { #[struct_meta(unnamed)] pub a: L, #[struct_meta(unnamed)] pub b: ::std::option::Option<L>, #[struct_meta(unnamed)] pub c: ::std::vec::Vec<L>, pub d: L, '
     'pub d2: ::std::option::Option<L>, pub e: ::std::primitive::bool, pub f: ::structmeta::Flag, pub g: ::structmeta::NameValue<L>, pub g2: ::std::option::Option<::structmeta::NameValue<L>>, '
     'pub g3: ::structmeta::NameValue<::std::option::Option<L>>, pub h: ::std::option::Option<::structmeta::NameArgs<::std::option::Option<L>>>, pub h1: ::structmeta::NameArgs<L>, '
     'pub h2: ::structmeta::NameArgs<::std::option::Option<::std::vec::Vec<L>>>, pub h3: ::std::option::Option<::structmeta::NameArgs<L>>, pub i: ::structmeta::NameArgs<::std::vec::Vec<L>>, '
     'pub j: ::std::vec::Vec<L>, pub j2: ::std::option::Option<::std::vec::Vec<L>>, pub k: ::std::collections::HashMap<::std::string::String, L> }'),
    ('t', 'StructMeta', '#[struct_meta(name_filter = "snake_case")] pub struct W(pub L, pub ::std::option::Option<L>, #[struct_meta(name = "x")] pub ::std::option::Option<L>, '
     '#[struct_meta(name = "y")] pub ::structmeta::NameArgs<L>, pub ::std::collections::HashMap<::std::string::String, ::structmeta::NameArgs<::std::vec::Vec<L>>>);'),
    ('u', 'StructMeta', 'pub struct W(pub L, pub ::std::collections::HashMap<::std::string::String, ::structmeta::NameValue<L>>);'),
    ('v', 'StructMeta', 'pub struct W(pub ::std::collections::HashMap<::std::string::String, ::structmeta::NameArgs<::std::option::Option<L>>>, pub ::std::vec::Vec<L>);'),
    ('n', 'StructMeta', 'pub struct W(pub L);'),
    ('p', 'Parse, ::structmeta::ToTokens', 'pub struct W { #[to_tokens("(")] pub a: ::syn::token::Paren, #[to_tokens("[")] pub b: ::syn::token::Bracket, pub c: L, #[to_tokens("]")] #[parse(any)] pub d: ::syn::Ident, '
     '#[to_tokens(")")] pub e: L, #[to_tokens("{")] pub f: ::syn::token::Brace, #[parse(terminated)] pub g: ::syn::punctuated::Punctuated<L, ::syn::token::Comma> }'),
    ('q', 'Parse, ::structmeta::ToTokens', 'pub struct W(pub L, #[to_tokens("(")] pub ::syn::MacroDelimiter, #[parse(terminated, any)] pub ::syn::punctuated::Punctuated<::syn::Ident, ::syn::token::Comma>);'),
    ('e', 'Parse, ::structmeta::ToTokens', 'pub enum W { A(#[parse(peek)] ::syn::token::Fn, L), B { #[parse(peek, any)] x: ::syn::Ident, #[parse(peek)] y: ::syn::token::Eq, z: L }, '
     'C { #[to_tokens("(")] #[parse(peek)] x: ::syn::token::Paren, y: L }, D { y: L }, U }'),
    ('f', 'Parse, ::structmeta::ToTokens', 'pub enum W { A(L), B(::syn::LitStr) }'),
    ('g', 'StructMeta', "pub struct W<'a, T: ::syn::parse::Parse, const N: ::std::primitive::usize> where T: ::std::clone::Clone { #[struct_meta(unnamed)] pub a: T, pub d: ::std::option::Option<T>, "
     "pub k: ::structmeta::NameArgs<P<'a, T, N>> }"),
    ('h', 'Parse, ::structmeta::ToTokens', "pub enum W<'a, T: ::syn::parse::Parse + ::quote::ToTokens, const N: ::std::primitive::usize> { A(#[parse(peek)] ::syn::token::Fn, T), B(P<'a, T, N>) }"),
)
GENERIC = ("pub struct P<'a, T, const N: ::std::primitive::usize>(::std::marker::PhantomData<&'a T>); impl<'a, T, const N: ::std::primitive::usize> ::syn::parse::Parse for P<'a, T, N> { "
           "fn parse(_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { ::std::result::Result::Ok(P(::std::marker::PhantomData)) } } "
           "impl<'a, T, const N: ::std::primitive::usize> ::quote::ToTokens for P<'a, T, N> { fn to_tokens(&self, _: &mut ::proc_macro2::TokenStream) {} } ")
PLACES = (      # (id, text around the definition, what its types are called there)
    ('mod', '%s', 'L', 'in a module'),
    ('fn', 'fn f() { %s }', 'L', 'in a function'),
    ('gfn', 'fn f<T, const N: usize>() { %s }', 'L', 'in a generic function'),
    ('const', 'const _: () = { %s };', 'L', 'in an anonymous constant'),
    ('met', 'struct Q; impl Q { fn f(&self) { %s } }', 'L', 'in a method'),
    ('trait', 'trait Q { fn f() { %s } }', 'L', 'in a default method of a trait'),
    ('blk', 'const Z: u8 = { fn f() { if true { %s } } 0 };', 'L', 'in nested blocks'),
    ('clo', 'fn f() { let _ = || { %s }; }', 'L', 'in a closure'),
    ('asy', 'async fn f() { %s }', 'L', 'in an async function'),
    ('len', 'fn f(_: [u8; { %s 0 }]) {}', 'L', 'in an array length'),
    ('self', '%s', 'self::L', 'with types named by self paths'),
    ('sup', '%s', 'super::L', 'with types named by super paths'),
    ('priv', '%s', 'L', 'with private fields and types'),
    ('in', '%s', 'L', 'with restricted visibility'),
    ('mac', 'macro_rules! mk { () => { %s } } mk!();', 'L', 'from a macro_rules macro'),
    ('macn', 'macro_rules! mk { ($n:ident $t:ty) => { %s } } mk!(W L);', '$t', 'from a macro_rules macro that is given the name and the types'),
    ('mty', 'macro_rules! ty { ($($t:tt)*) => { $($t)* } } %s', 'ty!(L)', 'with types that are macro calls'),
    ('alias', '%s', 'A', 'with type aliases'),
    ('attr', '%s', 'L', 'with other attributes'),
    ('two', '%s', 'L', 'derived separately'),
    ('use', '%s', 'L', 'by an imported name of the derive'),
)


class Place(CF):
    """a valid definition at a place, in an edition"""
    def __init__(self, id, derive, rule, item, pre, edition):
        CF.__init__(self, id, derive.split(',')[0], rule, item, ok=True, pre=pre)
        self.edition = edition

    @property
    def props(self):
        return {'C07'}

    def text(self):
        return 'pub mod %s { #![allow(warnings)] %s %s }' % (self.id, self.pre, self.item)


def named(item, name):
    return re.sub(r'\bL\b', lambda m: name, item)


def places():
    ws = []
    for ed in ('2018', '2021', '2024'):
        rule = 'definitions compile in every edition, wherever items may stand'
        for p, around, name, what in PLACES:
            for k, d, item in PLACED:
                head, it = '#[derive(::structmeta::%s)] ' % d, named(item, name)
                loc = LOCAL + (GENERIC if 'P<' in item else '')
                if p == 'priv':
                    it, loc = it.replace('pub ', ''), loc.replace('pub ', '')
                if p == 'in':
                    it, loc = it.replace('pub ', 'pub(super) '), loc.replace('pub ', 'pub(crate) ')
                if p == 'macn':
                    it = it.replace(' W', ' $n', 1)
                if p == 'alias':
                    loc += 'type A = L; '
                if p == 'attr':
                    head += '#[non_exhaustive] #[must_use] #[doc = "x"] #[doc(hidden)] #[cfg_attr(all(), allow(dead_code))] '
                    it = it.replace('pub a', '#[cfg(all())] #[doc = "y"] #[allow(dead_code)] pub a').replace('pub d', '#[cfg_attr(all(), doc = "z")] /** c */ #[deprecated] pub d')
                if p == 'two':
                    head = ''.join('#[derive(%s)] ' % x.strip() for x in ('::structmeta::' + d).split(','))
                if p == 'use':
                    loc += ''.join('use ::structmeta::%s as D%d; ' % (x.split('::')[-1].strip(), i) for i, x in enumerate(d.split(',')))
                    head = '#[derive(%s)] ' % ', '.join('D%d' % i for i in range(len(d.split(','))))
                if p == 'sup':
                    pre, it = loc, 'pub mod inner { %s%s%s }' % ('use super::P; ' if 'P<' in item else '', head, it)
                elif p in ('mac', 'macn', 'mty'):
                    pre, it = loc, around % (head + it)
                else:
                    pre, it = '', around % (loc + head + it)
                ws.append(Place('p%s_%s_%s' % (ed[2:], p, k), d, '%s (%s, edition %s)' % (rule, what, ed), it, pre, ed))
    return ws


# definitions whose names, attributes and types a lint may object to
ODD = (
    '#[derive(::structmeta::StructMeta)] #[allow(non_snake_case)] pub struct W { Foo: ::syn::LitInt, BAR: bool }',
    '#[derive(::structmeta::StructMeta)] pub struct W { #[allow(non_snake_case)] Foo: ::syn::LitInt, #[allow(non_snake_case)] BAR: bool, #[struct_meta(unnamed)] #[allow(non_snake_case)] Xx: Option<::syn::LitInt> }',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] #[allow(non_snake_case)] pub struct W { Foo: ::syn::LitInt, #[to_tokens("(")] BAR: ::syn::token::Paren, Baz: ::syn::LitInt }',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W { #[allow(non_snake_case)] Foo: ::syn::LitInt, #[allow(non_snake_case)] #[to_tokens("(")] BAR: ::syn::token::Paren, #[allow(non_snake_case)] Baz: ::syn::LitInt }',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] #[allow(non_camel_case_types)] pub enum W { #[allow(non_snake_case)] a { Foo: ::syn::LitInt, #[to_tokens("(")] BAR: ::syn::token::Paren, Baz: ::syn::LitInt }, #[allow(non_camel_case_types)] b_c(#[parse(peek)] ::syn::LitInt) }',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W { #[allow(non_camel_case_types)] #[allow(non_snake_case)] a { #[allow(non_snake_case)]  Foo: ::syn::LitInt, #[to_tokens("(")] BAR: ::syn::token::Paren, Baz: ::syn::LitInt }, #[allow(non_camel_case_types)] b_c(#[parse(peek)] ::syn::LitInt) }',
    '#[derive(::structmeta::StructMeta)] pub struct W { #[deprecated] pub Foo: ::syn::LitInt, #[deprecated] pub bar: bool, #[struct_meta(unnamed)] #[deprecated] pub x: Option<::syn::LitInt> }',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W { #[deprecated] pub foo: ::syn::LitInt, #[deprecated] #[to_tokens("(")] pub bar: ::syn::token::Paren, #[deprecated] pub x: Option<::syn::LitInt> }',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W { #[deprecated] A, B {#[deprecated]  foo: ::syn::LitInt, #[deprecated] #[to_tokens("(")] bar: ::syn::token::Paren, #[deprecated]  x: Option<::syn::LitInt> }, #[deprecated] C(#[parse(peek)] ::syn::LitInt), #[deprecated] D{} }',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] #[deprecated] pub enum W { A, B(#[parse(peek)] ::syn::LitInt)}',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] #[deprecated] pub struct W(::syn::LitInt);',
    '#[derive(::structmeta::StructMeta)] #[deprecated] pub struct W(::syn::LitInt);',
    "#[derive(::structmeta::StructMeta)] pub struct W(N, Option<N>, Vec<N>); impl ::syn::parse::Parse for N { fn parse(_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { todo!() } } pub enum N {}",
    "#[derive(::structmeta::StructMeta)] pub struct W {a: N, b: ::structmeta::NameArgs<N>, c: ::structmeta::NameValue<N>, d: ::structmeta::NameArgs<Option<N>>, e: Vec<N>, f: Option<N>, g: ::std::collections::HashMap<String, N>} impl ::syn::parse::Parse for N { fn parse(_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { todo!() } } pub enum N {}",
    "#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W(::syn::LitInt, N, ::syn::LitInt); impl ::quote::ToTokens for N { fn to_tokens(&self, _: &mut ::proc_macro2::TokenStream) { } } impl ::syn::parse::Parse for N { fn parse(_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { todo!() } } pub enum N {}",
    "#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W {A(N), B(::syn::LitInt), C{x:N, y: N}, D(#[parse(peek)] ::syn::LitInt, N, N)} impl ::quote::ToTokens for N { fn to_tokens(&self, _: &mut ::proc_macro2::TokenStream) { } } impl ::syn::parse::Parse for N { fn parse(_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { todo!() } } pub enum N {}",
    "#[derive(::structmeta::StructMeta)] pub struct W {a: N, b: ::structmeta::NameArgs<N>, c: ::structmeta::NameValue<N>, d: ::structmeta::NameArgs<Option<N>>, e: Vec<N>, f: Option<N>, g: ::std::collections::HashMap<String, N>} impl ::syn::parse::Parse for N { fn parse(_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { todo!() } } #[must_use] pub struct N;",
    "#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W {A(N), B(::syn::LitInt), C{x:N, y: N}, D(#[parse(peek)] ::syn::LitInt, N, N)} impl ::quote::ToTokens for N { fn to_tokens(&self, _: &mut ::proc_macro2::TokenStream) { } } impl ::syn::parse::Parse for N { fn parse(_: ::syn::parse::ParseStream<'_>) -> ::syn::Result<Self> { todo!() } } #[must_use] pub struct N;",
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W {}',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W;',
    '#[derive(::structmeta::StructMeta)] pub struct W;',
    '#[derive(::structmeta::StructMeta)] pub struct W{}',
    '#[derive(::structmeta::StructMeta)] pub struct W();',
    '#[derive(::structmeta::ToTokens)] pub enum W {}',
    '#[derive(::structmeta::Parse)] pub enum W {}',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W {A}',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W {A {}, B()}',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W {A {}, B(::syn::LitInt)}',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W(#[to_tokens("(")] ::syn::token::Paren);',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W(#[to_tokens("(")] ::syn::token::Paren, #[to_tokens(")[")] ::syn::token::Bracket, #[to_tokens("]{")] ::syn::token::Brace);',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub struct W(#[to_tokens("(")] ::syn::MacroDelimiter, #[to_tokens(")")] ::syn::LitInt);',
    '#[derive(::structmeta::Parse, ::structmeta::ToTokens)] pub enum W {A(#[parse(peek)] #[to_tokens("(")] ::syn::token::Paren), B(#[parse(peek)] ::syn::LitInt)}',
)


class Linted:
    """a valid definition under a level of all lints, and the same one without the derive"""
    def __init__(self, id, derive, item, pre, edition, level, what):
        self.id, self.derive, self.item, self.pre, self.edition, self.level, self.what = id, derive, item, pre, edition, level, what

    def text(self):
        return 'pub mod %s { %s %s } pub mod %s_c { %s %s }' % (self.id, self.pre, self.item, self.id, self.pre, plain(self.item))


def plain(item):
    """the definition without the derive"""
    item = re.sub(r'#\[derive\((?:::structmeta::|D\d)[^\]]*\)\]', '', item)
    return re.sub(r'#\[(?:struct_meta|parse|to_tokens)\((?:[^\]"]|"[^"]*")*\)\]', '', item)


def linted(seed, thorough):
    rng = random.Random(seed * 3 + 1)
    ws = []
    for ed in ('2018', '2021', '2024'):
        for level in ('warn', 'forbid'):
            e = ed[2:] + level[0]
            for i, it in enumerate(ODD):
                if level == 'warn' or '#[allow' not in it and '#[deprecated' not in it:
                    ws.append(Linted('o%s_%d' % (e, i), 'StructMeta' if 'StructMeta' in it else 'Parse', it, '', ed, level, 'a definition with unusual names, attributes or types'))
            for w in places():
                if w.edition == ed and not (level == 'forbid' and 'allow(' in w.item):
                    ws.append(Linted(w.id + level[0], w.derive, w.item, w.pre, ed, level, w.rule.split(' (')[1].split(',')[0]))
    ok = [w for w in enumerated(seed, thorough) if w.ok and type(w) is CF]
    gen = [w for w in bounds(seed, thorough) if 'fn used' in w.item]
    for i, w in enumerate(rng.sample(ok, min(len(ok), 900 if thorough else 240)) + rng.sample(gen, 300 if thorough else 90)):
        it = w.item.split('fn used')[0]
        pre = w.pre.replace('super::gb', 'crate::gb') if 'fn used' in w.item else 'use ::structmeta::{Flag, NameArgs, NameValue}; use ::syn::*; use ::syn::punctuated::Punctuated; use ::std::collections::HashMap;'
        if 'derive(' not in it:
            it = '#[derive(::structmeta::%s)] %s' % (w.derive, it)
        ws.append(Linted('x%d' % i, w.derive, it, pre, '2024', ('warn', 'forbid')[i % 2 if 'cfg' not in it else 0], 'a documented definition'))
    return ws, [w for w in bounds(seed, False) if w.id == 'gb']


# those the property names (a derive may come to call other methods of the library)
SOME_TRAITS = 'use ::std::iter::{Iterator as _, Extend as _, DoubleEndedIterator as _, ExactSizeIterator as _}; use ::std::convert::{Into as _, From as _, AsRef as _, AsMut as _}; use ::std::clone::Clone as _; use ::std::borrow::ToOwned as _;'
METHODS = 'parse insert push to_string into_iter'.split()


def sources(repo='/repo'):
    """the identifiers of the derives and their helpers: (lower case ones, upper case ones)"""
    ids = set()
    for d in ('structmeta-derive/src', 'structmeta/src'):
        for f in sorted(os.listdir(os.path.join(repo, d))):
            if f.endswith('.rs') and f != 'easy_syntax.rs':
                s = re.sub(r'//.*', '', open(os.path.join(repo, d, f), errors='replace').read().split('#[cfg(test)]')[0])
                ids |= set(re.findall(r'[A-Za-z_][A-Za-z0-9_]*', s))
    kw = models_kw() | {'union', 'auto', 'raw', 'safe', 'gen', 'default', 'macro_rules', 'Self'}
    ids = sorted(x for x in ids - kw if len(x) < 32)
    ids += ['_' + x for x in ids if '_' + x not in ids and x[0] != '_' and x.islower()][::3] + ['_value_%d' % i for i in range(12)] + ['input_%d' % i for i in range(4)] + ['_%d' % i for i in range(4)]
    ids = list(dict.fromkeys(ids))
    return [x for x in ids if x[0].islower() or x[0] == '_' and len(x) > 1 and not x[1].isupper()], [x for x in ids if x[0].isupper() and not x.isupper()]


def models_kw():
    return set("""as break const continue crate dyn else enum extern false fn for if impl in let loop match mod move mut pub ref return self static struct super trait true type unsafe use where while
async await abstract become box do final macro override priv typeof unsized virtual yield try""".split())


def generic(item, n):
    """the definition with a type parameter of that name"""
    i = item.index('%s')
    return item[:i] + 'W<%s: ::syn::parse::Parse + ::quote::ToTokens>' % n + item[i + 2:].replace('::syn::LitStr', n).replace('::syn::Ident', n).replace('(::syn::LitInt', '(' + n, 1).replace('aa: ::syn::LitInt', 'aa: ' + n)

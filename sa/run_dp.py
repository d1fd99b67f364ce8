"""The code shown on request (`dump`) is the code a derive generates without the request.

Both are products of the compiler's macro expansion: the definition is expanded without the request,
and the text of the compile error it leads to with the request is put in the place of the derive and
expanded as well.  Nothing generated is run."""
import json, os, re
import build, corpus_sm, corpus_pt

SM = ('#[struct_meta(dump)] %s', '%s #[struct_meta(dump)]', '#[struct_meta(dump, dump)] %s', '#[struct_meta(dump,)] %s', '#[struct_meta()] #[struct_meta(dump)] %s', '#[struct_meta(dump)] #[struct_meta()] %s')
PT = ('#[%s(dump)] ', '#[%s(dump, dump)] ', '#[%s()] #[%s(dump)] ', '#[%s(dump,)] ', '#[%s(dump)] #[%s()] ')


def definitions(seed, thorough):
    """[(derive, witness, text without the request, text with it)]"""
    out = []
    n = 0
    taken = set()
    for w in corpus_sm.build(seed, thorough):
        if w.wrap or 'cfg_attr' in w.text() or w.root or {'msg', 'near'} & w.groups or w.id.startswith('sp_kw_super') or w.id.startswith('sp_kw_crate'):
            continue
        plain, n = w.text(), n + 1
        taken.add(w.id)
        own, sa = w.sattr, w.sattr
        if sa is None:
            sa = '#[struct_meta(name_filter = "snake_case")] ' if w.filt else ''
        if w.filt and n % 3 == 0 and own is None:
            w.sattr = ('#[struct_meta(name_filter = "snake_case", dump)] ', '#[struct_meta(dump, name_filter = "snake_case")] ')[n % 2]
        else:
            w.sattr = SM[n % len(SM)] % sa + ' '
        out.append(('StructMeta', w, plain, w.text()))
        w.sattr = own
    for w in corpus_pt.build(seed, thorough):
        n += 1
        if w.wrap or w.id in taken or 'cfg_attr' in w.text() or w.id.startswith('x') and n % 4 and not thorough:
            continue
        plain, own = w.text(), w.sattr
        for d, attr in (('Parse', 'parse'), ('ToTokens', 'to_tokens')):
            if re.search(r'\b%s\b' % d, w.derive):
                f = PT[(n + len(d)) % len(PT)]
                w.sattr = f.replace('%s', attr) + own
                out.append((d, w, plain, w.text()))
        w.sattr = own
    return out


def ident_of(w):
    return getattr(w, 'name', None) or w.ty


def behind_item(text, name):
    """what follows the definition of the type, its own text left out; None if it is not there"""
    m = None
    for m in re.finditer(r'\bpub (?:struct|enum) %s\b' % re.escape(name), text):
        break
    if m is None:
        return None
    i, depth = m.end(), 0
    while i < len(text):
        c = text[i]
        if c == '"':
            i = re.compile(r'"(?:[^"\\]|\\.)*"', re.S).match(text, i).end()
            continue
        if text.startswith('//', i):
            i = text.index('\n', i)
        elif re.match(r"'(?:[^'\\]|\\.[^']*)'", text[i:i + 12]):
            i += re.match(r"'(?:[^'\\]|\\.[^']*)'", text[i:i + 12]).end()
            continue
        elif c in '([{':
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0 and c == '}':
                return text[i + 1:]
        elif c == ';' and depth == 0:
            return text[i + 1:]
        i += 1
    return None


def squeeze(t):
    t = t.strip()
    return ' '.join((t[:-1] if t.endswith('}') else t).split())


STRING = r'"(?:[^"\\]|\\.)*"'
HELPER = re.compile(r'#\[(?:struct_meta|parse|to_tokens|derive)\((?:%s|[^")])*\)\]\s*' % STRING)


def pasted(text, name, own, code):
    """the module, with the code in the place of the derive and its attributes"""
    t = HELPER.sub('', text).rstrip()
    return 'pub mod %s { %s %s }' % (name, t[t.index('{') + 1:-1].replace('sm::%s' % own, 'sm::' + name), code)


def dumped(message):
    """the code in the text of a compile error"""
    for t in [message['message']] + [c['message'] for c in message.get('children', ())]:
        m = re.search(r'(#\s*\[\s*automatically_derived|\bimpl\b)', t)
        if m:
            return t[m.start():]
    return None


def analyse(defs):
    mods = {w.id: plain for _, w, plain, _ in defs}
    dead = build.gate('dump', sorted(mods.items()))
    plain = build.expand([x for x in sorted(mods.items()) if x[0] not in dead])
    code, res = {}, {}
    for d in ('StructMeta', 'Parse', 'ToTokens'):
        part = [(w.id, text) for x, w, _, text in defs if x == d and w.id not in dead]
        name = 'dp' + d.lower()
        c = build.make_crate(name, '\n'.join(['#![allow(warnings)]'] + [t for _, t in part]) + '\n')
        os.utime(os.path.join(c, 'src/lib.rs'))
        r, ms = build.cargo_check(c, os.path.join(build.WORK, 'target'))
        for m in ms:
            if m['message']['level'] == 'error' and m['target']['name'] != name:
                raise build.BuildError('%s does not build: %s' % (m['target']['name'], m['message']['rendered'][:3000]))
            if m['message']['level'] == 'error':
                for f, a, b, prim in build.line_spans(m):
                    if f.endswith('src/lib.rs') and 2 <= a <= len(part) + 1:
                        k = (part[a - 2][0], d)
                        t = dumped(m['message'])
                        res.setdefault(k, []).append(m['message']['message'])
                        if t is not None:
                            code[k] = t
                        break
    shown = build.expand([('%s_%s' % k, pasted(mods[k[0]], '%s_%s' % k, k[0], t)) for k, t in sorted(code.items())])
    out = []
    for d, w, _, text in defs:
        k = (w.id, d)
        if w.id in dead or plain.get(w.id) is None:
            out.append([w.id, d, 'skipped', 'the definition does not expand'])
            continue
        if k not in code:
            out.append([w.id, d, 'nothing', 'the request leads to no error that shows the code' + (': ' + res[k][0] if k in res else '')])
            continue
        a, b = behind_item(plain[w.id], ident_of(w)), shown.get('%s_%s' % k)
        if b is None:
            out.append([w.id, d, 'garbage', 'what is shown are no items'])
            continue
        b = behind_item(b, ident_of(w))
        if a is None or b is None:
            out.append([w.id, d, 'skipped', 'the definition is not found in its expansion'])
            continue
        a, b = squeeze(a), squeeze(b)
        ds = [x for x in ('Parse', 'ToTokens') if re.search(r'\b%s\b' % x, w.derive)]
        # (where both are derived, Parse comes first)
        ok = a == b if d == 'StructMeta' or len(ds) == 1 else a.startswith(b + ' ') if d == 'Parse' else a.endswith(' ' + b)
        if not ok:
            n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
            out.append([w.id, d, 'differs', 'shown: ..%s\ngenerated: ..%s' % (b[max(0, n - 60):n + 100], a[max(0, n - 60):n + 100])])
        else:
            out.append([w.id, d, 'ok', b[:300]])
    return out


def run(seed, thorough):
    defs = definitions(seed, thorough)
    with build.Lock('crate-dump'):
        key = build.digest(build.repo_digest(), open(__file__).read(), *[x for _, _, p, t in defs for x in (p, t)])
        meta = os.path.join(build.WORK, 'dump-%s.json' % key)
        if os.path.exists(meta):
            return defs, json.load(open(meta))
        got = analyse(defs)
        for old in os.listdir(build.WORK):
            if old.startswith('dump-') and old.endswith('.json'):
                os.unlink(os.path.join(build.WORK, old))
        json.dump(got, open(meta, 'w'))
    return defs, got


if __name__ == '__main__':
    import sys, time, collections
    t = time.time()
    d, g = run(1, False)
    print(len(d), collections.Counter((x[1], x[2]) for x in g), time.time() - t)
    for x in [x for x in g if x[2] != 'ok'][:12]:
        print(x)

"""Compile-fail witnesses: every invalid definition has to be rejected, at its own place."""
import json, os
import build, corpus_cf


def run(seed, thorough):
    ws = corpus_cf.build(seed, thorough) + [w for w in corpus_cf.enumerated(seed, thorough) if w.ok]
    out = {}
    for phase in ('macro', 'type', 'ok'):
        part = [w for w in ws if ('ok' if w.ok else w.phase) == phase]
        name = 'cf' + phase
        with build.Lock('crate-' + name):
            key = build.digest(build.repo_digest(), *[w.text() for w in part])
            meta = os.path.join(build.WORK, '%s-%s.json' % (name, key))
            if os.path.exists(meta):
                got = json.load(open(meta))
            else:
                got = check(name, part)
                for old in os.listdir(build.WORK):
                    if old.startswith(name + '-') and old.endswith('.json'):
                        os.unlink(os.path.join(build.WORK, old))
                json.dump(got, open(meta, 'w'))
        out.update(got)
    return {'witnesses': ws, 'messages': out}


def check(name, part, edition='2024'):
    dead = build.gate(name, [(w.id, w.text()) for w in part])
    got0, part = {i: [[what or 'left out: too many definitions stop the compiler', 'dead' if what else 'left out']] for i, what in dead.items()}, [w for w in part if w.id not in dead]
    d = build.make_crate(name, '\n'.join(['#![allow(warnings)]'] + [w.text() for w in part]) + '\n', edition=edition)
    os.utime(os.path.join(d, 'src/lib.rs'))
    r, ms = build.cargo_check(d, os.path.join(build.WORK, 'target'))
    got = {w.id: [] for w in part}
    for m in ms:
        if m['message']['level'] != 'error':
            continue
        if m['target']['name'] != name:
            raise build.BuildError('%s does not build: %s' % (m['target']['name'], m['message']['rendered'][:3000]))
        code = m['message'].get('code')
        for f, a, b, prim in build.line_spans(m):
            if f.endswith('src/lib.rs') and 2 <= a <= len(part) + 1:
                got[part[a - 2].id].append([m['message']['message'], code['code'] if code else None])
                break
    if r.returncode == 0 and any(got.values()):
        raise build.BuildError('%s: errors without failure' % name)
    if r.returncode != 0 and not any(got.values()):
        raise build.BuildError('%s: cargo check fails without diagnostics:\n%s' % (name, r.stderr[-3000:]))
    got.update(got0)
    return got


def places():
    """the definitions at every place, one crate for each edition"""
    out, ws = {}, corpus_cf.places()
    for ed in sorted({w.edition for w in ws}):
        part = [w for w in ws if w.edition == ed]
        name = 'pl' + ed
        with build.Lock('crate-' + name):
            out.update(check(name, part, ed))
    return {'witnesses': ws, 'messages': out}


def bounds(seed, thorough):
    """generic definitions with uses of their implementations"""
    ws = corpus_cf.bounds(seed, thorough)
    with build.Lock('crate-cfgen'):
        return {'witnesses': ws, 'messages': check('cfgen', ws)}


OPT_IN = ('unsafe_code', 'missing_docs', 'elided_lifetimes_in_paths', 'unused_lifetimes', 'non_ascii_idents')


def lints():
    """the names of the lints that are on by default, and of some that are often asked for"""
    r = build.sh(['rustc', '+nightly', '-W', 'help'])
    out = []
    for l in r.stdout.splitlines():
        f = l.split()
        if len(f) > 2 and f[1] in ('allow', 'warn', 'deny') and f[0] != 'name' and (f[1] != 'allow' or f[0].replace('-', '_') in OPT_IN):
            out.append(f[0].replace('-', '_'))
    return sorted(set(out))


NOLINT = ('dead_code', 'unstable_features', 'missing_crate_level_docs', 'unused_crate_dependencies')     # (what a derive uses of a type is its purpose)


def linted(seed, thorough):
    """{id: [[lint or code, message]]} of what the compiler says with the derive and does not say without"""
    ws, pre = corpus_cf.linted(seed, thorough)
    names = [x for x in lints() if x not in NOLINT]
    out = {}
    for ed, level in sorted({(w.edition, w.level) for w in ws}):
        part = [w for w in ws if (w.edition, w.level) == (ed, level)]
        name = 'lint%s%s' % (ed, level)
        with build.Lock('crate-' + name):
            dead = build.gate(name, [(w.id, w.text()) for w in part])
            out.update({i: [['dead', what]] for i, what in dead.items() if what})
            part = [w for w in part if w.id not in dead]
            head = '#![allow(unknown_lints)] #![%s(%s)]' % (level, ', '.join(names))
            d = build.make_crate(name, '\n'.join([head] + [w.text() for w in part]) + '\n' + ' '.join(w.text().replace('#![allow(warnings)]', '') for w in pre) + '\n', edition=ed)
            os.utime(os.path.join(d, 'src/lib.rs'))
            r, ms = build.cargo_check(d, os.path.join(build.WORK, 'target'))
            said = {w.id: ([], []) for w in part}
            for m in ms:
                m = m if m['target']['name'] == name else None
                if m is None or m['message']['level'] not in ('warning', 'error'):
                    continue
                code = (m['message'].get('code') or {}).get('code')
                if code in NOLINT:
                    continue
                for s in m['message']['spans']:
                    if s['is_primary']:
                        while not s['file_name'].endswith('src/lib.rs') and s.get('expansion'):
                            s = s['expansion']['span']
                        if s['file_name'].endswith('src/lib.rs') and 2 <= s['line_start'] <= len(part) + 1:
                            w = part[s['line_start'] - 2]
                            c = s['column_start'] > w.text().index('} pub mod %s_c {' % w.id)
                            said[w.id][c].append([code, m['message']['message'].replace(w.id + '_c', w.id)])
                            break
            for i, (with_, without) in said.items():
                left = list(without)
                out[i] = []
                for x in with_:
                    if x in left:
                        left.remove(x)
                    else:
                        out[i].append(x)
    return {'witnesses': ws, 'messages': out, 'lints': names}


def located(seed, thorough):
    """{id: [[message, code, [first column, column behind the last] of every primary place]]} of the definitions with marked parts"""
    ws, out = corpus_cf.located(seed, thorough), {}
    for phase in ('macro', 'type'):
        part = [w for w in ws if w.phase == phase]
        name = 'loc' + phase
        with build.Lock('crate-' + name):
            dead = build.gate(name, [(w.id, w.text()) for w in part])
            out.update({i: [[what or 'left out: too many definitions stop the compiler', 'dead' if what else 'left out', []]] for i, what in dead.items()})
            part = [w for w in part if w.id not in dead]
            d = build.make_crate(name, '\n'.join(['#![allow(warnings)]'] + [w.text() for w in part]) + '\n')
            os.utime(os.path.join(d, 'src/lib.rs'))
            r, ms = build.cargo_check(d, os.path.join(build.WORK, 'target'))
            out.update({w.id: [] for w in part})
            for m in ms:
                if m['message']['level'] != 'error':
                    continue
                if m['target']['name'] != name:
                    raise build.BuildError('%s does not build: %s' % (m['target']['name'], m['message']['rendered'][:3000]))
                code, at = m['message'].get('code'), {}
                for s in m['message']['spans']:
                    if s['is_primary']:
                        while not s['file_name'].endswith('src/lib.rs') and s.get('expansion'):
                            s = s['expansion']['span']
                        if s['file_name'].endswith('src/lib.rs') and s['line_start'] == s['line_end'] and 2 <= s['line_start'] <= len(part) + 1:
                            at.setdefault(s['line_start'] - 2, []).append([s['column_start'], s['column_end']])
                for i, places in at.items():
                    out[part[i].id].append([m['message']['message'], code['code'] if code else None, places])
    return {'witnesses': ws, 'messages': out}

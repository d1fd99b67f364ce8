"""Effect analysis: what the derives, the helpers and generated parsers may call."""
import json, os, re
import build, corpus_sm, corpus_pt

CRATES = ('structmeta_derive', 'structmeta', 'fxw')

# effects by path prefix of the resolved callee (or referenced function)
DENY = [
    (r'std::fs::|std::path::Path::(exists|is_file|is_dir|metadata|read_dir|canonicalize|read_link|try_exists)', 'file system'),
    (r'std::env::', 'process environment'),
    (r'std::net::|std::os::', 'operating system'),
    (r'std::process::', 'process control'),
    (r'std::thread::|std::sync::mpsc', 'threads'),
    (r'std::time::(Instant|SystemTime)', 'clock'),
    (r'std::io::(stdio::)?(_print|_eprint|stdin|stdout|stderr)|std::io::(Stdin|Stdout|Stderr)', 'standard streams'),
    (r'std::hash::(random::)?(RandomState|DefaultHasher)|std::collections::hash_map::(RandomState|DefaultHasher)|::hash_one$', 'randomised hashing'),
    (r'(std|core)::sync::(atomic|Mutex|RwLock|Once|LazyLock|poison|once|lazy)|std::thread::(local::)?LocalKey|core::cell::(once|lazy)', 'shared mutable state'),
    (r'proc_macro::tracked|proc_macro::tracked_env|proc_macro::tracked_path', 'tracked environment'),
    (r'proc_macro2?::Span::(line|column|file|local_file|source_file|byte_range|source_text|start|end|source)$', 'source location'),
    (r'rand::|getrandom::|fastrand::', 'random numbers'),
    (r'::addr$|::expose_provenance$|core::ptr::(hash|addr_eq)', 'addresses'),
    (r'alloc::alloc::|libc::', 'raw system calls'),
]
DENY = [(re.compile(r), what) for r, what in DENY]
HASHED = re.compile(r'\b(HashMap|HashSet|hash_map|hash_set)\b')
# a value of a type parameter, which may be a hashed collection at some call
ABSTRACT = re.compile(r'(?:^|[\s&<(,])(?!mut\b)(?:dyn [^;]*|impl [^;]*|[A-Z]\w*)(?![\w:<])')
# operations on hashed collections whose result does not depend on their order
UNORDERED = re.compile(r'::(new|default|with_capacity|insert|get|get_mut|contains|contains_key|remove|remove_entry|take|replace|entry|len|is_empty|clear|eq|ne|clone|from|from_iter|collect|'
                       r'extend|reserve|shrink_to_fit|get_or_insert_with|get_key_value|try_insert|or_insert|or_insert_with|or_default|and_modify|key|index|drop|forget|unwrap|expect|is_some|is_none|'
                       r'borrow|borrow_mut|as_ref|as_mut|deref|deref_mut|into|map_err|ok_or|ok_or_else|branch|from_output|from_residual|capacity|is_vacant|into_mut|get_many_mut|is_subset|is_disjoint|is_superset|'
                       r'unwrap_or_default|unwrap_or|unwrap_or_else|push|some|ok|take_if|swap|mem::replace|all|any|count|fold_commutative)(::<.*>)?$')


def fx_dump():
    drv = build.driver()
    ws = [(w.id, w.text()) for w in corpus_sm.build(1, False)[::6]] + [('p_' + w.id, w.text().replace('pub mod %s {' % w.id, 'pub mod p_%s {' % w.id, 1)) for w in corpus_pt.build(1, False)[::6]]
    key = build.digest(build.repo_digest(), open(drv, 'rb').read(), *[t for _, t in ws])
    out = os.path.join(build.WORK, 'fx')
    stamp = os.path.join(out, 'key')
    os.makedirs(out, exist_ok=True)
    with build.Lock('fx'):
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            for f in os.listdir(out):
                os.unlink(os.path.join(out, f))
            tgt = os.path.join(build.WORK, 'target-fx')
            todo = ws
            for rnd in range(5):
                d = build.make_crate('fxw', '\n'.join(['#![allow(warnings)]'] + [t for _, t in todo]) + '\n')
                env = {'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0'}
                for p in ('structmeta', 'structmeta-derive', 'fxw'):
                    build.sh(['cargo', '+nightly', 'clean', '--offline', '-p', p, '--manifest-path', os.path.join(d, 'Cargo.toml')], env=env, cwd=d)
                r, ms = build.cargo_check(d, tgt, {'RUSTC_WRAPPER': drv, 'LD_LIBRARY_PATH': build.sysroot() + '/lib', 'MIRDUMP_CRATE': '', 'MIRDUMP_FX': out,
                                                   'MIRDUMP_FX_CRATES': ','.join(CRATES)})
                if r.returncode == 0:
                    break
                bad = set()
                for m in ms:
                    if m['message']['level'] == 'error':
                        if m['target']['name'] != 'fxw':
                            raise build.BuildError('%s does not build: %s' % (m['target']['name'], m['message']['rendered'][:2000]))
                        for f, a, b, prim in build.line_spans(m):
                            if f.endswith('src/lib.rs') and 2 <= a <= len(todo) + 1:
                                bad.add(a - 2)
                                break
                if not bad:
                    raise build.BuildError('fxw does not build: ' + r.stderr[-2000:])
                todo = [w for i, w in enumerate(todo) if i not in bad]
            else:
                raise build.BuildError('fxw does not build')
            for c in CRATES:
                if not os.path.exists(os.path.join(out, c + '.fx')):
                    raise build.BuildError('no effects of %s' % c)
            open(stamp, 'w').write(key)
    return {c: [l.rstrip('\n').split('\t') for l in open(os.path.join(out, c + '.fx'))] for c in CRATES}


def hashed(s):
    # what the witnesses define themselves is no hashed collection, whatever it is called
    return HASHED.search(re.sub(r'\bfxw::[\w:]*', 'fxw', s))


def observers(d):
    """functions of the analysed crates -> whether they may look into a value of a type parameter"""
    local, calls = set(), {}
    for rows in d.values():
        for fn, loc, kind, what, rest in rows:
            fn = re.sub(r'(::\{closure#\d+\})+$', '', fn)
            local.add(fn)
            if kind == 'call' and ABSTRACT.search(rest):
                calls.setdefault(fn, set()).add(what.split(' :: ')[-1])
    bad = {f for f, cs in calls.items() if any(c not in local and not UNORDERED.search(strip_generics(c).rstrip(':')) for c in cs)}
    while True:
        more = {f for f, cs in calls.items() if f not in bad and cs & bad}
        if not more:
            return local, bad
        bad |= more


def strip_generics(s):
    o, d = [], 0
    for i, c in enumerate(s):
        if c == '<':
            d += 1
        elif c == '>' and s[i - 1] != '-':
            d -= 1
        elif d == 0:
            o.append(c)
    return ''.join(o)


def run():
    d = fx_dump()
    vs = []
    counts = {}
    fns = {c: set() for c in CRATES}
    calls = {c: 0 for c in CRATES}
    callees = set()
    local, looking = observers(d)
    for c, rows in d.items():
        for fn, loc, kind, what, rest in rows:
            fns[c].add(fn)
            counts[kind] = counts.get(kind, 0) + 1
            loc = re.sub(r':\d+$', '', loc)
            if kind in ('call', 'fn'):
                calls[c] += kind == 'call'
                callees.add(what)
                for part in what.split(' :: '):
                    for r, why in DENY:
                        if r.search(part) and not (why == 'randomised hashing' and part.endswith(('RandomState::new', 'default'))):
                            vs.append((c, fn, loc, why, what))
                            break
                    else:
                        continue
                    break
                else:
                    name = what.split(' :: ')[-1]
                    if (hashed(name) or hashed(rest)) and not UNORDERED.search(strip_generics(name).rstrip(':')) and not UNORDERED.search(what) \
                            and not (name in local and name not in looking):
                        # a call that may observe the order of a hashed collection (what functions of these crates do with one is seen in them)
                        vs.append((c, fn, loc, 'order of a hashed collection', what))
            elif kind == 'ptr2int':
                vs.append((c, fn, loc, 'addresses', 'cast to ' + what))
            elif kind in ('static', 'staticdef') and rest.split(' ')[0] in ('mutable', 'thread'):
                vs.append((c, fn, loc, 'shared mutable state', 'static ' + what))
    return {'violations': sorted(set(vs)), 'functions': {c: len(f) for c, f in fns.items()}, 'calls': calls, 'callees': sorted(callees), 'counts': counts}

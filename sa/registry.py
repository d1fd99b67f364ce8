"""Which analysis decides which property."""
import run_sm, run_pt, run_cf, run_at, run_fx, run_dp, corpus_cf

TV_ASSUME = [
    'rustc (nightly) type-checks and lowers the expanded parsers as the release compiler does',
    "the documented behaviour of syn's ParseBuffer API, proc_macro2, core, alloc and HashMap (sa/models.py)",
    "a value parser is an arbitrary deterministic function of the input position, restricted to the first tokens documented for syn's own types",
]
CF_ASSUME = ['the nightly rustc front end accepts and rejects the witnesses as the release compiler does']

# property -> (rule, {engine}, outcomes of decided paths that bear on it)
SM_RULES = {
    'S01': ('typestate product: a path on which a parameter is claimed twice must end in Err', ('dup',)),
    'S02': ('typestate product: a path that ends with a required parameter unclaimed must end in Err; an unclaimed optional parameter has its documented default in the Ok value', ('missing', 'accepted')),
    'S03': ('typestate product: a path on which an identifier that no parameter claims is used as a name must end in Err, or put it in the rest map exactly once under that identifier', ('unknown', 'accepted')),
    'S04': ('value flow: the Ok value of every parameter is the value parsed directly after its own name', ('accepted', 'value')),
    'S05': ('typestate product: a claimed name with a style its parameter does not have must end in Err; with a style it has, the value says which style was used', ('style', 'accepted')),
    'S06': ('typestate product: positional values reach the positional parameters in definition order, with the documented arity, before any named parameter', ('order', 'toomany', 'missing', 'accepted')),
    'S07': ('typestate product: every Ok path consumed the input to its end, with exactly one comma between arguments and at most one after the last', ('comma', 'accepted')),
    'S08': ('typestate product: an argument is read as named or positional by the documented decision list on its first two tokens', ('accepted', 'unknown', 'order', 'toomany', 'value')),
    'S09': ('character-set analysis of the name filter: names accepted by the snake_case filter are exactly [a-z0-9_]*', ('accepted', 'unknown')),
    'S10': ('value flow: when a value parser fails, the parser returns Err with that same error value', ('value',)),
    'S11': ("value flow: the span stored with a parameter is the span of that argument's own name token", ('accepted',)),
    'S12': ('typestate product: `name=` is recognised by its first punctuation character whatever its spacing', ('accepted', 'value', 'style')),
    'S13': ('translation validation of the same parameter list under different spellings of the recognised types', ('accepted',)),
    'S15': ('value flow into the span of the returned error: it is the place of the offending argument (of the macro call for a missing one)', 'place:'),
    'S16': ('value flow into the text of the returned error: it names the parameter, and offers exactly the forms the parameter has', 'text:'),
    'S17': ('typestate product inside the parenthesised list: comma separated values, optional trailing comma, consumed to its end, in order', ('accepted', 'value')),
}
PT_RULES = {
    'P01': ('value flow: the fields are parsed in definition order, each directly behind the one before, and every field gets its own value', 'Parse', None),
    'P02': ('typestate product over nested buffers: a delimiter field enters its group, the fields behind it are read inside, the closing mark returns to the enclosing buffer', 'Parse', 'delim'),
    'P03': ('typestate product: the variants are tried in definition order on the same input position; only the chosen variant consumes input', 'Parse', 'enum'),
    'P04': ('typestate product: a variant is committed to iff the tokens of all its peeked fields match, in definition order, without backtracking afterwards', 'Parse', 'peek'),
    'P05': ('call summaries: `any` reads keywords as identifiers; `terminated` reads the separated list to the end of its buffer', 'Parse', 'any'),
    'P06': ('value flow: the error of a failing field parser is returned unchanged', 'Parse', None),
    'T01': ('effect sequence: `to_tokens` appends each field of the variant exactly once, in definition order', 'ToTokens', None),
    'T02': ('effect tree: the fields behind a delimiter field are appended inside its group, with the delimiter kind and span of that field', 'ToTokens', 'delim'),
    'T04': ('both implementations are compared with one layout, so what is emitted is laid out as it is parsed', None, 'both'),
}
GROUP_PROP = {'classify': 'S13', 'hygiene': 'C02', 'generic': 'C01'}


# ------------------------------------------------------------------------------ product analyses
def tally(todo, results, keep=lambda w: True):
    t = {'analysed': 0, 'decided': 0, 'undecided': 0, 'steps': 0, 'states': 0, 'why': {}, 'outcomes': {}, 'errors': [], 'n': 0, 'abstract': {}}
    for w, x in zip(todo, results):
        w0 = w[0] if isinstance(w, tuple) else w
        if not keep(w):
            continue
        t['n'] += 1
        if 'error' in x:
            t['errors'].append('%s: %s' % (w0.id, x['error']))
            continue
        t['analysed'] += x['decided'] > 0
        for k in ('decided', 'undecided', 'steps', 'states'):
            t[k] += x[k]
        for k, a in x.get('notes', ()):
            t['abstract']['%s: %s' % (k, a)] = t['abstract'].get('%s: %s' % (k, a), 0) + 1
        for k in ('why', 'outcomes'):
            for a, n in x[k].items():
                t[k][a] = t[k].get(a, 0) + n
    return t


def tv_cov(t, rule, samples, functions):
    return {'programs': t['analysed'], 'disagreements_checked': t['decided'], 'undecided_paths': t['undecided'],
            'undecided_reasons': dict(sorted(t['why'].items(), key=lambda kv: -kv[1])[:8]), 'decided_paths_by_outcome': t['outcomes'], 'programs_by_call_whose_result_was_left_unknown': t.get('abstract', {}),
            'not_analysed': t['errors'][:10], 'abstract_steps': t['steps'], 'loop_states': t['states'], 'functions_in_dump': functions,
            'rule': rule, 'samples': samples}


def floor(t, total, least=1):
    if t['decided'] < total * least or t['analysed'] < total * 0.3 or t['decided'] < (t['decided'] + t['undecided']) * 0.1:
        return 'only %d of %d programs could be analysed (%d paths decided, %d undecided): %s; %s' % (
            t['analysed'], total, t['decided'], t['undecided'], dict(list(t['why'].items())[:4]), t['errors'][:3])


def sample(w, x):
    return {'witness': w.text()[:600], 'function': x['fn'], 'decided_paths': x['decided'], 'undecided_paths': x['undecided'], 'outcomes': x['outcomes']}


def failures(ws, failed, pid, props):
    out = []
    for w in ws:
        if w.id in failed and not failed[w.id][0].startswith('left out') and pid in props(w, failed[w.id]):
            out.append({'key': '%s/compile' % w.id, 'where': 'expansion of the derives of this definition', 'rule': 'a documented definition is accepted',
                        'text': '\n'.join(failed[w.id][:3]) + '\nwitness: ' + w.text()})
    return out


def sm_failure(w, msgs):
    p = {'S14'} | {GROUP_PROP[g] for g in w.groups if g in GROUP_PROP}
    if any('panicked' in m or 'unparsable tokens' in m or m.startswith('the derive ') for m in msgs):
        p.add('C03')
    return p


def pt_failure(w, msgs):
    p = {GROUP_PROP[g] for g in w.groups if g in GROUP_PROP}
    if 'Parse' in w.derive:
        p |= {'P07'}
    if 'ToTokens' in w.derive:
        p |= {'T03'}
    if any('panicked' in m or 'unparsable tokens' in m or m.startswith('the derive ') for m in msgs):
        p.add('C03')
    return p


def sm_props(w, tags):
    return set(tags) | {GROUP_PROP[g] for g in w.groups if g in GROUP_PROP}


def pt_props(w, tags):
    p = set(tags) | {GROUP_PROP[g] for g in w.groups if g in GROUP_PROP}
    if 'Parse' in w.derive and 'ToTokens' in w.derive and p & {'P01', 'P02', 'P03', 'P05', 'T01', 'T02'}:
        p.add('T04')
    return p


def violations(pid, todo, results, props, rule):
    vs = []
    for w, x in zip(todo, results):
        w0 = w[0] if isinstance(w, tuple) else w
        for tags, key, text, sites in x.get('results', ()):
            if pid in props(w0, tags):
                vs.append({'key': '%s/%s' % (w0.id, key), 'where': '%s (last calls: %s)' % (x['fn'], ', '.join(sites)), 'rule': rule,
                           'text': text + '\nwitness: ' + w0.text()})
    return vs


def check_sm(pid, seed, thorough):
    rule, outs = SM_RULES[pid]
    r = run_sm.run(seed, thorough)
    t = tally(r['todo'], r['results'])
    vs = violations(pid, r['todo'], r['results'], sm_props, rule) + failures(r['witnesses'], r['failed'], pid, sm_failure)
    cov = tv_cov(t, rule, [sample(w, x) for w, x in list(zip(r['todo'], r['results']))[seed % 7::23] if 'error' not in x][:6], r['functions'])
    rel = t['decided'] if outs is None else sum(n for k, n in t['outcomes'].items() if (k.startswith(outs) if type(outs) is str else k.split(':')[-1] in outs and not k.startswith(('place:', 'text:'))))
    if outs is not None:
        cov['decided_paths_of_this_property'] = rel
    fl = floor(t, len(r['witnesses']), 10)
    if rel == 0 and not fl:
        fl = 'no path bears on the property'
    return {'violations': vs, 'coverage': cov, 'level': 'translation_validation', 'assumptions': TV_ASSUME, 'floor': fl,
            'summary': '%d parsers, %d paths decided (%d bear on it), %d undecided' % (t['analysed'], t['decided'], rel, t['undecided'])}


def check_pt(pid, seed, thorough):
    rule, only, group = PT_RULES[pid]
    r = run_pt.run(seed, thorough)

    def keep(p):
        w, k = p
        if only and k != only:
            return False
        if group == 'both':
            return 'Parse' in w.derive and 'ToTokens' in w.derive
        return group is None or group in w.groups or (group == 'delim' and any(f.tt for v in w.item for f in v.fields)) or (
            group == 'peek' and any(v.peeks for v in w.item)) or (group == 'any' and any(f.any or f.term for v in w.item for f in v.fields))
    t = tally(r['todo'], r['results'], keep)
    vs = violations(pid, r['todo'], r['results'], pt_props, rule)
    pairs = [(p, x) for p, x in zip(r['todo'], r['results']) if keep(p) and 'error' not in x]
    cov = tv_cov(t, rule, [sample(p[0], x) for p, x in pairs[seed % 5::max(1, len(pairs) // 6)]][:6], r['functions'])
    return {'violations': vs, 'coverage': cov, 'level': 'translation_validation', 'assumptions': TV_ASSUME, 'floor': floor(t, t['n']),
            'summary': '%d implementations, %d paths decided, %d undecided' % (t['analysed'], t['decided'], t['undecided'])}


ROBUST = {'C05': 'reachability of panic terminators (assert, panic, unwrap, index, overflow) on every path of the generated parsers and the helpers they call',
          'C06': 'progress on every cycle of the product: a loop of the parser is re-entered with the input moved on or over a finite list, never in a state it was already in; no call repeats an enclosing one'}


def check_robust(pid, seed, thorough):
    rule = ROBUST[pid]
    ra, rb = run_sm.run(seed, thorough), run_pt.run(seed, thorough)
    todo, results = ra['todo'] + rb['todo'], ra['results'] + rb['results']
    t = tally(todo, results)
    vs = violations(pid, todo, results, lambda w, tags: set(tags), rule)
    cov = tv_cov(t, rule, [sample(w[0] if isinstance(w, tuple) else w, x) for w, x in list(zip(todo, results))[seed % 7::71] if 'error' not in x][:8], ra['functions'] + rb['functions'])
    return {'violations': vs, 'coverage': cov, 'level': 'translation_validation', 'assumptions': TV_ASSUME,
            'floor': floor(tally(ra['todo'], ra['results']), len(ra['witnesses']), 10) or floor(tally(rb['todo'], rb['results']), len(rb['todo'])),
            'summary': '%d implementations, %d paths, %d loop states, %d undecided' % (t['analysed'], t['decided'], t['states'], t['undecided'])}


# ------------------------------------------------------------------------------ accepted and rejected definitions
CF_RULES = {'S14': ('StructMeta', 'an invalid parameter list makes the derive report an error at the definition; every documented one compiles'),
            'P07': ('Parse', 'an invalid layout or attribute makes the derive report an error at the definition; every documented one compiles'),
            'T03': ('ToTokens', 'an invalid layout or attribute makes the derive report an error at the definition; every documented one compiles')}


def cf_violation(w, ms):
    if ms and ms[0][1] == 'left out':
        return None
    if ms and ms[0][1] == 'dead':
        return 'dead', ms[0][0]
    if w.ok:
        if not ms:
            return None
        return ('panic' if any('panicked' in m for m, c in ms) else 'garbage' if any('unparsable tokens' in m for m, c in ms) else 'reject'), \
            'the definition is rejected: %s' % ms[0][0]
    if not ms:
        return 'accept', 'the definition is accepted'
    if any('panicked' in m for m, c in ms):
        return 'panic', 'the derive panics: %s' % ms[0][0]
    if any('unparsable tokens' in m for m, c in ms):
        return 'garbage', 'the derive accepts the definition and emits tokens that are no items: %s' % ms[0][0]
    if w.phase == 'macro' and all(c is not None for m, c in ms):
        return 'late', 'the derive accepts the definition; the compiler rejects the expansion: %s' % ms[0][0]


def check_cf(pid, seed, thorough):
    derive, rule = CF_RULES[pid]
    r = run_cf.run(seed, thorough)
    mine = [w for w in r['witnesses'] if pid in w.props]
    vs = []
    for w in mine:
        v = cf_violation(w, r['messages'].get(w.id))
        if v:
            vs.append({'key': '%s/%s' % (w.id, v[0]), 'where': 'derive(%s)' % derive, 'rule': w.rule, 'text': v[1] + '\nrule: ' + w.rule + '\nwitness: ' + w.text()})
    if pid == 'S14':
        p = run_sm.compiled(seed, thorough)
        vs += failures(p['witnesses'], p['failed'], pid, sm_failure)
        pos = len(p['witnesses'])
    else:
        p = run_pt.compiled(seed, thorough)
        vs += failures([w for w in p['witnesses'] if derive in w.derive], p['failed'], pid, pt_failure)
        pos = sum(derive in w.derive for w in p['witnesses'])
    nok = sum(w.ok for w in mine)
    pos += nok
    good, mine = [w for w in mine if w.ok], [w for w in mine if not w.ok]
    cov = {'explanation': 'compile-fail witnesses: %d invalid definitions, each in its own module, have to be rejected by the derive (%d) or by the type checker (%d); %d documented definitions have to compile. %d of all these are the small definitions of one shape, enumerated (layouts of up to four fields, parameter kinds and names). Rules: %s' % (
        len(mine), sum(w.phase == 'macro' for w in mine), sum(w.phase == 'type' for w in mine), pos, nok + sum(w.id[0] == 'x' for w in mine), '; '.join(sorted({w.rule for w in mine}))),
        'invalid_definitions': len(mine), 'valid_definitions': pos,
        'samples': [{'witness': w.text(), 'message': r['messages'][w.id][:1]} for w in mine[seed % 5::max(1, len(mine) // 5)]][:6] + [{'witness': w.text(), 'message': None} for w in good[seed % 5::max(1, nok // 3)]][:3]}
    return {'violations': vs, 'coverage': cov, 'level': 'other', 'assumptions': CF_ASSUME, 'floor': None,
            'summary': '%d invalid definitions rejected, %d valid ones accepted' % (len(mine), pos)}


def check_places(pid, seed, thorough):
    rule = 'a valid definition compiles in every edition and wherever items may stand'
    r = run_cf.places()
    vs = []
    for w in r['witnesses']:
        v = cf_violation(w, r['messages'].get(w.id))
        if v:
            vs.append({'key': '%s/%s' % (w.id, v[0]), 'where': 'derive(%s)' % w.derive, 'rule': w.rule, 'text': v[1] + '\nwitness: ' + w.text()})
    n = len(r['witnesses'])
    cov = {'explanation': 'the type checker accepts or rejects %d valid definitions with every kind of parameter, field and variant: each of %d definitions at each of %d places in each of the editions 2018, 2021 and 2024. %s' % (
        n, len(corpus_cf.PLACED), len(corpus_cf.PLACES), rule),
        'definitions': n, 'places': [x[3] for x in corpus_cf.PLACES], 'editions': ['2018', '2021', '2024'], 'samples': [w.text() for w in r['witnesses'][seed % 7::n // 6]][:6]}
    return {'violations': vs, 'coverage': cov, 'level': 'other', 'assumptions': CF_ASSUME, 'floor': None, 'summary': '%d definitions compile' % n}


def check_lints(pid, seed, thorough):
    rule = 'the compiler says nothing about a definition with the derive that it does not say without, whatever the level of its lints'
    r = run_cf.linted(seed, thorough)
    vs, seen = [], set()
    for w in r['witnesses']:
        for code, msg in r['messages'].get(w.id, ()):
            key = '%s/%s' % (w.id, code)
            if key not in seen:
                seen.add(key)
                vs.append({'key': key, 'where': 'derive(%s)' % w.derive, 'rule': rule, 'text': 'with %s(..) of the lints in edition %s, %s: %s [%s]\nwitness: %s' % (w.level, w.edition, w.what, msg, code, w.item)})
    n = sum(w.id in r['messages'] and not any(x[0] == 'dead' for x in r['messages'][w.id]) for w in r['witnesses'])
    cov = {'explanation': 'the compiler checks %d definitions, with the derive and without, under %d lints at the levels warn and forbid; what it says about the first and not about the second is a violation. %s' % (n, len(r['lints']), rule),
           'definitions': n, 'lints': len(r['lints']), 'levels': ['warn', 'forbid'], 'editions': ['2018', '2021', '2024'], 'not_compared': list(run_cf.NOLINT), 'samples': [w.text() for w in r['witnesses'][seed % 7::len(r['witnesses']) // 6]][:6]}
    low = None if len(r['lints']) > 100 and n * 10 >= len(r['witnesses']) * 9 else 'only %d of %d definitions are checked under %d lints' % (n, len(r['witnesses']), len(r['lints']))
    return {'violations': vs, 'coverage': cov, 'level': 'other', 'assumptions': CF_ASSUME, 'floor': low, 'summary': '%d definitions without lints of their own' % n}


def check_located(pid, seed, thorough):
    rule = 'an error about a definition lies in the field or the attribute that causes it'
    r = run_cf.located(seed, thorough)
    vs, n = [], {'macro': 0, 'type': 0}
    for w in r['witnesses']:
        ms = r['messages'].get(w.id)
        if not ms or any(c in ('dead', 'left out') or 'panicked' in m or 'unparsable tokens' in m for m, c, at in ms):
            continue        # accepted, or no error of the derive: other properties
        if w.phase == 'macro':
            ms = [x for x in ms if x[1] is None]
            if not ms:
                continue
        n[w.phase] += 1
        inside = [all(any(a <= x and y <= b for a, b in w.columns()) for x, y in at) for m, c, at in ms]
        if all(inside) if w.phase == 'macro' else any(inside):
            continue
        m, c, at = ms[inside.index(False)]
        t = w.text()
        vs.append({'key': '%s/place' % w.id, 'where': 'derive(%s)' % w.derive, 'rule': rule, 'text': 'the error `%s` is located at `%s`, the cause is `%s`\nrule: %s\nwitness: %s' % (
            m, '`, `'.join(t[x - 1:y - 1] for x, y in at), '` or `'.join(w.item[a:b] for a, b in w.parts), w.rule, t)})
    cov = {'explanation': 'places of the errors of %d invalid definitions: %d reported by a derive, %d by the type checker in generated code; the cause is marked in the definition. Rules broken: %s' % (
        sum(n.values()), n['macro'], n['type'], '; '.join(sorted({w.rule for w in r['witnesses']}))), 'invalid_definitions': sum(n.values()),
        'samples': [{'witness': w.text(), 'cause': [w.item[a:b] for a, b in w.parts], 'messages': r['messages'].get(w.id)} for w in r['witnesses'][seed % 7::150]]}
    low = None if sum(n.values()) * 2 >= len(r['witnesses']) else 'only %d of %d definitions are rejected with an error' % (sum(n.values()), len(r['witnesses']))
    return {'violations': vs, 'coverage': cov, 'level': 'other', 'assumptions': CF_ASSUME, 'floor': low, 'summary': '%d errors located' % sum(n.values())}


def check_group(pid, seed, thorough):
    """C01, C02, C03: definitions that stress generics, hygiene, robustness of the derives"""
    group = {'C01': 'generic', 'C02': 'hygiene', 'C03': None}[pid]
    rule = {'C01': 'generic definitions compile, their implementations exist for all arguments the definition allows, and the product analysis of their implementations holds',
            'C02': 'definitions with colliding names, shadowed modules and tokens from macro_rules compile, and the product analysis of their implementations holds',
            'C03': 'no derive panics on any valid or invalid definition of the corpora'}[pid]
    a, b = (run_sm, run_pt)
    if pid == 'C03':
        ra, rb = a.compiled(seed, thorough), b.compiled(seed, thorough)
        rc = run_cf.run(seed, thorough)
        vs = failures(ra['witnesses'], ra['failed'], pid, sm_failure) + failures(rb['witnesses'], rb['failed'], pid, pt_failure)
        for w in rc['witnesses']:
            v = cf_violation(w, rc['messages'].get(w.id))
            if v and v[0] in ('panic', 'garbage', 'dead'):
                vs.append({'key': '%s/%s' % (w.id, v[0]), 'where': 'derive(%s)' % w.derive, 'rule': rule, 'text': v[1] + '\nwitness: ' + w.text()})
        n = len(ra['witnesses']) + len(rb['witnesses']) + len(rc['witnesses'])
        return {'violations': vs, 'level': 'other', 'assumptions': CF_ASSUME, 'floor': None, 'summary': '%d expansions without panic' % n,
                'coverage': {'explanation': 'the compiler expands %d definitions (%d invalid); a panic of a derive is reported by the compiler at the definition. %s' % (n, len(rc['witnesses']), rule),
                             'expansions': n, 'samples': [w.text()[:400] for w in rc['witnesses'][seed % 7::40]]}}
    ra, rb = a.run(seed, thorough), b.run(seed, thorough)
    vs = violations(pid, ra['todo'], ra['results'], sm_props, rule) + violations(pid, rb['todo'], rb['results'], pt_props, rule)
    vs += failures(ra['witnesses'], ra['failed'], pid, sm_failure) + failures(rb['witnesses'], rb['failed'], pid, pt_failure)
    hy = []
    if pid in ('C01', 'C02'):
        rc = run_cf.run(seed, thorough) if pid == 'C02' else run_cf.bounds(seed, thorough)
        hy = [w for w in rc['witnesses'] if pid in w.props]
        for w in hy:
            v = cf_violation(w, rc['messages'].get(w.id))
            if v:
                vs.append({'key': '%s/%s' % (w.id, v[0]), 'where': 'derive(%s)' % w.derive, 'rule': w.rule, 'text': v[1] + '\nwitness: ' + w.text()})
    t = tally(ra['todo'] + rb['todo'], ra['results'] + rb['results'], lambda w: group in (w[0] if isinstance(w, tuple) else w).groups)
    n = sum(group in w.groups for w in ra['witnesses'] + rb['witnesses']) + len(hy)
    cov = tv_cov(t, rule, [sample(w[0] if isinstance(w, tuple) else w, x) for w, x in list(zip(ra['todo'] + rb['todo'], ra['results'] + rb['results']))
                           if group in (w[0] if isinstance(w, tuple) else w).groups and 'error' not in x][:8], ra['functions'] + rb['functions'])
    return {'violations': vs, 'coverage': cov, 'level': 'translation_validation', 'assumptions': TV_ASSUME, 'floor': floor(t, t['n']),
            'summary': '%d definitions, %d implementations, %d paths decided, %d undecided' % (n, t['analysed'], t['decided'], t['undecided'])}


def check_at(pid, seed, thorough):
    rule = 'abstract execution of the public operations of the argument types, one run per combination of absent and given operands'
    r = run_at.run(seed, thorough)
    vs = []
    t = {'analysed': 0, 'decided': 0, 'undecided': 0, 'steps': 0, 'states': 0, 'why': {}, 'outcomes': {}, 'errors': [], 'n': len(r)}
    for n, text, x in r:
        if 'error' in x:
            vs.append({'key': '%s/compile' % n, 'where': text, 'rule': rule, 'text': 'the operation does not exist any more: ' + x['error']})
            continue
        t['analysed'] += x['decided'] > 0
        for k in ('decided', 'undecided', 'steps'):
            t[k] += x[k]
        for a, b in x['why'].items():
            t['why'][a] = t['why'].get(a, 0) + b
        for tags, key, tx, sites in x['results']:
            vs.append({'key': key, 'where': '%s (last calls: %s)' % (n, ', '.join(sites)), 'rule': rule, 'text': tx + '\n' + text})
    cov = tv_cov(t, rule, [{'operation': text, 'cases': x.get('cases'), 'decided': x.get('decided')} for n, text, x in r][:8], len(r))
    return {'violations': vs, 'coverage': cov, 'level': 'translation_validation', 'assumptions': TV_ASSUME, 'floor': floor(t, t['n']),
            'summary': '%d operations, %d paths decided, %d undecided' % (t['analysed'], t['decided'], t['undecided'])}


DUMP_RULE = 'with the request a compile error shows the code; put in the place of the derive, it expands to what the derive expands to without the request'


def check_dump(pid, seed, thorough):
    defs, got = run_dp.run(seed, thorough)
    text = {(w.id, d): t for d, w, _, t in defs}
    vs = [{'key': '%s/%s/%s' % (i, d, what), 'where': 'derive(%s)' % d, 'rule': DUMP_RULE, 'text': tx + '\nwitness: ' + text[(i, d)]}
          for i, d, what, tx in got if what not in ('ok', 'skipped')]
    n = {d: sum(x[1] == d and x[2] == 'ok' for x in got) for d in ('StructMeta', 'Parse', 'ToTokens')}
    skipped = [x for x in got if x[2] == 'skipped']
    cov = {'explanation': 'macro expansions compared as text, after the compiler has parsed and expanded both: %s definitions of %s, with the request in several spellings. %s' % (
        tuple(n.values()), tuple(n), DUMP_RULE), 'definitions': len(got), 'equal': n, 'not_compared': [x[:4] for x in skipped[:10]],
        'samples': [{'witness': text[(x[0], x[1])][:400], 'shown': x[3]} for x in got[seed % 7::97]][:8]}
    few = sum(n.values()) + len(vs) < len(got) * 0.5
    return {'violations': vs, 'coverage': cov, 'level': 'other', 'assumptions': CF_ASSUME + ['Two expansions that the compiler prints alike differ at most in the hygiene of their identifiers.'],
            'floor': 'only %d of %d definitions could be compared' % (sum(n.values()), len(got)) if few else None,
            'summary': '%d expansions equal to the code shown' % sum(n.values())}


def check_fx(pid, seed, thorough):
    r = run_fx.run()
    vs = [{'key': '%s/%s/%s' % (c, fn, why), 'where': '%s in %s' % (fn, loc), 'rule': 'effect analysis',
           'text': '%s uses %s (%s)' % (fn, what.split(' :: ')[0], why)} for c, fn, loc, why, what in r['violations']]
    n = r['functions']
    fl = None
    if n['structmeta_derive'] < 40 or r['calls']['structmeta_derive'] < 500 or n['fxw'] < 30:
        fl = 'the dump of resolved calls is too small: %s %s' % (n, r['calls'])
    cov = {'explanation': 'effect analysis of the resolved MIR calls of every function of the derive crate (%d functions, %d calls), of the helper crate (%d functions, %d calls) and of %d generated functions (%d calls): '
                          'no file system, environment, clock, thread, process, stream, random, address, shared mutable state or source location access, and no observation of the order of a hashed collection' % (
                              n['structmeta_derive'], r['calls']['structmeta_derive'], n['structmeta'], r['calls']['structmeta'], n['fxw'], r['calls']['fxw']),
           'functions': n, 'calls': r['calls'], 'distinct_callees': len(r['callees']), 'denied_effects': sorted({w for _, w in run_fx.DENY}),
           'samples': [{'callee': x} for x in r['callees'][seed % 11::max(1, len(r['callees']) // 8)]][:8]}
    return {'violations': vs, 'coverage': cov, 'level': 'other', 'floor': fl,
            'assumptions': ['functions of syn, quote, proc_macro2, core and alloc outside the deny list have no such effect themselves', 'the `dump` option is meant to abort the expansion and is not covered'],
            'summary': '%d functions, %d resolved calls' % (sum(n.values()), sum(r['calls'].values()))}


CHECKS = {'A01': check_at, 'C04': check_fx}
for _p in SM_RULES:
    CHECKS[_p] = check_sm
for _p in PT_RULES:
    CHECKS[_p] = check_pt
for _p in CF_RULES:
    CHECKS[_p] = check_cf
for _p in ROBUST:
    CHECKS[_p] = check_robust
for _p in ('C01', 'C02', 'C03'):
    CHECKS[_p] = check_group
CHECKS['D01'] = check_dump
CHECKS['C07'] = check_places
CHECKS['C08'] = check_located
CHECKS['C09'] = check_lints

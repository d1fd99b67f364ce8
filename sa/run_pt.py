"""Analysis of all derive(Parse) / derive(ToTokens) witnesses."""
import build, corpus_pt, engine, spec_parse, pool


def compiled(seed, thorough):
    ws = corpus_pt.build(seed, thorough)
    path, failed = build.dump_crate('pt', [(w.id, w.text()) for w in ws])
    return {'witnesses': ws, 'failed': failed}


def analyse_all(ws, path, failed):
    P = engine.Prog(path)
    todo = [(w, k) for w in ws if w.id not in failed for k in ('Parse', 'ToTokens') if k in w.derive]

    def one(i):
        w, k = todo[i]
        base = 'pt::%s::%s' % (w.id, w.ty)
        if k == 'Parse':
            body = spec_parse.find_body(P, '<' + base, 'syn::parse::Parse>::parse')
            if body is None:
                return {'error': 'no `Parse` implementation found'}
            cs = [spec_parse.analyse(P, w.item, body)]
        else:
            body = spec_parse.find_body(P, '<' + base, 'quote::to_tokens::ToTokens>::to_tokens')
            if body is None:
                return {'error': 'no `ToTokens` implementation found'}
            cs = spec_parse.analyse_tt(P, w.item, body, base)
        out = {'steps': 0, 'decided': 0, 'undecided': 0, 'why': {}, 'outcomes': {}, 'results': [], 'fn': body['path'], 'states': 0, 'vacuous': not w.item}
        res = {}
        for c, E in cs:
            out['steps'] += E.steps
            out['decided'] += c.decided
            out['undecided'] += c.undecided
            for a, b in c.und_why.items():
                out['why'][a] = out['why'].get(a, 0) + b
            for a, b in c.outcomes.items():
                out['outcomes'][a] = out['outcomes'].get(a, 0) + b
            for tags, key, text, sites in c.results:
                res.setdefault((tags, key), (text, sites))
        out['results'] = [(t, k2, x, s) for (t, k2), (x, s) in res.items()]
        return out
    return {'results': pool.pmap(one, len(todo)), 'functions': len(P.bodies)}


def run(seed, thorough):
    ws = corpus_pt.build(seed, thorough)
    path, failed = build.dump_crate('pt', [(w.id, w.text()) for w in ws])
    key = build.digest(path, pool.code_digest(), *[w.text() for w in ws])
    v = pool.cached('pt', key, lambda: analyse_all(ws, path, failed))
    todo = [(w, k) for w in ws if w.id not in failed for k in ('Parse', 'ToTokens') if k in w.derive]
    return {'witnesses': ws, 'failed': failed, 'todo': todo, 'results': v['results'], 'functions': v['functions']}

"""Product analysis of all StructMeta witnesses."""
import build, corpus_sm, engine, spec_sm, pool


def compiled(seed, thorough):
    ws = corpus_sm.build(seed, thorough)
    path, failed = build.dump_crate('sm', [(w.id, w.text()) for w in ws])
    return {'witnesses': ws, 'failed': failed}


def analyse_all(ws, path, failed):
    P = engine.Prog(path)
    todo = [w for w in ws if w.id not in failed]

    def one(i):
        w = todo[i]
        wit = w.witness('sm')
        body = spec_sm.find_body(P, wit)
        if body is None:
            return {'error': 'no `Parse` implementation found'}
        c, E = spec_sm.analyse(P, wit, body)
        for kind, msg in c.notes:
            if kind == 'havoc' and 'msg' in w.groups:
                c.on_undecided(E, None, msg)
        res = {}
        for tags, key, text, sites in c.results:
            res.setdefault((tags, key), (text, sites))
        return {'steps': E.steps, 'forks': E.nforks, 'decided': c.decided, 'undecided': c.undecided, 'outcomes': c.outcomes, 'why': c.und_why,
                'results': [(t, k, x, s) for (t, k), (x, s) in res.items()], 'n_results': len(c.results),
                'states': sum(len(x) for x in c.table.values()), 'notes': [list(k) for k in c.notes],
                'fn': body['path'], 'unmodelled': E.models.unmodelled}
    rs = pool.pmap(one, len(todo))
    # longest first would be nicer for the pool; the corpus is small enough
    return {'results': rs, 'functions': len(P.bodies)}


def run(seed, thorough):
    ws = corpus_sm.build(seed, thorough)
    path, failed = build.dump_crate('sm', [(w.id, w.text()) for w in ws])
    key = build.digest(path, pool.code_digest(), *[w.text() for w in ws])
    v = pool.cached('sm', key, lambda: analyse_all(ws, path, failed))
    todo = [w for w in ws if w.id not in failed]
    return {'witnesses': ws, 'failed': failed, 'todo': todo, 'results': v['results'], 'functions': v['functions']}

"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current tree."""
import json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import registry

VERIF = build.VERIF


def known_findings(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    d = json.load(open(p)) if os.path.exists(p) else {'findings': []}
    return {f['key']: f for f in d['findings'] if f['property'] == pid}


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for i, a in enumerate(sys.argv):
        if a == '--tier':
            tier = sys.argv[i + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    try:
        rep = registry.CHECKS[pid](pid, seed, tier == 'thorough')
    except build.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    # rep: dict(violations=[{key, where, rule, text}], coverage={...}, level=..., assumptions=[...], floor=msg or None)
    known = known_findings(pid)
    new, seen = [], {}
    for v in rep['violations']:
        if v['key'] in known:
            seen[v['key']] = v
        else:
            new.append(v)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': rep['level'], 'coverage': rep['coverage'],
          'assumptions': rep.get('assumptions', []), 'violations': len(new), 'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    for k, v in seen.items():
        print('KNOWN-FINDING: property=%s %s (%s)' % (pid, k, known[k].get('what', '')))
    if new:
        out = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(out, 'w') as f:
            for v in new[:40]:
                f.write('property %s: %s\nwhere:   %s\nrule:    %s\n%s\n\n' % (pid, v['key'], v['where'], v['rule'], v['text']))
        for v in new[:3]:
            print('%s\n  at %s\n  %s' % (v['key'], v['where'], v['text'][:600]))
        print('VIOLATION property=%s replay=%s' % (pid, out))
        return 1
    if rep.get('floor'):
        print('NO ANSWER: ' + rep['floor'])
        return 2
    print('%s: held (%s) in %.1f s' % (pid, rep.get('summary', ''), time.time() - t0))
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)

#!/usr/bin/env python3
"""check.py <property> : decide one property from /repo's current source; see DESIGN.md."""
import sys, os, json, time, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine')
sys.dont_write_bytecode = True
import catalog, wit, rules

KNOWN = HERE + '/known_findings.txt'


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'KNOWN:\s*property=(\S+)\s+key=(\S+)\s+(.*)', l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    entry = catalog.BY_ID[pid]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    viols = []            # dict(key, text, where)
    cov = dict(units=[], explanation='')
    n_ob = n_req = n_dis = 0
    samples, confs = [], set()
    for tu in entry.get('witness', []):
        src = HERE + '/witness/' + tu
        try:
            r = wit.analyse(src, entry.get('flags', ()), thorough=(tier == 'thorough'))
        except wit.CompileError as e:
            print('ANALYSIS-ERROR property=%s unit=%s: the witness unit does not compile against the current tree\n%s' % (pid, tu, e))
            return 2
        vs = wit.violations(r)
        bad = {v[0] for v in vs}
        n_ob += len(r['obs'])
        n_dis += sum(1 for o in r['obs'] if o not in bad)
        n_req += len(r['reqs'])
        confs |= set(r['configs'])
        cov['units'].append(dict(unit='witness/' + tu, obligations=len(r['obs']), requirements=len(r['reqs']), configurations=r['configs'],
                                 rules={o: wit.anchor(r['anchors'], o) for o in r['obs']}))
        for ob, line, label, kind in vs:
            a = wit.anchor(r['anchors'], ob)
            viols.append(dict(key='%s:%s%s' % (tu, ob, ':' + label if label and kind.startswith('requirement') else ''),
                              where=a.split(' -- ')[0], rule=a.split(' -- ')[-1], text='%s (%s line %s %s)' % (kind, tu, line, label)))
    for name, args in entry.get('rules', []):
        try:
            r = getattr(rules, name)(**args)
        except rules.AnalysisError as e:
            print('ANALYSIS-ERROR property=%s rule=%s: %s' % (pid, name, e))
            return 2
        n_ob += r['obligations']
        n_dis += r['obligations'] - min(r['obligations'], len({v['key'] for v in r['violations']}))
        cov['units'].append(dict(rule=name, **{k: v for k, v in r.items() if k != 'violations'}))
        viols.extend(r['violations'])
    kf = dict(known(pid))
    new = []
    seen_known = set()
    for v in viols:
        if v['key'] in kf:
            seen_known.add(v['key'])
        else:
            new.append(v)
    for k in sorted(seen_known):
        print('KNOWN-FINDING: property=%s %s' % (pid, kf[k]))
    cov.update(obligations=n_ob, discharged=n_dis, requirements=n_req, known_findings=len(seen_known),
               checker_cmd='python3 check.py ' + pid,
               trusted_base=['clang 18 / gcc 13 optimiser transformations are semantics preserving' if entry.get('witness') else 'clang 18 front end (AST)',
                             'libstdc++ headers', 'environment models in witness/' if entry.get('witness') else 'rule implementation in engine/rules.py'],
               explanation=entry['how'])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=entry['level'], coverage=cov,
              assumptions=entry.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(HERE + '/evidence', exist_ok=True)
    if new:
        rp = HERE + '/evidence/%s.violation.json' % pid
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, violations=new, rerun='cd /verif && python3 check.py ' + pid), f, indent=1)
    with open(HERE + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    if new:
        for v in new[:20]:
            print('  %s\n    rule: %s\n    %s' % (v['where'], v['rule'], v['text']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d requirements=%d (%.1fs)' % (pid, n_ob, n_req, time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())

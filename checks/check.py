#!/usr/bin/env python3
"""Decides one property:  check.py Cnn [--thorough] [--only GROUP]

Builds the library from /repo's working tree, drives it through this property's scenario
families, and lets TLC decide whether every recorded execution is a behaviour of
spec/Decoder.tla.  Exit 0: all of them are.  Exit 1 with a VIOLATION line: one is not."""
import argparse, importlib, json, os, random, re, shutil, sys, tempfile, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import vb, drv, tla

VERIF = vb.VERIF
KNOWN = os.path.join(VERIF, 'known-findings.txt')

# library builds a property's scenarios are run on: (kind, every nth group)
KINDS = {
    'C04': [('asan', 1)], 'C05': [('asan', 1)], 'C17': [('ubsan', 1), ('msan', 1)], 'C23': [('asm', 1)],
    'C24': [('asan', 1)], 'C20': [('ndebug', 1)],
}
L1_MAX = 12000       # C23: sum of coefficient magnitudes up to which no transform can leave its range


class Result:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.violations = []          # (key, text, replay object)
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assume = []
        self.level = 'model_checking'

    def violation(self, key, text, replay):
        self.violations.append((key, text, replay))


def known(pid):
    out = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'known: property=(\S+) match=(\S+) (.*)', ln)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def b2j(g):
    return dict(g, pks=[dict(p, pieces=[[b.hex(), e] for b, e in p['pieces']]) for p in g['pks']])


def j2b(g):
    return dict(g, pks=[dict(p, pieces=[(bytes.fromhex(b), e) for b, e in p['pieces']]) for p in g['pks']])


def finish(res):
    kn = known(res.pid)
    rep = []
    seen = {}
    for key, text, replay in res.violations:
        hit = [k for k in kn if re.search(k[0], key)]
        if hit:
            seen[hit[0]] = seen.get(hit[0], 0) + 1
        else:
            rep.append((key, text, replay))
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (res.pid, k[1]))
    d = os.path.join(vb.BUILD, 'replay')
    os.makedirs(d, exist_ok=True)
    for n, (key, text, replay) in enumerate(rep[:5]):
        f = os.path.join(d, '%s-%d.json' % (res.pid, n))
        with open(f, 'w') as fh:
            json.dump(dict(property=res.pid, key=key, text=text, seed=res.seed, tier=res.tier, replay=replay), fh)
        print('%s: %s' % (key, text))
        print('VIOLATION property=%s replay=%s' % (res.pid, f))
    ev = dict(property=res.pid, tier=res.tier, seed=res.seed, level=res.level, coverage=res.cov, assumptions=res.assume,
              wall_s=round(time.time() - res.t0, 2), violations=len(rep))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', res.pid + '.json')
    with open(p + '.tmp', 'w') as fh:
        json.dump(ev, fh, indent=1)
    os.replace(p + '.tmp', p)
    return 1 if rep else 0


def summarize(groups, events, cov):
    """what the scenarios actually did: counted on the recorded events"""
    ops, codes, pics, settings = {}, {}, 0, set()
    for g in groups:
        for run, ev in zip(g['runs'], events.get(g['id'], [])):
            settings.add(tuple(sorted((k, str(v)) for k, v in run.items() if k not in ('acts', 'from', 'to'))))
            for e in ev:
                ops[e['op']] = ops.get(e['op'], 0) + 1
                if 'r' in e:
                    k = '%s=%d' % (e['op'], e['r']); codes[k] = codes.get(k, 0) + 1
                pics += 'pic' in e
    for k, v in ops.items():
        cov.setdefault('events', {}); cov['events'][k] = cov['events'].get(k, 0) + v
    for k, v in codes.items():
        cov.setdefault('results', {}); cov['results'][k] = cov['results'].get(k, 0) + v
    cov['pictures'] = cov.get('pictures', 0) + pics
    cov['distinct_settings'] = max(cov.get('distinct_settings', 0), len(settings))


def family(res, groups, kind, work, timeout=60, tag=''):
    """record the groups on one build and validate; crashes and hangs are violations by themselves"""
    pid = res.pid
    if any(not any(re.search(k[0], v[0]) for k in known(pid)) for v in res.violations):
        return {}                   # what an earlier stage found is enough
    binary = vb.vh(kind)
    events = drv.record(binary, groups, work, timeout=timeout)
    good = []
    hung = any(e and (e[-1]['op'] == 'hang' or e[-1].get('st') == 96) for g in groups for e in events[g['id']])
    for g in groups:
        ev = events[g['id']]
        if hung and not all(ev):    # the recorder stops after a few runs that hang
            ev = [e for e in ev if e]
            if not ev or ev[-1][-1]['op'] == 'end':
                continue
        bad = [(k, e[-1] if e else dict(op='nothing recorded')) for k, e in enumerate(ev) if not e or e[-1]['op'] != 'end']
        for k, e in bad[:1]:
            what = {'hang': 'a call never returned', 'crash': 'the process died'}.get(e['op'], e['op'])
            res.violation('%s:%s:%d:%s' % (kind, g['id'], k, e['op']),
                          '%s in run %s: %s' % (what, json.dumps(g['runs'][k]), str(e.get('msg', ''))[:600]),
                          dict(kind=kind, run=k, group=b2j(g)))
        if not bad:
            good.append(g)
    if kind == 'asm':
        # streams whose residuals may leave the range the standard guarantees are outside the property
        lim = 0
        for g in good:
            if any(max(e[-1].get('l1') or [0]) > L1_MAX for e in events[g['id']]):
                g['enf'] = [x for x in g['enf'] if x != 'pixels'] + ['none']
                lim += 1
        res.cov['groups_with_residuals_out_of_range'] = res.cov.get('groups_with_residuals_out_of_range', 0) + lim
    acc, rej, st = tla.validate(good, events, work) if good else (set(), [], dict(states=0, distinct=0))
    byid = {g['id']: g for g in groups}
    for x in rej:
        g = byid[x.gid]
        ev = {k: v for k, v in (x.ev or {}).items() if k in ('op', 'r', 'k', 'w', 'n', 'f', 'm', 'delay', 'al', 'fr', 'fu', 'rl')}
        res.violation('%s:%s:%d:%s' % (kind, x.gid, x.run, '+'.join(sorted(x.tags))),
                      'run %d, event %d %s does not conform to the specification in: %s (specified: %s); settings %s'
                      % (x.run, x.idx, json.dumps(ev), ', '.join(sorted(x.tags)), x.why, json.dumps(g['runs'][x.run])),
                      dict(kind=kind, run=x.run, event=x.idx, tags=sorted(x.tags), group=b2j(g)))
    c = res.cov
    c['states'] += st['distinct']
    c['transitions'] += max(0, st['states'] - len(good))
    c['traces_validated_against_impl'] += sum(len(g['runs']) for g in good)
    c['groups_accepted'] = c.get('groups_accepted', 0) + len(acc)
    c.setdefault('builds', [])
    c['builds'].append(kind)
    summarize(groups, events, c)
    for g in groups[:1]:
        c['samples'].append(dict(group=g['id'], packets=len(g['pks']), bytes=sum(len(b) for p in g['pks'] for b, _ in p['pieces']),
                                 runs=[{k: v for k, v in x.items()} for x in g['runs'][:3]],
                                 first_events=[{k: v for k, v in e.items() if k in ('op', 'r', 'k', 'n', 'f', 'delay')}
                                               for e in events[g['id']][0][:12]]))
    return events


def standard(res, r, work):
    from gen import fam, reg
    groups = getattr(fam, res.pid)(r, res.tier)
    regs = reg.reg(res.pid)
    for kind, nth in KINDS.get(res.pid, [('plain', 1)]):
        family(res, regs + groups[::nth], kind, work)
    res.cov['rule'] = 'scenario groups generated from VERIF_SEED by gen/fam.py (%s) and gen/reg.py; every recorded call, callback and picture of every run is one transition of the specification' % res.pid


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--thorough', action='store_true')
    a = ap.parse_args()
    tier = 'thorough' if a.thorough else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    res = Result(a.pid, tier, seed)
    r = random.Random(seed * 1000 + int(a.pid[1:]))
    os.makedirs(vb.BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='work-%s-' % a.pid, dir=vb.BUILD)
    try:
        special = os.path.join(VERIF, 'checks', a.pid.lower() + '.py')
        if os.path.exists(special):
            importlib.import_module('checks.' + a.pid.lower()).check(res, r, work, standard, family)
        else:
            standard(res, r, work)
        code = finish(res)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


if __name__ == '__main__':
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)

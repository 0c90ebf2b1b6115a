#!/usr/bin/env python3
"""Plants a bug: mkseed.py SPEC.py [name...]

SPEC.py defines SEEDS = [dict(id, property, file, old, new [, more=[(file, old, new)]], needs, breaks, fams=[...])].
For each: a scratch copy of /repo is patched and built, scenarios are searched for one whose observable behaviour
changes, and that scenario is written out as a stand-alone demonstration (recorder, job, expected observations)."""
import json, os, random, shutil, subprocess, sys, runpy
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
S = '/tmp/s'
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

KEEP = ('op', 'r', 'k', 'left', 'touched', 'f', 'm', 'delay', 'leak', 'n', 'same', 'ctx')
PK = ('p', 'dg', 'm', 'cll', 'mdcv', 't35', 'fh', 'sh')


def project(ev, exact):
    out = []
    for e in ev:
        d = {k: e[k] for k in KEEP if k in e}
        if 'pic' in e:
            d['pic'] = {k: e['pic'][k] for k in PK if k in e['pic']}
        if e['op'] == 'q' and 'sh' in e:
            d['sh'] = e['sh']
        if exact:
            for k in ('al', 'rl', 'fr', 'fu', 'gb', 'wt'):
                if k in e:
                    d[k] = e[k]
        if e['op'] == 'end':
            d['live'] = e.get('live')
        out.append(d)
    return out


def build(dst):
    os.environ['VERIF_REPO'] = dst; os.environ['VERIF_BUILD'] = dst + '.b'


SCHED = '''#!/bin/bash
# plays the packets in blob with the calls in job under a reproducible thread schedule (sched.c), and compares what is
# observed with the expected observations
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
export CC=clang
meson setup "$T/b" . -Ddefault_library=static -Denable_tools=false -Denable_tests=false -Db_lundef=false -Dwerror=false --buildtype=plain \\
 "-Dc_args=-O1 -g -fsanitize=thread -mllvm -tsan-instrument-memory-accesses=0 -mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-memintrinsics=0" \\
 -Denable_asm=false >"$T/log" 2>&1 && ninja -C "$T/b" >>"$T/log" 2>&1 || { tail -5 "$T/log"; exit 2; }
W=
for f in create join mutex_lock mutex_unlock mutex_init mutex_destroy cond_init cond_destroy cond_wait cond_signal cond_broadcast; do W="$W -Wl,--wrap=pthread_$f"; done
clang -O1 -g %s -w -DVH_SCHED -DVH_WRAP_MALLOC -Wl,--wrap=malloc,--wrap=realloc,--wrap=posix_memalign -Iinclude -I"$T/b/include" -I"$T/b/include/dav1d" "$D/vh.c" "$D/sched.c" -o "$T/vh" "$T/b/src/libdav1d.a" $W -lpthread -lm -ldl || exit 2
for i in $(seq %d); do
    rm -f "$T/out"
    VH_TIMEOUT=60 "$T/vh" "$D/job" "$D/blob" "$T/out" || exit 2
    python3 "$D/compare.py" "$D/expect.json" "$T/out" || exit 1
done
exit 0
'''


def main():
    spec = runpy.run_path(sys.argv[1])['SEEDS']
    want = sys.argv[2:]
    from gen import fam, reg
    from lib import vb, drv
    def binary(repo, kind):
        vb.REPO = repo; vb.BUILD = repo + '.b' if repo != '/repo' else '/tmp/s/base.b'
        return vb.vh(kind)
    sc = S + '/tree'
    if not os.path.exists(sc):
        subprocess.check_call(['git', 'clone', '-q', '/repo', sc])
    for s in spec:
        if want and s['id'] not in want:
            continue
        subprocess.check_call(['git', '-C', sc, 'fetch', '-q', 'origin']); subprocess.check_call(['git', '-C', sc, 'reset', '-q', '--hard', 'origin/HEAD'])
        ok = True
        for f, old, new in [(s['file'], s['old'], s['new'])] + s.get('more', []):
            t = open(os.path.join(sc, f)).read()
            if t.count(old) != 1:
                print(s['id'], 'pattern found %d times' % t.count(old), f); ok = False; break
            open(os.path.join(sc, f), 'w').write(t.replace(old, new))
        if not ok:
            continue
        diff = subprocess.check_output(['git', '-C', sc, 'diff'], text=True)
        kind = s.get('kind', 'plain')
        try:
            bb, mb = binary('/repo', kind), binary(sc, kind)
        except SystemExit:
            print(s['id'], 'does not build'); continue
        found = None
        for sd in range(s.get('tries', 4)):
            G = []
            for fm in s.get('fams', [s['property']]):
                r = random.Random(777 + sd * 31)
                G += getattr(fam, fm)(r, 'quick')
            G += reg.reg(s['property'])
            if kind == 'sched':
                from checks import schedlib
                G = schedlib.scheduled(random.Random(sd), G[:s.get('groups', 30)], 8, 48)
            if s.get('runs'):
                for g in G:
                    g['runs'] = s['runs']
            eb, em = drv.record(bb, G, S + '/wb', timeout=20), drv.record(mb, G, S + '/wm', timeout=20)
            hits = 0; tot = 0
            for g in G:
                for k, run in enumerate(g['runs']):
                    tot += 1
                    ex = int(run.get('nt', 1)) <= 1
                    a, b = project(eb[g['id']][k], ex), project(em[g['id']][k], ex)
                    if a and a[-1]['op'] == 'end' and a != b:
                        hits += 1
                        key = (not ex, len(g['pks']))
                        if found is None or key < found[0]:
                            found = (key, g, k, a, b)
            if found:
                break
        if not found:
            print(s['id'], 'NO DIFFERENCE FOUND'); continue
        _, g, k, a, b = found
        g1 = dict(id='demo', pks=g['pks'], runs=[g['runs'][k]])
        d = os.path.join(V, 'seeded', s['id']); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        drv.write_job([g1], d + '/job', d + '/blob')
        ex = int(g1['runs'][0].get('nt', 1)) <= 1
        json.dump(dict(exact=ex, events=a), open(d + '/expect.json', 'w'))
        open(d + '/patch.diff', 'w').write(diff)
        shutil.copy(os.path.join(V, 'harness', 'vh.c'), d + '/vh.c')
        if kind == 'sched':
            shutil.copy(os.path.join(V, 'harness', 'sched.c'), d + '/sched.c')
        src = open(__file__).read()
        i = src.index('KEEP = '); j = src.index('def build(')
        open(d + '/compare.py', 'w').write('import json, sys\n' + src[i:j] + '''
x = json.load(open(sys.argv[1]))
ev = []
for ln in open(sys.argv[2], errors='replace'):
    if ln.strip():
        try:
            ev.append(json.loads(ln))
        except ValueError:
            ev.append(dict(op='garbled'))
got = json.loads(json.dumps(project(ev, x['exact'])))
if got != x['events']:
    for n, (a, b) in enumerate(zip(x['events'] + [None] * 99, got)):
        if a != b:
            print('event', n, 'expected', str(a)[:400], 'got', str(b)[:400])
            break
    else:
        print('expected', len(x['events']), 'events, got', len(got), str(ev[-1:])[:600])
    sys.exit(1)
''')
        open(d + '/demo.sh', 'w').write((SCHED if kind == 'sched' else '''#!/bin/bash
# plays the packets in blob with the calls in job, and compares what is observed with the expected observations
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -r "$T"' EXIT
gcc -O1 -g %s -Iinclude -I_build/include -I_build/include/dav1d "$D/vh.c" -o "$T/vh" -L_build/src -ldav1d -Wl,-rpath,"$PWD/_build/src" -lpthread -lm -ldl || exit 2
for i in $(seq %d); do
    rm -f "$T/out"
    VH_TIMEOUT=30 "$T/vh" "$D/job" "$D/blob" "$T/out" || exit 2
    python3 "$D/compare.py" "$D/expect.json" "$T/out" || exit 1
done
exit 0
''') % (s.get('cflags', ''), s.get('loops', 1 if ex or kind == 'sched' else 20)))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
        # what differs first
        first = next(((x, y) for x, y in zip(a + [None] * 50, b + [None]) if x != y), None)
        print(s['id'], 'hits %d/%d' % (hits, tot), g['id'], g['runs'][k], 'differs:', str({q: (first[0].get(q), first[1].get(q) if first[1] else None) for q in (first[0] or {}) if not first[1] or first[0].get(q) != first[1].get(q)})[:250] if first and first[0] else first)


if __name__ == '__main__':
    main()

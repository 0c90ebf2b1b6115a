"""Runs scenario groups through the trace recorder.

group = dict(id=str, pks=[packet...], runs=[dict(key=value..., acts=str)...], full=bool)
"""
import json, os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gen.av1 import packet_bytes, packet_segs


def write_job(groups, job, blob):
    off = 0
    with open(job, 'w') as j, open(blob, 'wb') as b:
        for g in groups:
            for i, p in enumerate(g['pks']):
                d = packet_bytes(p)
                j.write('P %d %d %d %d %d %d %d %d\n' % (i, off, len(d), p.get('ts', -1), p.get('dur', 0),
                                                         p.get('poff', -1), p.get('psz', -1), p.get('ud', -1)))
                b.write(d); off += len(d)
            for k, r in enumerate(g['runs']):
                j.write('R %s/%d %s\n' % (g['id'], k, ' '.join('%s=%s' % (a, v) for a, v in r.items())))
    return off


def works(binary, work):
    """whether the sanitizer runtime can run here at all"""
    os.makedirs(work, exist_ok=True)
    f = [os.path.join(work, 'empty.' + x) for x in 'jbo']
    for x in f[:2]:
        open(x, 'w').close()
    return subprocess.run([binary] + f, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


def record(binary, groups, work, jobs=8, timeout=60, env=None):
    """returns {group id: [events of run 0, events of run 1, ...]}"""
    os.makedirs(work, exist_ok=True)
    n = max(1, min(jobs, len(groups)))
    parts = [groups[i::n] for i in range(n)]

    def one(i):
        j, b, o = (os.path.join(work, '%s%d' % (x, i)) for x in ('job', 'blob', 'out'))
        write_job(parts[i], j, b)
        e = dict(os.environ, VH_TIMEOUT=str(timeout), ASAN_OPTIONS='detect_leaks=1:abort_on_error=0:exitcode=99:allocator_may_return_null=1',
                 TSAN_OPTIONS='exitcode=97 halt_on_error=1',
                 UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98')
        e.update(env or {})
        r = subprocess.run([binary, j, b, o], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError('recorder failed: %d %s' % (r.returncode, r.stdout[-500:]))
        res = {}
        with open(o, errors='replace') as f:
            for ln in f:
                ln = ln.strip()
                if not ln:
                    continue
                try:
                    e = json.loads(ln)
                except ValueError:
                    # a line cut short by a crash or a kill; the crash event follows
                    continue
                gid, k = e.pop('run').rsplit('/', 1)
                res.setdefault(gid, {}).setdefault(int(k), []).append(e)
        for x in (j, b, o):
            os.unlink(x)
        return res
    out = {}
    with ThreadPoolExecutor(n) as ex:
        for r in ex.map(one, range(n)):
            out.update(r)
    return {g['id']: [out.get(g['id'], {}).get(k, []) for k in range(len(g['runs']))] for g in groups}

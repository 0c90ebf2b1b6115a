"""Runs TLC, and checks recorded traces against spec/Trace.tla."""
import json, os, re, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gen.av1 import packet_segs
from lib import vb

SPEC = os.path.join(vb.VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
I = lambda r, k, d: int(str(r.get(k, d)), 0)


def tlc(module, cfg, work, env=None, workers=8, args=(), timeout=800, mem='6g'):
    """returns TLC's output"""
    os.makedirs(work, exist_ok=True)
    meta = tempfile.mkdtemp(dir=work)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + mem, '-Xss512m', '-Djava.io.tmpdir=' + meta, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers), '-metadir', meta,
           '-noGenerateSpecTE', '-config', cfg] + list(args) + [module]
    r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    return r.stdout


def delay(run):
    nt, fd = I(run, 'nt', 1), I(run, 'fd', 1)
    if nt == 0:
        nt = I(run, 'aff', 1)
    if not (0 <= nt <= 256 and 0 <= fd <= 256):
        return 1
    if fd:
        return min(fd, nt)
    k = 0
    while k * k < nt:
        k += 1
    return 8 if nt >= 50 else k


def cfg_of(run):
    return dict(nfc=max(1, delay(run)), grain=I(run, 'grain', 1), op=I(run, 'op', 0), all=I(run, 'all', 1), limit=I(run, 'limit', 0),
                strict=I(run, 'strict', 0), invis=I(run, 'invis', 0), ilf=I(run, 'ilf', 7), dft=I(run, 'dft', 0),
                custom=I(run, 'alloc', 1), afail=I(run, 'afail', -1), afailn=I(run, 'afailn', 1))


def set_of(run):
    if set(run.get('odd', '')) & set('mnk'):
        run = dict(run, nt=1, fd=0)          # the recorder starts over from the defaults
    return dict(nt=I(run, 'nt', 1), fd=I(run, 'fd', 1), op=I(run, 'op', 0), dft=I(run, 'dft', 0), odd=run.get('odd', ''), loose=I(run, 'loose', 0))


def export(group, events, full=False):
    pks = [dict(segs=packet_segs(p, full), ts=p.get('ts', -1), dur=p.get('dur', 0), poff=p.get('poff', -1), psz=p.get('psz', -1),
                ud=p.get('ud', -1)) for p in group['pks']]
    runs = []
    for run, ev in zip(group['runs'], events):
        for e in ev:
            e.setdefault('leak', 0)
            e.setdefault('own', 0)
        runs.append(dict(cfg=cfg_of(run), set=set_of(run), ev=ev))
    return dict(id=group['id'], enf=sorted(group.get('enf', [])), pks=pks, runs=runs)


class Rejection:
    def __init__(self, gid, run, idx, tags, why, ev=None):
        self.gid, self.run, self.idx, self.tags, self.why, self.ev = gid, run, idx, set(tags), why, ev

    def __repr__(self):
        return 'group %s run %d event %d: %s (model: %s)' % (self.gid, self.run, self.idx, ','.join(sorted(self.tags)), self.why)


RJ = re.compile(r'<<\s*"REJECT",\s*"([^"]*)",\s*(\d+),\s*(\d+),\s*\{([^}]*)\},\s*<<([^>]*)>>\s*>>', re.S)
AC = re.compile(r'<<\s*"ACCEPT",\s*"([^"]*)"\s*>>')


def validate(groups, events, work, workers=8, timeout=800, mem='12g'):
    """groups: scenario groups; events: {id: [events per run]} without crashes and hangs.
    returns (accepted ids, [Rejection], stats)"""
    rej, acc = [], set()
    todo = [(g, False) for g in groups]
    states = distinct = 0
    while todo:
        os.makedirs(work, exist_ok=True)
        tr = os.path.join(work, 'trace.ndjson')
        with open(tr, 'w') as f:
            for g, full in todo:
                json.dump(export(g, events[g['id']], full), f, separators=(',', ':'))
                f.write('\n')
        o = tlc('Trace.tla', 'Trace.cfg', work, env=dict(TRACE=tr), workers=workers, timeout=timeout, mem=mem)
        a = set(AC.findall(o))
        full_ids = set()
        if 'NEEDFULL' in o:
            hs = set(re.findall(r'NEEDFULL",\s*"([0-9a-f]*)"', o))
            for g, full in todo:
                if not full and any(s['h'] in hs for p in g['pks'] for s in packet_segs(p)):
                    full_ids.add(g['id'])
        best = {}
        for m in RJ.finditer(o):
            gid, run, idx = m.group(1), int(m.group(2)), int(m.group(3))
            tags = re.findall(r'"([^"]*)"', m.group(4))
            if gid not in best or (run, idx) > best[gid][:2]:
                best[gid] = (run, idx, tags, m.group(5))
        m = re.findall(r'(\d+) states generated, (\d+) distinct', o)
        if m:
            states += int(m[-1][0]); distinct += int(m[-1][1])
        nxt = []
        for g, full in todo:
            gid = g['id']
            if gid in full_ids:
                nxt.append((g, True))
            elif gid in a:
                acc.add(gid)
            elif gid in best:
                run, idx, tags, why = best[gid]
                rej.append(Rejection(gid, run, idx, tags, why, events[gid][run][idx]))
            else:
                k = o.find('Error:'); sys.stderr.write(o[k:k+2500] if k >= 0 else o[-2000:])
                raise RuntimeError('TLC gave no answer for group %s' % gid)
        todo = nxt
    return acc, rej, dict(states=states, distinct=distinct)

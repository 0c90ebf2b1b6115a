"""Regression scenarios: the histories that exposed defects repaired in /repo, and others worth keeping.

reg(pid) -> [group]"""
import os
from .av1 import *
from .rnd import *
import random

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def raw_job(name, runs, gid, enf):
    """packets kept as bytes in regress/"""
    pks = []
    blob = open(os.path.join(HERE, 'regress', name + '.blob'), 'rb').read()
    for ln in open(os.path.join(HERE, 'regress', name + '.job')):
        f = ln.split()
        if f and f[0] == 'P':
            o, n, ts, dur, poff, psz, ud = map(int, f[2:9])
            pks.append(dict(pieces=[(blob[o:o + n], False)], starts=[0], ts=ts, dur=dur, poff=poff, psz=psz, ud=ud))
    return dict(id=gid, pks=pks, runs=runs, enf=list(enf))


class Mk:
    def __init__(self, seed=1, **seq):
        kw = dict(w=64, h=64, wbits=8, hbits=8); kw.update(seq)
        self.b = Builder(random.Random(seed), default_seq(**kw))
        self.fo = 0
        self.n = 0

    def fr(self, t, **k):
        kk = dict(type=t, show=1, refresh=0xff if t == KEY else 0, yac=40, foff=self.fo)
        self.fo += 1
        kk.update(k)
        return Frame(**kk)

    def tu(self, seq, *frames):
        b = self.b
        b.td()
        if seq:
            b.seqhdr()
        for f in frames:
            b.frame(f[0] if isinstance(f, tuple) else f, **({'upd': False} if isinstance(f, tuple) else {}))
        self.n += 1
        b.end_packet(ts=self.n, dur=1, poff=self.n * 10, psz=-1, ud=self.n)

    def bad(self):
        """an inter frame of a size its references cannot be scaled to"""
        return (self.fr(INTER, fso=1, w=16, h=16, refidx=[0] * 7),)


def bad_between():
    m = Mk()
    for i in range(8):
        m.tu(i == 0, m.bad() if i in (3, 5) else m.fr(KEY))
    return m.b.packets


def bad_second():
    m = Mk()
    m.tu(1, m.fr(KEY)); m.tu(0, m.bad()); m.tu(0, m.fr(KEY)); m.tu(0, m.fr(KEY))
    return m.b.packets


def reshow_nothing():
    m = Mk()
    m.tu(1, (Frame(show_existing=1, existing_idx=3),))
    for i in range(3):
        m.tu(0, m.fr(KEY))
    return m.b.packets


def threads(*acts, nts=((4, 2), (4, 3), (4, 4), (4, 5), (3, 2), (8, 8))):
    return [dict(nt=a, fd=b, acts=x) for a, b in nts for x in acts]


def reg(pid):
    out = []
    F = [dict(acts='AdPex', dump=2)]
    a1 = ('sgsgsgsgsgsgsgsgsgsgsgdPxx', 'AdPxx', 'SSSgggSggggPAdP')
    if pid in ('C03', 'C01'):
        out.append(raw_job('c03-first', [dict(nt=3, fd=2, acts='AD'), dict(nt=2, fd=2, acts='AdP'), dict(nt=8, fd=4, acts='AdP')],
                           pid + '-r1', ['leak']))
    if pid in ('C01', 'C03', 'C16'):
        e = ['err-props', 'pixels', 'buffer', 'props', 'leak'] if pid == 'C16' else ['leak', 'buffer', 'pixels']
        out.append(dict(id=pid + '-r2', pks=bad_between(), runs=F + threads(*a1), enf=e))
        out.append(dict(id=pid + '-r3', pks=bad_second(), runs=F + threads(*a1), enf=e))
        out.append(dict(id=pid + '-r4', pks=reshow_nothing(), runs=F + threads(*a1), enf=e))
    return out

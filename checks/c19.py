"""C19: every allocation of a scenario fails in turn.

The number of allocations is measured on the tree being checked (the recorder counts them), so
the sweep follows the code.  Behind the injected failure the specification only knows that
results stay in the documented range, that nothing is leaked or used after release (the
AddressSanitizer build and the resource part of the specification see to that) and that until an
error is reported every picture is one of the stream's; after the failure ends and the decoder is
flushed, the exact specification of a fresh decoder applies again."""
import random
from gen import fam, reg
from gen.rnd import *
from lib import vb, drv


def streams(r, tier):
    out = []
    for k in range(fam.scale(tier, 7, 24)):
        if k % 7 == 5:
            pk = fam.layered(r)
            s = dict(all=0)
        else:
            sq = rnd_seq(r, rich=.1)
            if k % 7 in (1, 4):
                sq.update(film_grain=1)
            if k % 7 == 2:
                sq.update(super_res=1)
            g = Gen(r, sq, p_feature=.35)
            pk = g.stream(r.randrange(3, 5), metas=.6 if k % 2 else .1, show_ex=.3, multi=.3, reseq=.1)
            s = {}
        out.append((pk, s))
    return out


def check(res, r, work, standard, family):
    st = streams(r, res.tier)
    per = 80 if res.tier == 'quick' else 700
    binary = vb.vh('asan')
    probe = []
    for k, (pk, s) in enumerate(st):
        probe.append(fam.grp('p%d' % k, pk, [dict(s, acts='AdP', mfail=10 ** 8), dict(s, nt=4, fd=2, acts='AdP', mfail=10 ** 8),
                                             dict(s, mopen=1, acts='c', mfail=10 ** 8), dict(s, mopen=1, nt=4, fd=2, acts='c', mfail=10 ** 8)]))
    ev = drv.record(binary, probe, work)
    groups, allocs = [], 0
    for k, (pk, s) in enumerate(st):
        cnt = [e[-1].get('mcount', 0) if e else 0 for e in ev['p%d' % k]]
        allocs += sum(cnt)
        runs = [dict(fam.FIRST, **s)]
        plans = [(dict(s), cnt[0], .5, 0), (dict(s, nt=4, fd=r.choice([1, 2, 3])), cnt[1], .3, 0),
                 (dict(s, mopen=1), cnt[2], .1, 1), (dict(s, mopen=1, nt=4, fd=2), cnt[3], .1, 1)]
        for base, n, share, op in plans:
            m = max(1, int(per * share))
            ks = range(n) if n <= m else sorted(r.sample(range(n), m))
            for q in ks:
                a = r.choice(['AdmfbAdP', 'AdmfbAdP', 'AmfbAdP', 'LmfbLDPex', 'sgsmfbAdP', 'AdPmc', 'AdxmeP'])
                x = dict(base, loose=1, mfail=q, mfailn=r.choice([1, 1, 1, 1, 2, 5]), acts=a, hold=r.choice([0, 0, 4]), grain=r.choice([1, 1, 0]))
                if op:
                    x['acts'] = 'AdP'
                    x['mfailn'] = 1
                if r.random() < .3:
                    x['alloc'] = 0         # the library's own picture allocator: its allocations fail, too
                runs.append(x)
        # the picture allocator fails: specified exactly
        for q in range(fam.scale(res.tier, 10, 30)):
            x = dict(s, afail=q, afailn=r.choice([1, 1, 2]), acts=r.choice(['AdPx', 'AdPfbAdP', 'LxdxfbAd']), grain=r.choice([1, 1, 0]))
            if q % 2:
                x.update(fam.mt(r))
            runs.append(x)
        # shared first run, so that the pictures of the stream are known; several groups, so that they are checked in parallel
        head, tail = runs[0], runs[1:]
        r.shuffle(tail)
        n = 3
        for j in range(n):
            groups.append(fam.grp('C19-%d.%d' % (k, j), pk, [head, dict(head, grain=0)] + tail[j::n],
                                  ['code', 'leak', 'held-changed', 'buf-ref', 'data-ref', 'ud-ref', 'double-free', 'pixels', 'alloc-req', 'dims']))
    family(res, reg.reg('C19') + groups, 'asan', work)
    res.cov['allocations_counted'] = allocs
    res.cov['rule'] = 'per stream every (or, above the budget, a random subset of) allocation index 0..n-1 fails once, n counted on this tree'
    res.assume += ['allocations are counted only while a library call is active', 'quick tier samples at most %d indices per stream' % per]

"""C03: termination, under the operating system's scheduler and under the controlled one."""
from gen import fam, reg
from lib import vb, drv
from checks import schedlib


def check(res, r, work, standard, family):
    standard(res, r, work)
    q = res.tier == 'quick'
    regs = reg.reg('C03')
    groups = fam.C03(r, res.tier)[:36 if q else None]
    for g in groups[::3]:               # and allocations that fail while several threads are at work
        for x in g['runs'][1:]:
            if r.random() < .6:
                x.pop('afail', None)
                x.update(loose=1, mfail=int(2 ** r.uniform(0, 9)), mfailn=r.choice([1, 1, 2, 5]))
                x['acts'] = r.choice(['AdmfbAdP', 'AmfbAdP', 'LmfbLDPex', 'sgsmfbAdP', 'AdPmc', 'sSsSc'])
    family(res, schedlib.scheduled(r, regs + groups, 8 if q else 20, 40 if q else 300), 'sched', work, timeout=120)
    if drv.works(vb.vh('tsan'), work):
        tg = schedlib.without_ibc(lambda: fam.C03(r, res.tier)[1:36 if q else None:3 if q else 1])
        family(res, [dict(g, id=g['id'] + 't') for g in tg], 'tsan', work)
    else:
        res.assume.append('the thread sanitizer does not run here')
    res.assume.append('the controlled scheduler interleaves at synchronisation operations, sequentially consistent')

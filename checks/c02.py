"""C02: the scenario family under the operating system's scheduler and under the controlled one."""
from gen import fam
from lib import vb, drv
from checks import schedlib


def check(res, r, work, standard, family):
    standard(res, r, work)
    q = res.tier == 'quick'
    groups = fam.C02(r, res.tier)[:18 if q else None]
    family(res, schedlib.scheduled(r, groups, 6 if q else 12, 40 if q else 300), 'sched', work)
    if drv.works(vb.vh('tsan'), work):         # and no access to shared data without synchronisation
        tg = schedlib.without_ibc(lambda: fam.C02(r, res.tier)[:18 if q else None:2 if q else 1] + fam.C18(r, res.tier)[:6])
        family(res, [dict(g, id=g['id'] + 't') for g in tg], 'tsan', work)
    else:
        res.assume.append('the thread sanitizer does not run here')
    res.assume.append('the controlled scheduler interleaves at synchronisation operations, sequentially consistent')

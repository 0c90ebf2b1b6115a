"""Runs of a property's scenarios under the controlled scheduler (harness/sched.c): one thread at a
time, every mutex, condition, thread and atomic operation of the library is a scheduling point, and
the schedule is a function of (strategy, seed).  A deadlock or an execution that makes no progress
is reported by the scheduler itself; what the calls return and the pictures contain is decided by
spec/Trace.tla like for any other run."""
import random
from gen import rnd

STRAT = ['r', 'w', 'l', 's', 'p', 'p', 'rx', 'wx', 'px', 'sx']


def scheduled(r, groups, per, cap=10 ** 9, prob=1.0):
    out = []
    for g in groups:
        runs = []
        for x in g['runs'][1:]:
            if x.get('nt', 1) <= 1:
                continue
            for _ in range(per):
                runs.append(dict(x, sched=r.choice(STRAT), sseed=r.randrange(1 << 30)))
        r.shuffle(runs)
        out.append(dict(g, id=g['id'] + 's', runs=g['runs'][:1] + runs[:cap]))
    return out


def without_ibc(make):
    """Groups for the thread sanitizer.  Intra block copy of a chroma block at a half-pel position
    near a frame edge fetches the margin of an 8-tap filter of which the bilinear filter uses one
    sample; the unused ones may lie in a tile another thread is writing.  No result depends on
    them, so this is no violation, but the sanitizer has to report it."""
    rnd.IBC[0] = 0
    try:
        return make()
    finally:
        rnd.IBC[0] = 1

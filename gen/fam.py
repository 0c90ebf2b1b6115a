"""Scenario families: for every property, groups of packet lists and runs that exercise it.

Every family is a function (r, tier) -> [group]; r is a random.Random seeded with VERIF_SEED.
group = dict(id, pks, runs, enf): see lib/drv.py and spec/Trace.tla."""
import random
from .rnd import *
from .av1 import *

FIRST = dict(dump=2, acts='AdPex')          # canonical run: one thread, everything exposed


def acts(r, n, alphabet='sSgGgsexp', close=True):
    """a random call sequence over n packets that ends with everything sent and drained"""
    a = ''.join(r.choice(alphabet) for _ in range(r.randrange(2, 2 * n + 4)))
    return a + r.choice(['A', 'L', 'A']) + r.choice(['d', 'D', 'dD']) + ('Px' if close else '')


def mt(r, most=8):
    """settings with several frame contexts, or tile threads only"""
    nt = r.choice([2, 3, 4, 5, 8, 12, 16])
    fd = r.choice([0, 2, 2, 3, 4, 6, 8, 1])
    return dict(nt=nt, fd=min(fd, most))


def stream(r, n=None, seq=None, rich=0.3, payload=None, pf=0.2, **kw):
    g = Gen(r, seq or rnd_seq(r, rich=rich), p_feature=pf, payload=payload)
    return g, g.stream(n or r.randrange(4, 9), **kw)


def tiny(r):
    return lambda st, t: r.randbytes(60 + (st['w0'] * st['h']) // 24)


def bad_payload(r, p=0.25):
    """now and then a tile that ends too early"""
    def f(st, t):
        n = (((st['w0'] + 63) & ~63) * ((st['h'] + 63) & ~63)) // (st['cols'] * st['rows']) // 3 + 400
        if r.random() < p:
            n = r.choice([0, 1, 2, 5, 12, n // 40, n // 15])
        return r.randbytes(n) or b'\x80'
    return f


def grp(gid, pks, runs, enf=()):
    return dict(id=gid, pks=pks, runs=runs, enf=list(enf))


def scale(tier, q, t=None):
    return q if tier == 'quick' else (t or q * 8)


# ------------------------------------------------------------------- families
def C01(r, tier):
    """order and completeness of output"""
    out = []
    enf = ['buffer', 'pixels', 'leak', 'dims', 'props']
    for k in range(scale(tier, 120)):
        pay = None if k % 3 else bad_payload(r, .15)
        g, pk = stream(r, r.randrange(5, 12), rich=.1, payload=pay, show_ex=.3, multi=.4, reseq=.05, metas=.1)
        if k % 4 == 0:
            pk = resplit(r, pk)
        runs = [dict(FIRST)]
        for _ in range(4):
            runs.append(dict(mt(r), acts=acts(r, len(pk)), hold=r.choice([0, 0, 2])))
        runs.append(dict(acts=acts(r, len(pk))))
        runs.append(dict(dump=2, invis=1, acts='AdPex'))
        runs.append(dict(mt(r), invis=1, acts=acts(r, len(pk))))
        out.append(grp('C01-%d' % k, pk, runs, enf))
    return out


def big_seq(r, **kw):
    s = rnd_seq(r, rich=.15)
    s.update(w=r.choice([192, 256, 320, 200]), h=r.choice([128, 192, 256, 136]), still=0, reduced=0, wbits=12, hbits=12, restoration=1, cdef=1,
             **kw)
    return s


def C02(r, tier):
    """pixels under threads: larger frames, several tiles, all filters, frames that depend on each other"""
    out = []
    for k in range(scale(tier, 28)):
        s = big_seq(r)
        n = r.randrange(5, 9)
        if k % 7 == 3:          # more superblock rows than one progress word has bits
            s.update(w=r.choice([16, 32, 48]), h=r.choice([2050, 2112, 2200]), sb128=0)
            n = 4
        elif k % 7 == 5:        # more than one tile column by necessity
            s.update(w=r.choice([4100, 4160]), h=r.choice([40, 72]), wbits=13)
            n = 4
        g = Gen(r, s, p_feature=.25)
        pk = g.stream(n, metas=0, show_ex=.1, reseq=.02, multi=.1)
        runs = [dict(FIRST)]
        for _ in range(scale(tier, 7, 24)):
            runs.append(dict(mt(r), acts=r.choice(['AdP', 'LdP', acts(r, len(pk), 'sSgG')])))
        out.append(grp('C02-%d' % k, pk, runs, ['pixels']))
    return out


def C03(r, tier):
    """termination: errors, allocation failures, flush and close while frames are in flight"""
    out = []
    for k in range(scale(tier, 60)):
        s = big_seq(r) if k % 4 == 0 else rnd_seq(r, rich=.1)
        g = Gen(r, s, p_feature=.2, payload=bad_payload(r, .2))
        pk = g.stream(r.randrange(5, 10), metas=.05, show_ex=.2, reseq=.05, multi=.3)
        if k % 3 == 0:
            pk = mutate(r, pk, r.randrange(1, 3))
        runs = [dict(FIRST)]
        for _ in range(scale(tier, 6, 20)):
            a = ''.join(r.choice('sSSgGsgsSf' if r.random() < .5 else 'sSgGLA') for _ in range(r.randrange(1, 3 * len(pk))))
            a += r.choice(['c', 'fc', 'fbAdP', 'dP', 'bLdP', 'fbLDPc', ''])
            x = dict(mt(r), acts=a, hold=r.choice([0, 0, 3]))
            if r.random() < .2:
                x.update(afail=r.randrange(6), afailn=r.choice([1, 1, 3]))
            runs.append(x)
        out.append(grp('C03-%d' % k, pk, runs, ['leak']))
    return out


def C04(r, tier):
    """picture buffers"""
    out = []
    enf = ['buf-ref', 'double-free', 'held-changed', 'buffer', 'leak']
    for k in range(scale(tier, 90)):
        g, pk = stream(r, r.randrange(5, 11), rich=.15, payload=bad_payload(r, .08), show_ex=.3, multi=.3, reseq=.08)
        if k % 4 == 3:
            pk = mutate(r, pk, 1)
        lay = {}
        if k % 5 == 2:
            pk = layered(r); lay = dict(all=0)
        runs = [dict(FIRST, **lay)]
        for j in range(5):
            a = acts(r, len(pk), 'sSgGgsppPaf' if j > 2 else 'sSgGgsppa')
            if j == 4:
                a = ''.join(r.choice('sssgSG') for _ in range(r.randrange(1, 2 * len(pk)))) + r.choice(['fbAdP', 'fP', 'f', 'fbS'])
            x = dict(lay, acts=a, hold=r.choice([1, 3, 6, 100]), grain=r.randrange(2))
            if j % 2:
                x.update(mt(r))
            if r.random() < .2:
                x.update(afail=r.randrange(9), afailn=r.choice([1, 1, 2]))
            if r.random() < .2:
                x['invis'] = 1
            runs.append(x)
        out.append(grp('C04-%d' % k, pk, runs, enf))
    return out


def C05(r, tier):
    """packets: ownership, EAGAIN protocol"""
    out = []
    enf = ['touched', 'data-ref', 'ud-ref', 'double-free', 'leak']
    for k in range(scale(tier, 110)):
        g, pk = stream(r, r.randrange(4, 9), rich=.1, payload=bad_payload(r, .1), show_ex=.3, multi=.6, reseq=.05)
        if k % 3 == 1:
            pk = resplit(r, pk)
        if k % 3 == 2:
            pk = mutate(r, pk, r.randrange(1, 3))
        runs = [dict(FIRST)]
        for j in range(6):
            x = dict(acts=acts(r, len(pk), 'sssSgggGzxufp' if j > 3 else 'sssgggzxS'), hold=r.choice([0, 1, 4]))
            if j % 2:
                x.update(mt(r))
            runs.append(x)
        out.append(grp('C05-%d' % k, pk, runs, enf))
    return out


def C06(r, tier):
    """flush at any point, then anything"""
    out = []
    for k in range(scale(tier, 100)):
        g, pk = stream(r, r.randrange(4, 8), rich=.2, payload=bad_payload(r, .1), show_ex=.3, multi=.4, reseq=.1, metas=.4)
        if k % 3 == 1:
            pk = resplit(r, pk, .5)
        if k % 4 == 2:
            pk = mutate(r, pk, 1)
        if k % 5 == 0:      # a second, unrelated stream to continue with
            g2, pk2 = stream(r, 4, rich=.2, metas=.3)
            pk = pk + pk2
        lay = {}
        if k % 6 == 5:
            pk = layered(r); lay = dict(all=0)
        runs = [dict(FIRST, **lay)]
        for j in range(6):
            a = ''.join(r.choice('ssSgGsgS') for _ in range(r.randrange(1, 2 * len(pk) + 2)))
            a += r.choice(['f', 'uf', 'ff', 'gf', 'ef']) + r.choice(['b', 'b', 'bj', '']) + r.choice(['Ad', 'Ld', acts(r, len(pk))]) + 'xe'
            if r.random() < .3:
                a += 'fbAdxe'
            x = dict(acts=a, hold=r.choice([0, 0, 2]), **lay)
            if j % 2 == 0:
                x.update(mt(r))
            if r.random() < .2:
                x['strict'] = 1
            runs.append(x)
        out.append(grp('C06-%d' % k, pk, runs, []))
    return out


def C07(r, tier):
    """reference slots"""
    out = []
    enf = ['buffer', 'pixels', 'dims', 'fh', 'leak']
    for k in range(scale(tier, 130)):
        s = rnd_seq(r, rich=.15)
        g = Gen(r, s, p_feature=.25)
        b = g.b
        for n in range(r.randrange(6, 13)):
            b.td()
            x = r.random()
            if n == 0 or x < .04:
                b.seqhdr()
            elif x < .1:
                # a new sequence: other size, layout or depth; slots must be empty afterwards
                s2 = rnd_seq(r, rich=.2) if r.random() < .5 else dict(s, **r.choice([dict(w=s['w'] + 2), dict(hbd=1 - min(1, s['hbd'])), dict(cdef=1 - s['cdef']), dict(grain=1 - s['grain'])]))
                b.seq = s = s2
                b.seqhdr()
                if r.random() < .6:
                    b.refs = [None] * 8
            if r.random() < .03:
                b.raw(obu(1, b'\x00' * 12))
            try:
                if n and r.random() < .35:
                    g.show_existing(r.choice([None, None, r.randrange(8)]))
                elif n and all(b.refs) and r.random() < .1:
                    # size outside what the references allow
                    f = g.frame_desc(INTER)
                    rf = b.refs[f.k['refidx'][r.randrange(7)]]
                    if r.random() < .6 and rf and rf.get('h'):
                        w1, h1 = rf['w1'], rf['h']
                        f.k.update(fso=1, w=max(1, min(s['w'], r.choice([(w1 + 1) // 2, w1 // 2, w1, w1 * 16, w1 * 16 + 1]))),
                                   h=max(1, min(s['h'], r.choice([(h1 + 1) // 2, h1 // 2, h1 // 2 + 1, h1, h1 * 16, h1 * 16 + 1]))), from_ref=None)
                    else:
                     f.k.update(fso=1, w=max(1, min(s['w'], r.choice([16, s['w'] // 2, s['w'] // 2 - 1, 8, s['w'] // 3]))),
                               h=max(1, min(s['h'], r.choice([16, s['h'] // 2, s['h'] // 2 - 1, 8, s['h']]))), from_ref=None)
                    g.one_frame(f=f, upd=r.random() < .5)
                else:
                    g.one_frame(None if all(b.refs) else (KEY if r.random() < .8 else INTRA))
            except (AssertionError, TypeError, KeyError, IndexError):
                pass
            b.end_packet(**g.props())
        pk = [p for p in b.packets if p['pieces']]
        if k % 4 == 0:
            pk = [p for p in pk if r.random() > .15] or pk
        runs = [dict(FIRST), dict(FIRST, strict=1), dict(mt(r), acts=acts(r, len(pk))), dict(mt(r), invis=1, dump=2, acts='AdP')]
        out.append(grp('C07-%d' % k, pk, runs, enf))
    out += [pruned(r, 'C07-p%d' % k, enf) for k in range(scale(tier, 24))]
    out += [reload(r, 'C07-k%d' % k, enf) for k in range(scale(tier, 24))]
    return out


def seg_data(r, intra):
    return [[r.randrange(-40, 41), r.randrange(-20, 21), r.randrange(-20, 21), 0, 0, -1 if intra or r.random() < .8 else r.randrange(8), 0, 0] for _ in range(8)]


def reload(r, gid, enf):
    """slots filled with all kinds of state, then overwritten - by a re-shown key frame, by a frame without that
    state, or by a new sequence - and a frame that inherits through any of them: the same without the first part"""
    s = rnd_seq(r, rich=.1)
    s.update(still=0, reduced=0, super_res=0, w=r.choice([64, 96, 130]), h=r.choice([64, 72, 100]))
    g = Gen(r, s, p_feature=.2)
    b = g.b

    def put(ft, **k):
        f = g.frame_desc(ft)
        f.k.update(fso=0, err=0, ibc=0)
        seg = k.pop('segm', None)
        if ft == INTER:
            f.k['prim'] = r.randrange(7) if r.random() < .85 else None
            f.k.pop('short', None)
        if seg is not None:
            f.k['seg'] = None if not seg else dict(update_map=int(seg == 1), temporal=int(seg == 3), d=seg_data(r, ft != INTER) if r.random() < .6 or ft != INTER else None)
            if seg == 3:
                f.k['seg']['update_map'] = 1
        f.k.update(k)
        b.td()
        g.one_frame(f=f)
        b.end_packet(**g.props())
    b.td(); b.seqhdr()
    f = g.frame_desc(KEY); f.k.update(show=1, fso=0, seg=dict(update_map=1, temporal=0, d=seg_data(r, True)) if r.random() < .5 else None)
    g.one_frame(f=f); b.end_packet(**g.props())
    n1 = len(b.packets)
    for _ in range(r.randrange(2, 5)):
        put(r.choice([INTER, INTER, INTRA]), refresh=r.choice([0x55, 0xaa, 0x0f, 0xf0, 0x7f]), show=r.randrange(2), segm=r.choice([1, 1, 1, 0]))
    n2 = len(b.packets)
    kind = r.choice(['reshow', 'reshow', 'cover', 'cover', 'key'])
    if kind == 'reshow':
        sl = r.randrange(8)
        put(KEY, show=0, showable=1, refresh=1 << sl, segm=r.choice([0, 0, 1]))
        b.td(); g.show_existing(sl); b.end_packet(**g.props())
    elif kind == 'cover':
        put(INTRA, refresh=0x0f, show=1, segm=r.choice([0, 0, 1]))
        put(INTRA, refresh=0xf0, show=1, segm=r.choice([0, 0, 1]))
    else:
        put(KEY, show=1, refresh=0xff, segm=r.choice([0, 0, 1]))
    for _ in range(r.randrange(1, 4)):
        put(INTER, refresh=r.choice([0, 0x11, 0x3c, 0xff]), segm=r.choice([0, 2, 2, 3, 3, 1]), urfm=1)
    pk = b.packets
    v = pk[:n1] + pk[n2:]
    w = pk[:n1] + pk[n2 - 1:]
    lst = pk + v + w
    runs = [dict(FIRST, to=len(pk), invis=1), {'from': len(pk), 'to': len(pk) + len(v), 'acts': 'AdP', 'invis': 1},
            {'from': len(pk) + len(v), 'acts': 'AdP', 'invis': 1, **mt(r)},
            {'from': 0, 'to': len(pk), 'acts': 'LdP', 'invis': 1, **mt(r)}]
    return grp(gid, lst, runs, enf)


def pruned(r, gid, enf, n=None, variants=5, **seq):
    """the same frames with others left out: a frame that neither reads nor inherits from the missing ones,
    directly or not, has to come out the same"""
    s = rnd_seq(r, rich=.1)
    s.update(still=0, reduced=0, pseg_only=r.random() < .5, **seq)
    hidden = 0
    g = Gen(r, s, p_feature=.25)
    g.nrefs = r.choice([1, 1, 2, 3]); g.pseg = r.choice([.1, .6])
    b = g.b
    b.td(); b.seqhdr(); g.one_frame(KEY); b.end_packet(**g.props())
    for _ in range(n or r.randrange(6, 12)):
        b.td()
        x = r.random()
        if x < .2:
            g.show_existing()
        elif x < .35:
            f = g.frame_desc(KEY); f.k.update(show=0, showable=1, refresh=r.choice([1, 2, 4, 0x12])); hidden = f.k['refresh']; g.one_frame(f=f)
        elif x < .45 and hidden:
            g.show_existing((hidden & -hidden).bit_length() - 1)
        else:
            f = g.frame_desc()
            if s['pseg_only']:
                f.k.update(fso=0, sr_den=8, err=0)
                if f.k.get('refidx') and f.k.get('prim') is None and f.k['type'] == INTER:
                    f.k['prim'] = r.randrange(7)
            g.one_frame(f=f)
        b.end_packet(**g.props())
    pk = b.packets
    lst, runs, at = list(pk), [dict(FIRST, to=len(pk), invis=1)], len(pk)
    for _ in range(variants):
        drop = r.choice([.2, .4, .6])
        v = pk[:1] + [p for p in pk[1:] if r.random() > drop]
        lst += v
        runs.append({'from': at, 'to': at + len(v), 'acts': 'AdP', 'invis': 1, **(mt(r) if r.random() < .4 else {})})
        at += len(v)
    return grp(gid, lst, runs, enf)


def C08(r, tier):
    """properties and metadata"""
    out = []
    enf = ['props', 'cll', 'mdcv', 't35', 'buffer', 'ud-ref', 'leak']
    for k in range(scale(tier, 130)):
        s = rnd_seq(r, rich=.1)
        g = Gen(r, s, payload=bad_payload(r, .05 if k % 3 == 0 else 0))
        b = g.b
        for n in range(r.randrange(6, 12)):
            if not (n and r.random() < .3):
                if b.pieces:
                    b.end_packet(**g.props())
                b.td()
            x = r.random()
            if n == 0 or x < .1:
                b.seqhdr()
            elif x < .2:
                b.seq = s = dict(s, **r.choice([dict(w=s['w'] + 2), dict(cdef=1 - s['cdef']), dict(sharp=0), dict(intra_edge=1 - s['intra_edge'])]))
                b.refs = [None] * 8 if r.random() < .9 else b.refs
                b.seqhdr()
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                g.meta()
            try:
                if n and r.random() < .25:
                    g.show_existing()
                else:
                    g.one_frame(None if all(b.refs) else KEY)
            except (AssertionError, TypeError, KeyError):
                pass
            if r.random() < .2:
                g.meta()
        if b.pieces:
            b.end_packet(**g.props())
        pk = [p for p in b.packets if p['pieces']]
        if k % 2:
            pk = resplit(r, pk, .3, props=lambda i: dict(ts=i * 3 if i % 5 else -1, dur=i, poff=i * 11, psz=r.choice([-1, 77]), ud=i + 40 if i % 3 else -1))
        runs = [dict(FIRST), dict(mt(r), acts=acts(r, len(pk))), dict(mt(r), acts='AdP', hold=100), dict(acts='sgsgsgfAd' + r.choice(['', 'bAd'])),
                dict(mt(r), acts='SSSGfbAd'), dict(FIRST, invis=1), dict(grain=0, acts='Ad', hold=r.choice([0, 3]))]
        out.append(grp('C08-%d' % k, pk, runs, enf))
    return out


def C09(r, tier):
    """event flags"""
    out = []
    enf = ['flags']
    for k in range(scale(tier, 150)):
        s = rnd_seq(r, rich=.15)
        if r.random() < .6:
            s.update(timing=dict(tick=1, scale=25, equal=r.choice([None, 3])), still=0, reduced=0,
                     dm=dict(edbl=r.choice([5, 20]), tick=7, brl=6, fpl=9))
            s['ops'][0].update(dm=(r.randrange(1 << 20), r.randrange(99), 0))
            for _ in range(r.choice([0, 0, 1, 2])):
                s['ops'].append(dict(s['ops'][0], dm=(r.randrange(1 << 20), r.randrange(99), 0)))
        g = Gen(r, s, payload=bad_payload(r, .08 if k % 3 == 0 else 0))
        b = g.b
        for n in range(r.randrange(5, 11)):
            if not (n and r.random() < .25):
                if b.pieces:
                    b.end_packet(**g.props())
                b.td()
            for _ in range(r.choice([1, 1, 2]) if n == 0 or r.random() < .35 else 0):
                x = r.random()
                if n and x < .35 and s['dm']:
                    ch = r.randrange(len(s['ops']))
                    s = dict(s, ops=[dict(o, dm=(r.randrange(1 << 5), r.randrange(1 << 5), r.randrange(2))) if n == ch else o for n, o in enumerate(s['ops'])])
                elif n and x < .6:
                    s = dict(s, **r.choice([dict(w=s['w'] + 2), dict(cdef=1 - s['cdef']), dict(intra_edge=1 - s['intra_edge'])]))
                    b.refs = [None] * 8
                b.seq = s
                b.seqhdr()
            try:
                if n and r.random() < .15:
                    g.show_existing()
                else:
                    g.one_frame(None if all(b.refs) else KEY)
            except (AssertionError, TypeError, KeyError):
                pass
        if b.pieces:
            b.end_packet(**g.props())
        pk = [p for p in b.packets if p['pieces']]
        if k % 4 == 0:
            pk = resplit(r, pk)
        ev = lambda: ''.join(r.choice(['se', 'ge', 'sge', 'Se', 'Gee', 'e', 's', 'g', 'fe' if r.random() < .2 else 'S']) for _ in range(3 * len(pk))) + 'Lede'
        runs = [dict(FIRST), dict(acts='sgesgesgesgesgeAed'), dict(acts=ev()), dict(mt(r), acts=ev()), dict(mt(r), acts=ev()), dict(dft=r.randrange(4), acts=ev()),
                dict(invis=1, acts=ev())]
        out.append(grp('C09-%d' % k, pk, runs, enf))
    return out


LAYERINGS = [  # spatial layers, temporal layers
    (2, 1), (3, 1), (1, 2), (2, 2), (1, 3), (4, 1), (3, 2)]


def layered(r, broken=0.1):
    ns, nt = r.choice(LAYERINGS)
    s = rnd_seq(r, rich=.1)
    s.update(still=0, reduced=0, w=64, h=64, wbits=8, hbits=8)
    ops = []
    allt = (1 << nt) - 1
    for sp in range(ns, 0, -1):
        for te in range(nt, 0, -1):
            ops.append(dict(idc=(((1 << sp) - 1) << 8) | ((1 << te) - 1), lvl=(2, 0), tier=0, dm=None, disp=None))
    if r.random() < .3:
        ops.append(dict(ops[0], idc=((1 << (ns - 1)) << 8) | allt))        # an enhancement layer alone
    if r.random() < .3:
        r.shuffle(ops)
    if r.random() < .1:
        ops[0]['idc'] = 0
    s['ops'] = ops[:32]
    g = Gen(r, s, p_feature=.12)
    b = g.b
    n = r.randrange(4, 8)
    for t in range(n):
        b.td()
        if t == 0 or r.random() < .05:
            b.seqhdr()
        tid = 0 if nt == 1 or t == 0 else (t % nt)
        for sid in range(ns):
            if t and r.random() < .15:
                continue        # layer missing in this unit
            f = g.frame_desc(KEY if t == 0 and sid == 0 else (INTER if all(b.refs) and r.random() < .85 else INTRA))
            lo = 2 * sid
            slots = [x for x in range(0, min(8, 2 * sid + 2))]
            f.k.update(show=1, showable=0, short=None, err=f.get('err'), refresh=0xff if t == 0 and sid == 0 else
                       (0 if tid else r.choice([1 << lo, 2 << lo, 3 << lo])),
                       refidx=[r.choice(slots) for _ in range(7)])
            if f.k.get('fg'):
                f.k['fg'] = None
            if r.random() < .1:
                f.k.update(show=0, showable=1)
            f.k.update(fso=int(ns > 1 and r.random() < .5), w=r.choice([64, 48, 32]) if sid < ns - 1 else 64, h=64 if sid == ns - 1 else r.choice([64, 40]), from_ref=None)
            if not f.k['fso']:
                f.k.pop('w'); f.k.pop('h')
            try:
                g.one_frame(f=f, tid=tid, sid=sid, ext=r.random() > .03)
            except (AssertionError, TypeError, KeyError):
                pass
            if r.random() < .1:
                g.meta()
        if not b.pieces:
            continue
        if r.random() < .85:
            b.end_packet(**g.props())
    if b.pieces:
        b.end_packet(**g.props())
    if r.random() < .3:
        return resplit(r, b.packets, .3)
    return b.packets


def C10(r, tier):
    out = []
    enf = ['buffer', 'pixels', 'dims', 'props', 'flags', 'leak']
    for k in range(scale(tier, 130)):
        pk = layered(r)
        if k % 8 == 7:
            pk = mutate(r, pk, 1)
        runs = [dict(FIRST), dict(FIRST, all=0)]
        for op in r.sample(range(8), 3):
            runs.append(dict(op=op, all=0, dump=2, acts='AedeP'))
        runs.append(dict(op=r.randrange(6), all=1, dump=2, acts='AedP'))
        runs.append(dict(mt(r), op=r.randrange(3), all=0, acts=acts(r, len(pk), 'sSgGgse')))
        runs.append(dict(mt(r), all=0, acts=acts(r, len(pk), 'sSgGgse'), hold=2))
        runs.append(dict(mt(r), op=r.randrange(3), all=1, acts=acts(r, len(pk))))
        if r.random() < .3:
            runs.append(dict(all=0, invis=1, acts='AdP'))
        out.append(grp('C10-%d' % k, pk, runs, enf))
    return out


def C11(r, tier):
    """sequence headers: as exposed with pictures, and stand-alone"""
    out = []
    for k in range(scale(tier, 160)):
        s = rnd_seq(r, rich=r.choice([.2, .5, .8]))
        if r.random() < .3 and not s['reduced']:
            s['ops'] = [dict(idc=r.choice([0, 0x101, 0x303, 0x201, 0xf0f]), lvl=(r.randrange(2, 10), r.randrange(4)), tier=r.randrange(2),
                             dm=(r.randrange(1 << 32), r.randrange(1 << 32), r.randrange(2)) if r.random() < .5 else None,
                             disp=r.randrange(1, 11) if r.random() < .5 else None) for _ in range(r.randrange(1, 33))]
        g = Gen(r, s, payload=tiny(r))
        b = g.b
        pks = []
        for n in range(2):
            b.td(); b.seqhdr()
            if r.random() < .2:
                b.raw(obu(r.choice([OBU_PAD, 9]), r.randbytes(3) + b'\x80'))
            try:
                g.one_frame(KEY)
            except (AssertionError, TypeError, KeyError):
                pass
            b.end_packet(**g.props())
        # headers alone, broken ones, several, with and without size fields
        for n in range(8):
            h = seq_bits(s if r.random() < .7 else rnd_seq(r, rich=.5)); h.trailing()
            d = bytearray(h.bytes())
            x = r.random()
            if x < .5:
                q = r.randrange(len(d) * 8); d[q // 8] ^= 0x80 >> (q % 8)
            elif x < .65:
                d = d[:r.randrange(len(d) + 1)]
            elif x < .75:
                d += r.randbytes(r.randrange(4))
            ext = (r.randrange(8), r.randrange(4)) if r.random() < .15 else None
            o = obu(1, bytes(d), ext=ext, has_size=r.random() < .8, forbidden=int(r.random() < .05), pad=r.choice([0, 0, 2]))
            pre = obu(r.choice([2, 15, 5, 9]), r.randbytes(r.randrange(3)), has_size=True) if r.random() < .3 else b''
            if r.random() < .15:
                o = o + obu(r.choice([1, 2, 6]), bytes(r.randbytes(r.randrange(6))))
            b.raw(pre + o)
            if r.random() < .5:
                try:
                    g.one_frame(KEY, upd=False)
                except (AssertionError, TypeError, KeyError):
                    pass
            b.end_packet(**g.props())
        pk = b.packets
        runs = [dict(FIRST, acts='QAdP'), dict(FIRST, strict=1), dict(mt(r), acts='AdP', dump=2)]
        out.append(grp('C11-%d' % k, pk, runs, ['sh', 'seq-r', 'dims']))
    return out


def C12(r, tier):
    """frame headers"""
    out = []
    for k in range(scale(tier, 190)):
        s = rnd_seq(r, rich=r.choice([.2, .4, .6]))
        g = Gen(r, s, p_feature=r.choice([.2, .4, .6]), payload=tiny(r))
        pk = g.stream(r.randrange(5, 12), metas=.02, show_ex=.12, reseq=.02, multi=.2)
        if k % 3 == 2:
            pk = mutate(r, pk, r.randrange(1, 4))
        runs = [dict(FIRST, invis=1), dict(FIRST)]
        if k % 3 == 2:
            runs.append(dict(FIRST, strict=1))
        out.append(grp('C12-%d' % k, pk, runs, ['fh', 'dims', 'leak']))
    return out


def C13(r, tier):
    """tile groups"""
    out = []
    for k in range(scale(tier, 130)):
        s = rnd_seq(r, rich=.1)
        s.update(w=r.choice([130, 192, 256]), h=r.choice([64, 130, 192]), wbits=9, hbits=9, still=0, reduced=0, sb128=0)
        g = Gen(r, s, p_feature=.15, payload=lambda st, t: r.randbytes(r.choice([300, 900, 2500])))
        b = g.b
        # one frame after the other; each in several different splits, then broken
        for n in range(r.randrange(2, 5)):
            f = g.frame_desc(None if all(b.refs) else KEY)
            f.k['tiles'] = r.choice([(1, 0), (1, 1), (2, 1), (0, 1), (2, 2), None])
            f.k['n_bytes'] = r.choice([1, 2, 3, 4])
            f.k['from_ref'] = f.k.get('from_ref')
            refs = list(b.refs)
            try:
                w, st = frame_hdr(s, b.refs, f)
            except AssertionError:
                continue
            nt = st['cols'] * st['rows']
            lim = 200 if f.k['n_bytes'] == 1 else 1500
            tiles = [r.randbytes(r.randrange(1, lim)) if f.k['n_bytes'] == 1 else r.randbytes(r.randrange(400, 1600)) for _ in range(nt)]
            for v in range(r.randrange(2, 5)):
                b.refs = list(refs)
                b.td()
                if n == 0:
                    b.seqhdr()
                ends = sorted(r.sample(range(nt), r.randrange(1, nt + 1)))
                mode = r.choice(['frame', 'split'])
                bad = r.randrange(nt) if r.random() < .12 and nt > 1 else None
                try:
                    b.frame(f, mode=mode, splits=ends, tiles=tiles, bad_size=bad, redundant=int(r.random() < .2),
                            elide=f.k['n_bytes'] > 0)
                except (AssertionError, OverflowError):
                    b.refs = list(refs)
                    b.pieces, b.starts = [], []
                    continue
                x = r.random()
                if x < .45 and len(b.starts) > 2:
                    # break the order at unit level
                    p = dict(pieces=b.pieces, starts=b.starts)
                    o = obus_of(p)
                    i = r.randrange(1, len(o))
                    y = r.random()
                    if y < .3:
                        del o[i]
                    elif y < .5:
                        o.insert(i, o[r.randrange(1, len(o))])
                    elif y < .7:
                        j = r.randrange(1, len(o)); o[i], o[j] = o[j], o[i]
                    elif y < .85:
                        # cut the last piece of a unit: size field now promises too much
                        o[i] = o[i][:-1] + ([(o[i][-1][0][:len(o[i][-1][0]) // 2], o[i][-1][1])] if len(o[i][-1][0]) > 1 else [])
                        o[i + 1:] = []
                    else:
                        o.insert(i, [(obu(OBU_TG, bytes([r.randrange(256)]) + r.randbytes(r.randrange(4))), False)])
                    q = packet([x for x in o if x])
                    b.pieces, b.starts = q['pieces'], q['starts']
                b.end_packet(**g.props())
        pk = [p for p in b.packets if p['pieces']]
        if not pk:
            continue
        if k % 3 == 1:
            pk = resplit(r, pk, .5)
        runs = [dict(FIRST), dict(mt(r), acts=acts(r, len(pk))), dict(mt(r), acts='AdP'), dict(FIRST, invis=1)]
        out.append(grp('C13-%d' % k, pk, runs, ['pixels', 'alloc-req', 'leak', 'data-ref', 'fh']))
    return out


def C14(r, tier):
    out = []
    for k in range(scale(tier, 120)):
        g, pk = stream(r, r.randrange(6, 12), rich=.1, show_ex=.25, multi=.3, pf=.25, payload=bad_payload(r, .06) if k % 3 == 0 else None)
        if k % 5 == 4:
            pk = resplit(r, pk)
        runs = [dict(FIRST)]
        for d in range(4):
            runs.append(dict(FIRST, dft=d))
            if r.random() < .6:
                runs.append(dict(mt(r), dft=d, acts=acts(r, len(pk), 'sSgGgsf')))
        runs.append(dict(FIRST, dft=r.randrange(1, 4), invis=1))
        out.append(grp('C14-%d' % k, pk, runs, ['buffer', 'pixels', 'alloc-req', 'leak']))
    return out


def C15(r, tier):
    out = []
    for k in range(scale(tier, 120)):
        s = rnd_seq(r, rich=.2)
        if k % 4 == 0:
            s['super_res'] = 1
        g = Gen(r, s, p_feature=.3)
        pk = g.stream(r.randrange(4, 9), metas=0, show_ex=.1, reseq=.1, multi=.3)
        if k % 3 == 0:
            # frames far too large to decode: they have to be refused before anything is allocated
            s2 = default_seq(w=r.choice([65536, 46341, 65535, 32768]), h=r.choice([65536, 46341, 32768, 65535]), wbits=16, hbits=16)
            g2 = Gen(r, s2, payload=lambda st, t: b'\x00' * 16)
            g2.b.td(); g2.b.seqhdr()
            g2.b.frame(Frame(type=KEY, show=1, refresh=255, yac=100, foff=0), tiles=None, tile_bytes=16)
            g2.b.end_packet(ts=1, dur=1, poff=1, psz=-1, ud=-1)
            huge = g2.b.packets
        else:
            huge = []
        runs = [] if huge else [dict(FIRST)]
        a = s['w'] * s['h']
        lims = [a, a - 1, a + 1, 1, r.randrange(1, a + 1), r.randrange(a // 4, a + 1)]
        if huge:
            lims = lims[:2] + [(1 << r.randrange(16, 26)) + r.randrange(-1, 2)]
        for n in lims:
            runs.append(dict(FIRST, limit=n))
            if r.random() < .4:
                runs.append(dict(mt(r), limit=n, acts=acts(r, len(pk))))
        if huge:
            # the first run fixes outcomes: take the limit that admits everything else
            runs = [dict(FIRST, limit=a)] + runs
            pk = pk + huge + pk[:1]
        out.append(grp('C15-%d' % k, pk, runs, ['alloc-req', 'pixels', 'leak']))
    return out


def C16(r, tier):
    out = []
    enf = ['err-props', 'pixels', 'buffer', 'leak', 'props']
    for k in range(scale(tier, 130)):
        s = rnd_seq(r, rich=.1)
        g = Gen(r, s, payload=bad_payload(r, .25))
        pk = g.stream(r.randrange(5, 10), metas=.05, show_ex=.2, reseq=.05, multi=.3)
        if k % 5 == 0:
            pk = resplit(r, pk)
        if k % 2:
            pk = mutate(r, pk, r.randrange(1, 3))
        if k % 10 == 0:
            pk.insert(r.randrange(len(pk)), dict(pieces=[], starts=[], ts=5, dur=5, poff=5, psz=-1, ud=-1))
        # and a clean end: a key frame that has to decode
        g3 = Gen(r, s); g3.b.td(); g3.b.seqhdr(); g3.one_frame(KEY); g3.b.end_packet(ts=9999, dur=9, poff=9, psz=-1, ud=9999)
        pk = pk + g3.b.packets
        xa = lambda: ''.join(r.choice(['s', 'g', 'x', 'sx', 'gx', 'sgx', 'S', 'G']) for _ in range(3 * len(pk))) + r.choice(['Axdx', 'Lxdxx', 'AxDx'])
        runs = [dict(FIRST), dict(acts=xa()), dict(mt(r), acts=xa()), dict(mt(r), acts=xa(), invis=1), dict(mt(r), acts=acts(r, len(pk))),
                dict(limit=s['w'] * s['h'] - r.randrange(2), acts=xa()), dict(mt(r), strict=1, acts=xa())]
        out.append(grp('C16-%d' % k, pk, runs, enf))
    return out


def noise(r):
    """packets that are hardly AV1 at all"""
    out = []
    for _ in range(r.randrange(1, 5)):
        b = b''
        for _ in range(r.randrange(1, 6)):
            x = r.random()
            if x < .5:
                b += obu(r.choice([1, 2, 3, 4, 5, 6, 7, 8, 15, 0]), r.randbytes(r.randrange(40)), ext=(r.randrange(8), r.randrange(4)) if r.random() < .1 else None,
                         has_size=r.random() < .9)
            elif x < .8:
                h = seq_bits(rnd_seq(r, rich=.5)); h.trailing(); b += obu(1, h.bytes())
            else:
                b += r.randbytes(r.randrange(1, 30))
        out.append(dict(pieces=[(b, False)], starts=[0], ts=1, dur=1, poff=1, psz=-1, ud=-1))
    return out


def settings(r):
    x = dict(nt=1)
    if r.random() < .5:
        x.update(mt(r))
    for k, v in (('op', r.randrange(32)), ('all', 0), ('strict', 1), ('invis', 1), ('ilf', r.randrange(8)), ("dft", r.randrange(4)), ('grain', 0),
                 ('limit', r.choice([4096, 2000, 9000])), ('pat', r.randrange(16)), ('alloc', 0)):
        if r.random() < .2:
            x[k] = v
    return x


def C17(r, tier):
    out = []
    for k in range(scale(tier, 150)):
        x = r.random()
        if x < .12:
            pk = noise(r)
        elif x < .3:
            pk = mutate(r, layered(r), r.randrange(1, 4))
        else:
            s = rnd_seq(r, rich=r.choice([.2, .5]))
            if r.random() < .15:
                s.update(w=r.randrange(1, 17), h=r.randrange(1, 17))
            g = Gen(r, s, p_feature=r.choice([.2, .5]), payload=bad_payload(r, .2))
            pk = g.stream(r.randrange(3, 8), reseq=.15, show_ex=.2, metas=.3)
            if r.random() < .25:
                pk = resplit(r, pk)
            pk = mutate(r, pk, r.randrange(0, 5))
        pk = [p for p in pk if packet_bytes(p)]
        if not pk:
            continue
        runs = [dict(FIRST, invis=r.randrange(2))]
        for _ in range(4):
            runs.append(dict(settings(r), acts=acts(r, len(pk), 'sSgGgsexpfazQ'[:12]), hold=r.choice([0, 2])))
        out.append(grp('C17-%d' % k, pk, runs, ['leak']))
    return out


def C18(r, tier):
    out = []
    enf = ['pixels', 'alloc-req', 'buffer', 'dims', 'fh', 'held-changed', 'props', 'leak']
    for k in range(scale(tier, 110)):
        s = rnd_seq(r, rich=.25)
        s.update(grain=1)
        if k % 5 == 0:
            s.update(w=130, h=100, wbits=9, hbits=9)
        g = Gen(r, s, p_feature=.3)
        pk = g.stream(r.randrange(5, 9), metas=.1, show_ex=.25, reseq=.03, multi=.2)
        runs = [dict(FIRST, grain=0, hold=100, acts='sgasgasgasgasgasgasgasgaAdaP'), dict(FIRST, grain=1),
                dict(mt(r), grain=1, acts=acts(r, len(pk))), dict(mt(r), grain=0, acts=acts(r, len(pk), 'sSgaGa'), hold=4),
                dict(grain=0, invis=1, acts='sgasgasgaAdP', hold=3), dict(mt(r), grain=1, invis=1, acts='AdP'),
                dict(grain=1, ilf=r.randrange(8), acts='AdP'), dict(grain=1, pat=r.randrange(16), fill=r.randrange(1, 99), acts='AdP')]
        if r.random() < .3:
            runs.append(dict(grain=1, afail=r.randrange(8), acts='AdP'))
        out.append(grp('C18-%d' % k, pk, runs, enf))
    return out


def C20(r, tier):
    """settings: validation, the announced delay, and how many frames are held back"""
    out = []
    enf = ['delay', 'open', 'leak', 'defaults', 'arguments', 'threads', 'dims', 'buffer', 'alloc-req', 'props']
    edges = [1, 2, 3, 4, 5, 7, 9, 10, 12, 16, 17, 25, 26, 36, 37, 48, 49, 50, 51, 64, 100, 255, 256]
    big = [-2147483648, -257, -1, 257, 300, 65536, 2147483647]
    for k in range(scale(tier, 14)):
        g, pk = stream(r, r.randrange(6, 12), rich=.05, show_ex=.15, multi=.3, reseq=.03, metas=.05)
        runs = [dict(FIRST, defs=1, thr=1)]
        # valid
        for _ in range(6):
            runs.append(dict(nt=r.choice(edges), fd=r.choice([0, 0, 1, 2, 3, 5, 8, 9, 255, 256]), thr=1,
                             acts=r.choice(['AdPex', 'sgsgsgAdP', 'LdP', acts(r, len(pk), 'sg'), 'gggAgggg'])))
        runs.append(dict(nt=edges[(2 * k) % len(edges)], fd=0, thr=1, acts='AdP'))
        runs.append(dict(nt=edges[(2 * k + 1) % len(edges)], fd=0, thr=1, acts=acts(r, len(pk), 'sg')))
        aff = r.choice([1, 2, 3, 4, 5, 6])
        runs.append(dict(nt=0, aff=aff, fd=r.choice([0, 0, 1, 2, 7]), thr=1, acts=acts(r, len(pk), 'sg')))
        runs.append(dict(acts='NsgNAdPN'))
        runs.append(dict(nt=r.choice([1, 4]), fd=r.choice([1, 2]), acts='sNgNAdP'))
        runs.append(dict(nt=1, op=r.choice([0, 31]), dft=r.choice([0, 0, 3]), acts='AdP'))
        # not valid
        for _ in range(7):
            x = dict(acts='AdP', thr=1)
            for f in r.sample(['nt', 'fd', 'op', 'dft', 'odd'], r.choice([1, 1, 1, 2])):
                x[f] = dict(nt=big, fd=big, op=[-1, 32, 33, 255, -2147483648, 2147483647], dft=[-1, 4, 5, 255, 2147483647],
                            odd=list('armnk'))[f][r.randrange(5)]
            runs.append(x)
        out.append(grp('C20-%d' % k, pk, runs, enf))
    return out


def C23(r, tier):
    """instruction sets, strides, packet splitting"""
    out = []
    masks = [0, 1, 3, 7, 15, 31, 63]
    for k in range(scale(tier, 60)):
        s = big_seq(r) if k % 3 == 0 else rnd_seq(r, rich=.35)
        g = Gen(r, s, p_feature=.3)
        g.qmax = 10
        pk = g.stream(r.randrange(4, 8), metas=0, show_ex=.1, reseq=.03, multi=.2)
        n = len(pk)
        pk2 = resplit(r, pk, r.choice([.3, .8]))
        lst = pk + pk2
        runs = [dict(FIRST, to=n, cpu=0)]
        for m in [1, 3, 7] + r.sample([15, 31, 63, 0xffffffff, 5, 9], 3):
            runs.append(dict(to=n, cpu=m, pat=r.randrange(16), fill=r.randrange(1, 1000), acts='AdP'))
        runs.append({'from': n, 'acts': 'AdP', 'cpu': 0})
        runs.append(dict({'from': n, 'cpu': 0xffffffff}, **mt(r), acts='AdP', pat=r.randrange(16)))
        runs.append(dict(to=n, alloc=0, acts='AdP'))
        out.append(grp('C23-%d' % k, lst, runs, ['pixels', 'guard', 'leak']))
    return out


def C24(r, tier):
    out = []
    enf = ['alloc-req', 'guard', 'alloc-thread', 'buf-ref', 'dims', 'leak', 'double-free']
    for k in range(scale(tier, 110)):
        s = big_seq(r) if k % 6 == 0 else rnd_seq(r, rich=.35)
        if k % 3 == 0:
            s['super_res'] = 1
        if k % 2:
            s['grain'] = 1
        g = Gen(r, s, p_feature=.3, payload=bad_payload(r, .04))
        pk = g.stream(r.randrange(4, 9), metas=0, show_ex=.2, reseq=.05, multi=.3)
        runs = [dict(FIRST, pat=r.randrange(16))]
        for j in range(5):
            x = dict(acts=acts(r, len(pk), 'sSgGap' if r.random() < .3 else 'sSgG'), hold=r.choice([0, 2, 5]), pat=r.randrange(16), fill=r.randrange(3), grain=r.randrange(2))
            if j % 2:
                x.update(mt(r))
            if j > 2:
                x.update(afail=r.randrange(10), afailn=r.choice([1, 1, 2, 50]))
            runs.append(x)
        out.append(grp('C24-%d' % k, pk, runs, enf))
    return out


def C25(r, tier):
    out = []
    for k in range(scale(tier, 150)):
        s = rnd_seq(r, rich=.3)
        if r.random() < .3:
            s.update(timing=dict(tick=r.choice([0, 1]), scale=r.choice([0, 25]), equal=None), still=0, reduced=0)
            if r.random() < .5:
                s.update(dm=dict(edbl=5, tick=r.choice([0, 3]), brl=6, fpl=9))
        g = Gen(r, s)
        b = g.b
        conform = k % 3 == 0
        for n in range(r.randrange(4, 9)):
            b.td(forbidden=int(not conform and r.random() < .05))
            if n == 0 or r.random() < .1:
                b.seqhdr(**({} if conform else dict(forbidden=int(r.random() < .1))))
            if r.random() < .3:
                g.meta()
            try:
                if n and r.random() < .35:
                    if conform:
                        if any(x and x.get('showable') for x in b.refs):
                            g.show_existing()
                        else:
                            g.one_frame(None if all(b.refs) else KEY)
                    else:
                        g.show_existing(r.choice([None, r.randrange(8)]))
                else:
                    g.one_frame(None if all(b.refs) else KEY)
            except (AssertionError, TypeError, KeyError):
                pass
            if not conform and r.random() < .5 and len(b.pieces):
                # break a rule that only strict mode checks: trailing bits, forbidden bit, reserved bits
                ex = [i for i in b.starts if not b.pieces[i][1]]
                i = r.choice(ex)
                d = bytearray(b.pieces[i][0])
                x = r.random()
                if x < .35:
                    d[0] ^= 0x80
                elif x < .5:
                    d[0] ^= 1
                elif len(d) > 2:
                    d[-1] ^= 1 << r.randrange(8)
                b.pieces[i] = (bytes(d), False)
            b.end_packet(**g.props())
        pk = [p for p in b.packets if p['pieces']]
        runs = [dict(FIRST), dict(FIRST, strict=1), dict(mt(r), strict=1, acts=acts(r, len(pk))), dict(mt(r), acts=acts(r, len(pk)))]
        out.append(grp('C25-%d' % k, pk, runs, ['pixels', 'sh', 'fh', 'buffer', 'leak']))
    return out


def C26(r, tier):
    """in-loop filters by setting"""
    out = []
    for k in range(scale(tier, 90)):
        s = big_seq(r) if k % 3 == 0 else rnd_seq(r, rich=.2)
        s.update(cdef=1, restoration=1)
        rr = random.Random(r.randrange(1 << 30))
        lists = []
        for off in range(4):        # 0: as is, 1: no deblocking, 2: no cdef, 3: neither -- in the headers
            g = Gen(random.Random(k * 7 + r.getrandbits(0)), dict(s), p_feature=.2)
            lists.append(g)
        seed = r.randrange(1 << 30)
        pks = []
        n = r.randrange(3, 6)
        cuts = [0]
        for off in range(4):
            q = random.Random(seed)
            g = Gen(q, dict(s), p_feature=.2)
            b = g.b
            try:
                for t in range(n):
                    b.td()
                    if t == 0:
                        b.seqhdr()
                    f = g.frame_desc(KEY if not all(b.refs) else None)
                    lr = f.k['rest']
                    if q.random() < .5:
                        f.k['rest'] = (0, 0, 0) if q.random() < .5 else tuple(x if q.random() < .5 else 0 for x in lr)
                    f.k['lf'] = f.k.get('lf') or (q.randrange(1, 64), q.randrange(64), q.randrange(64), q.randrange(64))
                    if f.k['lf'][0] == 0 and f.k['lf'][1] == 0:
                        f.k['lf'] = (5,) + tuple(f.k['lf'][1:])
                    if off & 1:
                        f.k['lf'] = (0, 0, 0, 0)
                    if off & 2:
                        f.k['cdef'] = (f.k['cdef'][0], [(0, 0)] * len(f.k['cdef'][1]))
                    g.one_frame(f=f, mode='frame')
                    b.end_packet(ts=t, dur=1, poff=t, psz=-1, ud=-1)
            except (AssertionError, TypeError, KeyError):
                b.packets = b.packets[:]
            pks += b.packets
            cuts.append(len(pks))
        runs = []
        for off in range(4):
            rg = {'from': cuts[off], 'to': cuts[off + 1]}
            if cuts[off] == cuts[off + 1]:
                continue
            runs.append(dict(FIRST, **rg))
            for ilf in range(8):
                if r.random() < .7:
                    x = dict(rg, ilf=ilf, acts='AdP')
                    if r.random() < .3:
                        x.update(mt(r))
                    runs.append(x)
        if runs:
            out.append(grp('C26-%d' % k, pks, runs, ['pixels', 'lr-planes', 'fh', 'leak']))
    return out

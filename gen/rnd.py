"""Random (seeded) scenario generator: sequences, frames, packets and syntactic mutants."""
import random
from .av1 import *
from . import av1

IBC = [1]        # 0: no intra block copy (see checks/schedlib.py)


def rnd_fg(r, refs_ok=None, s=None):
    def pts(n):
        xs = sorted(r.sample(range(256), n))
        return [(x, r.randrange(256)) for x in xs]
    ss = seq_ss(s)
    ny = r.choice([0, 0, 1, 2, 5, 14])
    lag = r.choice([0, 1, 2, 3])
    nuv = [r.choice([0, 1, 3, 10]), r.choice([0, 1, 3, 10])]
    if ss == (1, 1) and (nuv[0] > 0) != (nuv[1] > 0):
        nuv[1] = nuv[0]
    coef = lambda n: [r.choice([128, 128, r.randrange(120, 137), r.randrange(256)]) for _ in range(n)]
    return dict(seed=r.randrange(65536), y=pts(ny), csl=r.choice([0, 0, 1]), uv=[pts(nuv[0]), pts(nuv[1])],
                sshift=r.randrange(8, 12), lag=lag, ary=coef(24), aruv=[coef(25), coef(25)],
                arshift=r.randrange(6, 10), gss=r.randrange(4),
                uvm=[(r.randrange(256), r.randrange(256), r.randrange(512)) for _ in range(2)],
                overlap=r.randrange(2), clip=r.randrange(2))


def rnd_seq(r, **kw):
    """a random, legal sequence header with small dimensions"""
    p = kw.pop('rich', 0.3)
    c = lambda: r.random() < p
    s = default_seq()
    s['w'] = r.choice([16, 33, 64, 64, 64, 96, 130])
    s['h'] = r.choice([16, 40, 64, 64, 64, 100])
    s['wbits'] = r.choice([8, 9, 12, 16]); s['hbits'] = r.choice([7, 8, 12, 16])
    if c():
        s['profile'] = r.choice([0, 0, 1, 2])
    if c():
        s['hbd'] = r.choice([0, 1, 2] if s['profile'] == 2 else [0, 1])
    if s['profile'] == 0 and c():
        s['mono'] = 1
    if s['profile'] == 2 and s['hbd'] == 2:
        s['ss'] = r.choice([(0, 0), (1, 0), (1, 1)])
    if c():
        s['cdesc'] = r.choice([(1, 1, 1), (9, 16, 9), (2, 2, 2), (5, 6, 7)])
        if s['profile'] == 1 and r.random() < .3:
            s['cdesc'] = (1, 13, 0)
    if c(): s['range'] = 1
    if c(): s['chr'] = r.randrange(3)
    if c(): s['sepuv'] = 1
    if c(): s['sb128'] = 1
    for k in ('filter_intra', 'intra_edge', 'inter_intra', 'masked', 'warped', 'dual', 'jnt', 'rmvs', 'cdef', 'restoration'):
        if c(): s[k] ^= 1
    if c(): s['order_hint'] = 0
    s['oh_bits'] = r.choice([7, 7, 3, 4, 8])
    if not s['order_hint']:
        s['jnt'] = s['rmvs'] = 0
    if c(): s['super_res'] = 1
    if c(): s['sct'] = r.randrange(3)
    if c(): s['fimv'] = r.randrange(3)
    if c(): s['fid'] = r.choice([(2, 3), (5, 8), (14, 15), (3, 10)])
    if c(): s['grain'] = 1
    if c():
        s['timing'] = dict(tick=r.choice([1, 1001, 0x12345678]), scale=r.choice([25, 30000, 0xffffffff]),
                           equal=r.choice([None, None, 0, 1, 5, 300]))
        if c() or r.random() < .4:
            s['dm'] = dict(edbl=r.choice([1, 5, 16, 20, 32]), tick=r.randrange(1 << 32), brl=r.choice([1, 7, 16, 24, 32]),
                           fpl=r.choice([1, 8, 16, 29, 32]))
    if c(): s['display_model'] = 1
    s['ops'] = [dict(idc=0, lvl=(r.randrange(2, 10), r.randrange(4)), tier=r.randrange(2),
                     dm=(r.randrange(1 << 32), r.randrange(1 << 32), r.randrange(2)) if c() else None,
                     disp=r.randrange(1, 11) if c() else None)]
    if c() and r.random() < .5:
        s['still'] = 1
        if r.random() < .5:
            s['reduced'] = 1
            s.update(timing=None, dm=None, display_model=0, fid=None, sct=2, fimv=2)
            s['ops'][0].update(dm=None, disp=None, tier=0)
    s.update(kw)
    return s


class Gen:
    """random walk through streams the writer knows how to continue"""

    def __init__(self, r, seq, small=True, p_feature=0.2, payload=None):
        self.r = r
        self.b = Builder(r, seq)
        self.t = 0
        self.pf = p_feature
        self.payload = payload or self._payload
        self.fid = 0
        self.seqsent = []
        self.pno = 0
        self.qmax = 0
        self.nrefs = 8      # how many different slots an inter frame may name
        self.pseg = None    # probability of segmentation, where it differs from p_feature

    def _payload(self, st, t):
        """bytes that decode to something and never run out"""
        area = (((st['w0'] + 63) & ~63) * ((st['h'] + 63) & ~63)) // (st['cols'] * st['rows'])
        n = area // 3 + 400
        if st['cols'] * st['rows'] > 1:
            n = min(n, (1 << (8 * st['n_bytes'])) - 1)
        k = self.r.random()
        if k < .15:
            return b'\x00' * n
        if k < .3:
            return bytes([self.r.randrange(256)]) * n
        return self.r.randbytes(n)

    def frame_desc(self, force=None):
        r, b, s = self.r, self.b, self.b.seq
        c = lambda p=None: r.random() < (self.pf if p is None else p)
        refs = b.refs
        f = {}
        have = all(refs)
        ft = force
        if ft is None:
            ft = r.choices([KEY, INTER, INTRA, SWITCH], [1, 6 if have else 0, 1, .5 if have else 0])[0]
        if s['reduced'] or s['still']:
            ft = KEY
        f['type'] = ft
        f['show'] = 1 if s['still'] or s['reduced'] else int(not c(.25))
        if not f['show']:
            f['showable'] = int(c(.7))
        f['err'] = int(c())
        f['dcdf'] = int(c())
        f['sct'] = int(c()); f['fimv'] = int(c())
        if s['fid']:
            self.fid = (self.fid + 1 + (r.randrange(3) if c() else 0)) % (1 << s['fid'][1])
            f['frame_id'] = self.fid
        f['foff'] = self.t + (r.randrange(4) if not f['show'] else 0)
        self.t += 1
        f['fpd'] = r.randrange(1 << 32)
        f['brt'] = r.randrange(1 << 32) if c() else None
        intra = ft in (KEY, INTRA)
        err = f['err'] or (ft == KEY and f['show']) or ft == SWITCH or s['reduced']
        f['refresh'] = r.choice([0, 1, 2, 0x81, r.randrange(255), 0xff if ft != INTRA else 0x7f])
        if ft == INTRA and f['refresh'] == 0xff:
            f['refresh'] = 0x7f
        if ft == KEY and c(.5):
            f['refresh'] = 0xff
        if c(.15) and not s['reduced']:
            f['fso'] = 1
            f['w'] = r.randrange(min(s['w'], max(8, s['w'] // 2 + 1)), s['w'] + 1)
            f['h'] = r.randrange(min(s['h'], max(8, s['h'] // 2 + 1)), s['h'] + 1)
        if s['super_res'] and c(.4):
            f['sr_den'] = r.randrange(8, 17)
        if c(.1):
            f['render'] = (r.randrange(1, 65537), r.randrange(1, 500))
        f['ibc'] = int(c(.1)) & IBC[0]
        if not intra:
            pool = range(8) if self.nrefs >= 8 else r.sample(range(8), self.nrefs)
            f['refidx'] = [r.choice(pool) for _ in range(7)]
            if c(.15) and s['order_hint']:
                f['short'] = (r.randrange(8), r.randrange(8))
            if not err and f.get('fso') and c(.5):
                f['from_ref'] = r.randrange(7)
            f['hp'] = int(c(.5)); f['filt'] = r.randrange(5)
            f['smm'] = int(c(.5)); f['urfm'] = int(c(.5))
            if not err and c(.6):
                f['prim'] = r.randrange(7)
            f['scr'] = int(c(.5)); f['skip_mode'] = int(c(.5)); f['warp'] = int(c(.5))
            if c(.3):
                f['gmv'] = [self.rnd_gmv() for _ in range(7)]
        f['refctx'] = int(not c())
        if c(.5):
            if c(.3):
                f['tiles'] = ('n', [r.randrange(1, 3) for _ in range(2)], [r.randrange(1, 3) for _ in range(2)])
            else:
                f['tiles'] = (r.randrange(3), r.randrange(3))
            f['n_bytes'] = r.choice([2, 3, 4])
            f['tile_update'] = r.randrange(8)
        f['yac'] = r.choice([100, 1, 255, 60, r.randrange(256), 0 if c() else 30])
        if c(.3):
            f['q'] = tuple(r.randrange(-20, 21) for _ in range(5))
            if not s['sepuv']:
                f['q'] = f['q'][:3] + f['q'][1:3]
        f['qdiff'] = int(c())
        if c():
            f['qm'] = tuple(r.randrange(16) for _ in range(3))
        if c(self.pseg):
            d = [[r.randrange(-256, 256) if c(.3) else 0, r.randrange(-63, 64) if c(.2) else 0, r.randrange(-63, 64) if c(.2) else 0,
                  r.randrange(-63, 64) if c(.2) else 0, r.randrange(-63, 64) if c(.2) else 0,
                  r.randrange(8) if c(.2) and not intra else -1, int(c(.1)), int(c(.1))] for _ in range(8)]
            f['seg'] = dict(update_map=int(c(.7 if self.pseg is None else .4)), temporal=int(c(.5)) if not err else 0, d=d if c(.7) else None)
        f['dq_present'] = int(c()); f['dq_res'] = r.randrange(4)
        f['dlf_present'] = int(c(.5)); f['dlf_res'] = r.randrange(4); f['dlf_multi'] = int(c(.5))
        if c(.7):
            f['lf'] = tuple(r.randrange(64) for _ in range(4))
        f['sharp'] = r.randrange(8)
        f['lfd_en'] = int(c(.5))
        if c(.5):
            f['lfd'] = [r.randrange(-63, 64) if c(.5) else None for _ in range(10)]
        n = r.choice([1, 1, 2, 4, 8])
        f['cdef'] = (r.randrange(3, 7), [(r.randrange(64), r.randrange(64)) for _ in range(n)])
        f['rest'] = tuple(r.randrange(4) if c(.4) else 0 for _ in range(3))
        f['rest_unit'] = (r.randrange(3), r.randrange(2))
        f['txsel'] = int(c(.5)); f['rtxs'] = int(c(.5))
        if s['grain'] and c(.7):
            f['fg'] = rnd_fg(r, s=s)
            if ft == INTER and c(.5):
                f['fg']['from'] = r.choice(f['refidx'])
        f['delta_fid'] = None
        if self.qmax:
            # small residuals only: what the standard requires of them (no overflow in the
            # transforms) is the condition under which all instruction sets agree
            f.update(yac=r.randrange(1, self.qmax + 1), q=None, qm=None, dq_present=0)
            if f.get('seg') and f['seg']['d']:
                for d in f['seg']['d']:
                    d[0] = 0
        return Frame(**f)

    def rnd_gmv(self):
        r = self.r
        t = r.choice([0, 0, 1, 2, 3])
        v = [r.randrange(-200, 201), r.randrange(-200, 201)] + [r.randrange(-60, 61) for _ in range(4)]
        return (t, v)

    def one_frame(self, force=None, f=None, **kw):
        r, b, s = self.r, self.b, self.b.seq
        c = lambda p=None: r.random() < (self.pf if p is None else p)
        if f is None:
            f = self.frame_desc(force)
        tries = 0
        while True:
            try:
                mode = kw.get('mode') or ('split' if c(.4) else 'frame')
                splits = None
                if c(.4):
                    splits = sorted(r.sample(range(12), r.randrange(1, 4)))
                k = dict(kw); k.pop('mode', None)
                n0 = len(b.pieces); 
                w, st = frame_hdr(s, b.refs, f, k.get('tid', 0), k.get('sid', 0))
                break
            except AssertionError:
                tries += 1
                f.k['gmv'] = None
                if tries > 2:
                    raise
        if splits is not None and not st.get('show_existing'):
            n = st['cols'] * st['rows']
            splits = [x for x in splits if x < n] or None
        return b.frame(f, mode=mode, splits=splits, redundant=int(c(.1)) if mode == 'split' else 0,
                       tile_bytes=None, tiles=None if st.get('show_existing') else [self.payload(st, t) for t in range(st['cols'] * st['rows'])], **k)

    def show_existing(self, idx=None):
        r, b = self.r, self.b
        ok = [i for i in range(8) if b.refs[i] and b.refs[i].get('showable')]
        if idx is None:
            idx = r.choice(ok) if ok and r.random() < .95 else r.randrange(8)
        rf = b.refs[idx]
        f = Frame(show_existing=1, existing_idx=idx, fpd=r.randrange(1 << 32), frame_id=(rf or {}).get('frame_id', 0))
        return b.frame(f)

    def props(self):
        r = self.r
        self.pno += 1
        return dict(ts=self.pno * 10 if r.random() < .8 else -1, dur=r.choice([0, 40]), poff=self.pno * 100,
                    psz=-1, ud=self.pno * 7 + 1 if r.random() < .6 else -1)

    def meta(self):
        r, b = self.r, self.b
        k = r.randrange(4)
        if k == 0:
            b.cll(r.randrange(65536), r.randrange(65536))
        elif k == 1:
            b.mdcv([r.randrange(65536) for _ in range(8)], r.randrange(1 << 32), r.randrange(1 << 32))
        elif k == 2:
            b.t35(r.choice([0xb5, 0x26, 0xff]), r.randrange(256), r.randbytes(r.randrange(0, 6)) + b'\x01',
                  tail=b'\x80' + b'\x00' * r.randrange(3))
        else:
            b.raw(obu(r.choice([OBU_PAD, OBU_TL, 9, 12]), r.randbytes(r.randrange(5)) + b'\x80'))

    def stream(self, n, metas=0.2, show_ex=0.15, reseq=0.05, multi=0.2):
        r, b = self.r, self.b
        for k in range(n):
            if not (r.random() < multi and k):
                if b.pieces:
                    b.end_packet(**self.props())
                b.td()
            if k == 0 or r.random() < reseq:
                b.seqhdr()
                self.one_frame(KEY) if k == 0 or not all(b.refs) else None
                if k == 0:
                    continue
            if r.random() < metas:
                self.meta()
            if r.random() < show_ex and not b.seq['still'] and not b.seq['reduced']:
                self.show_existing()
            else:
                self.one_frame(None if all(b.refs) else KEY)
        if b.pieces:
            b.end_packet(**self.props())
        return b.packets


# ---------------------------------------------------------------- mutants

def mutate(r, packets, n=1):
    """syntactic mutants: bit flips / byte edits in explicit (non-tile) bytes, truncation,
    piece drop / duplicate / swap, tile payload truncation"""
    pk = [dict(p, pieces=list(p['pieces'])) for p in packets]
    for _ in range(n):
        p = r.choice(pk)
        ps = p['pieces']
        if not ps:
            continue
        k = r.random()
        i = r.randrange(len(ps))
        ex = [j for j, (d, el) in enumerate(ps) if not el and d]
        if k < .55 and ex:
            i = r.choice(ex)
            d = bytearray(ps[i][0])
            q = r.randrange(len(d) * 8)
            d[q // 8] ^= 0x80 >> (q % 8)
            ps[i] = (bytes(d), False)
        elif k < .65 and ex:
            i = r.choice(ex)
            d = bytearray(ps[i][0])
            d[r.randrange(len(d))] = r.choice([0, 0xff, 0x80, r.randrange(256)])
            ps[i] = (bytes(d), False)
        elif k < .73:
            del ps[i]
        elif k < .79:
            ps.insert(i, ps[r.randrange(len(ps))])
        elif k < .84:
            j = r.randrange(len(ps)); ps[i], ps[j] = ps[j], ps[i]
        elif k < .92:
            d, el = ps[i]
            ps[i] = (d[:r.randrange(len(d) + 1)], el)
            ps[i + 1:] = ps[i + 1:] if r.random() < .5 else []
        elif k < .96:
            pk.remove(p) if len(pk) > 1 else None
        else:
            j = r.randrange(len(pk)); pk.insert(j, dict(pk[r.randrange(len(pk))]))
    return [p for p in pk if packet_bytes(p)]


def obus_of(p):
    """the OBUs of a packet, as lists of pieces"""
    st = p['starts'] + [len(p['pieces'])]
    return [p['pieces'][a:b] for a, b in zip(st, st[1:])]


def packet(obus, **props):
    pieces, starts = [], []
    for o in obus:
        starts.append(len(pieces)); pieces += o
    return dict(pieces=pieces, starts=starts, **props)


def resplit(r, packets, p_cut=0.4, props=None):
    """the same OBUs in other packets (cut at unit boundaries only)"""
    out, cur, k = [], [], 0
    def flush():
        nonlocal cur, k
        if cur:
            k += 1
            out.append(packet(cur, **(props(k) if props else dict(ts=k * 5, dur=1, poff=k, psz=-1, ud=k + 500))))
        cur = []
    for p in packets:
        for o in obus_of(p):
            cur.append(o)
            if r.random() < p_cut:
                flush()
    flush()
    return out

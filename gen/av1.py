"""AV1 bitstream writer: sequence headers, frame headers, tile groups, metadata.

The writer follows the AV1 syntax (section 5 of the AV1 specification).  It keeps
just enough state (reference slots) to know which syntax elements are present.
It is *not* the oracle: the oracle is the TLA+ specification, which parses the
written bytes again, independently.
"""
import copy, hashlib

KEY, INTER, INTRA, SWITCH = 0, 1, 2, 3
OBU_SEQ, OBU_TD, OBU_FH, OBU_TG, OBU_META, OBU_FRAME, OBU_RFH, OBU_TL, OBU_PAD = 1, 2, 3, 4, 5, 6, 7, 8, 15
PRIMARY_NONE = 7


class BitW:
    def __init__(self):
        self.b = []

    def u(self, n, v):
        assert 0 <= v < (1 << n), (n, v)
        for i in range(n - 1, -1, -1):
            self.b.append((v >> i) & 1)

    def su(self, n, v):
        self.u(n, v & ((1 << n) - 1))

    def ns(self, n, v):
        # non-symmetric, value in 0..n-1
        w = n.bit_length()
        m = (1 << w) - n
        if v < m:
            self.u(w - 1, v)
        else:
            x = v + m
            self.u(w - 1, x >> 1)
            self.u(1, x & 1)

    def uvlc(self, v):
        v += 1
        n = v.bit_length() - 1
        for _ in range(n):
            self.u(1, 0)
        self.u(1, 1)
        self.u(n, v - (1 << n))

    def align(self):
        while len(self.b) % 8:
            self.b.append(0)

    def trailing(self):
        self.b.append(1)
        self.align()

    def bytes(self):
        assert len(self.b) % 8 == 0
        out = bytearray()
        for i in range(0, len(self.b), 8):
            v = 0
            for k in self.b[i:i + 8]:
                v = v * 2 + k
            out.append(v)
        return bytes(out)


def leb128(v, pad=0):
    out = []
    while True:
        b = v & 0x7f
        v >>= 7
        if v or pad > len(out) + 1:
            out.append(b | 0x80)
        else:
            out.append(b)
            break
    return bytes(out)


def obu(typ, payload, ext=None, has_size=True, forbidden=0, reserved=0, pad=0):
    h = (forbidden << 7) | (typ << 3) | ((ext is not None) << 2) | (has_size << 1) | reserved
    out = bytes([h])
    if ext is not None:
        t, s = ext
        out += bytes([(t << 5) | (s << 3)])
    if has_size:
        out += leb128(len(payload), pad)
    return out + payload


# ---------------------------------------------------------------- sequence

def default_seq(**kw):
    s = dict(profile=0, still=0, reduced=0, timing=None, dm=None, display_model=0,
             ops=[dict(idc=0, lvl=(2, 0), tier=0, dm=None, disp=None)],
             wbits=16, hbits=16, w=64, h=64, fid=None, sb128=0, filter_intra=1, intra_edge=1,
             inter_intra=1, masked=1, warped=1, dual=1, order_hint=1, jnt=1, rmvs=1,
             sct=2, fimv=2, oh_bits=7, super_res=0, cdef=1, restoration=1,
             hbd=0, mono=0, cdesc=None, range=0, ss=(1, 1), chr=0, sepuv=0, grain=0)
    s.update(kw)
    return s


def seq_bits(s):
    w = BitW()
    w.u(3, s['profile'])
    w.u(1, s['still'])
    w.u(1, s['reduced'])
    if s['reduced']:
        w.u(3, s['ops'][0]['lvl'][0] % 8)
        w.u(2, s['ops'][0]['lvl'][1])
    else:
        t = s['timing']
        w.u(1, t is not None)
        if t is not None:
            w.u(32, t['tick']); w.u(32, t['scale'])
            w.u(1, t['equal'] is not None)
            if t['equal'] is not None:
                w.uvlc(t['equal'])
            w.u(1, s['dm'] is not None)
            if s['dm'] is not None:
                d = s['dm']
                w.u(5, d['edbl'] - 1); w.u(32, d['tick']); w.u(5, d['brl'] - 1); w.u(5, d['fpl'] - 1)
        w.u(1, s['display_model'])
        w.u(5, len(s['ops']) - 1)
        for o in s['ops']:
            w.u(12, o['idc'])
            w.u(3, o['lvl'][0] - 2); w.u(2, o['lvl'][1])
            if o['lvl'][0] > 3:
                w.u(1, o['tier'])
            if s['dm'] is not None and s['timing'] is not None:
                w.u(1, o['dm'] is not None)
                if o['dm'] is not None:
                    n = s['dm']['edbl']
                    w.u(n, o['dm'][0] % (1 << n)); w.u(n, o['dm'][1] % (1 << n)); w.u(1, o['dm'][2])
            if s['display_model']:
                w.u(1, o['disp'] is not None)
                if o['disp'] is not None:
                    w.u(4, o['disp'] - 1)
    w.u(4, s['wbits'] - 1); w.u(4, s['hbits'] - 1)
    w.u(s['wbits'], s['w'] - 1); w.u(s['hbits'], s['h'] - 1)
    if not s['reduced']:
        w.u(1, s['fid'] is not None)
        if s['fid'] is not None:
            d, n = s['fid']
            w.u(4, d - 2); w.u(3, n - d - 1)
    w.u(1, s['sb128']); w.u(1, s['filter_intra']); w.u(1, s['intra_edge'])
    if not s['reduced']:
        w.u(1, s['inter_intra']); w.u(1, s['masked']); w.u(1, s['warped']); w.u(1, s['dual'])
        w.u(1, s['order_hint'])
        if s['order_hint']:
            w.u(1, s['jnt']); w.u(1, s['rmvs'])
        if s['sct'] == 2:
            w.u(1, 1)
        else:
            w.u(1, 0); w.u(1, s['sct'])
        if s['sct']:
            if s['fimv'] == 2:
                w.u(1, 1)
            else:
                w.u(1, 0); w.u(1, s['fimv'])
        if s['order_hint']:
            w.u(3, s['oh_bits'] - 1)
    w.u(1, s['super_res']); w.u(1, s['cdef']); w.u(1, s['restoration'])
    w.u(1, 1 if s['hbd'] else 0)
    if s['profile'] == 2 and s['hbd']:
        w.u(1, s['hbd'] - 1)
    if s['profile'] != 1:
        w.u(1, s['mono'])
    w.u(1, s['cdesc'] is not None)
    pri = trc = mtrx = 2
    if s['cdesc'] is not None:
        pri, trc, mtrx = s['cdesc']
        w.u(8, pri); w.u(8, trc); w.u(8, mtrx)
    if s['mono']:
        w.u(1, s['range'])
    elif (pri, trc, mtrx) == (1, 13, 0):
        pass
    else:
        w.u(1, s['range'])
        if s['profile'] == 2 and s['hbd'] == 2:
            w.u(1, s['ss'][0])
            if s['ss'][0]:
                w.u(1, s['ss'][1])
        if seq_ss(s) == (1, 1):
            w.u(2, s['chr'])
    if not s['mono']:
        w.u(1, s['sepuv'])
    w.u(1, s['grain'])
    return w


def seq_ss(s):
    if s['mono']:
        return (1, 1)
    if s['cdesc'] == (1, 13, 0):
        return (0, 0)
    if s['profile'] == 0:
        return (1, 1)
    if s['profile'] == 1:
        return (0, 0)
    if s['hbd'] == 2:
        return s['ss'] if s['ss'][0] else (0, 0)
    return (1, 0)


def seq_obu(s, **kw):
    w = seq_bits(s)
    w.trailing()
    return obu(OBU_SEQ, w.bytes(), **kw)


# ---------------------------------------------------------------- frames

def poc_diff(n, a, b):
    if not n:
        return 0
    d = (a - b) % (1 << n)
    return d - (1 << n) if d >= (1 << (n - 1)) else d


def tile_log2(sz, tgt):
    k = 0
    while (sz << k) < tgt:
        k += 1
    return k


DEFAULT_LFD = [1, 0, 0, 0, -1, 0, -1, -1, 0, 0]
DEFAULT_GMV = [(0, [0, 0, 65536, 0, 0, 65536])] * 7
SEG0 = dict(d=[[0, 0, 0, 0, 0, -1, 0, 0] for _ in range(8)])


def short_refs(s, refs, foff, a, b):
    """section 7.8 set_frame_refs"""
    n = s['oh_bits']
    cur = 1 << (n - 1)
    sh = [cur + poc_diff(n, refs[i]['foff'] if refs[i] else 0, foff) for i in range(8)]
    used = [False] * 8
    idx = [a, -1, -1, b, -1, -1, -1]
    used[a] = used[b] = True

    def pick(cond, better):
        r = -1
        for i in range(8):
            if not used[i] and cond(sh[i]) and (r < 0 or better(sh[i], sh[r])):
                r = i
        return r
    r = pick(lambda h: h >= cur, lambda x, y: x >= y)
    if r >= 0:
        idx[6] = r; used[r] = True
    for k in (4, 5):
        r = pick(lambda h: h >= cur, lambda x, y: x < y)
        if r >= 0:
            idx[k] = r; used[r] = True
    for k in range(1, 7):
        if idx[k] < 0:
            r = pick(lambda h: h < cur, lambda x, y: x >= y)
            if r >= 0:
                idx[k] = r; used[r] = True
    r = min(range(8), key=lambda i: (sh[i], i))
    return [x if x >= 0 else r for x in idx]


def write_subexp(w, ref, n, v):
    """write signed value v with reference ref, n bits (decode_signed_subexp_with_ref)"""
    mx = 2 << n
    r = ref + (1 << n)
    x = v + (1 << n)
    assert 0 <= x <= mx and 0 <= r <= mx, (ref, n, v)

    def recenter(r, x):
        if x > 2 * r:
            return x
        if x >= r:
            return (x - r) * 2
        return (r - x) * 2 - 1
    if r * 2 <= mx:
        c = recenter(r, x)
    else:
        c = recenter(mx - r, mx - x)
    i = 0
    base = 0
    while True:
        b = 3 + i - 1 if i else 3
        if mx < base + 3 * (1 << b):
            w.ns(mx - base + 1, c - base)
            return
        if c < base + (1 << b):
            w.u(1, 0)
            w.u(b, c - base)
            return
        w.u(1, 1)
        base += 1 << b
        i += 1


class Frame:
    """syntax-level description of one frame; missing entries take neutral values"""
    def __init__(self, **kw):
        self.k = kw

    def get(self, n, d=0):
        v = self.k.get(n)
        return d if v is None else v


def frame_hdr(s, refs, f, tid=0, sid=0):
    """returns (BitW without trailing bits, state dict of the frame for the reference slots)"""
    w = BitW()
    g = f.get
    st = dict(tid=tid, sid=sid)
    if not s['reduced']:
        w.u(1, 1 if g('show_existing') else 0)
        if g('show_existing'):
            w.u(3, g('existing_idx'))
            if s['dm'] and s['timing'] and s['timing']['equal'] is None:
                w.u(s['dm']['fpl'], g('fpd') % (1 << s['dm']['fpl']))
            if s['fid']:
                w.u(s['fid'][1], g('frame_id') % (1 << s['fid'][1]))
            return w, dict(show_existing=1, idx=g('existing_idx'))
    dm = s['dm'] if s['timing'] else None
    ft = KEY if s['reduced'] else g('type', KEY)
    st['type'] = ft
    isintra = ft in (KEY, INTRA)
    show = 1 if s['reduced'] else g('show', 1)
    if not s['reduced']:
        w.u(2, ft); w.u(1, show)
    if show:
        if dm and s['timing']['equal'] is None and not s['reduced']:
            w.u(dm['fpl'], g('fpd') % (1 << dm['fpl']))
        showable = ft != KEY
    else:
        showable = g('showable')
        w.u(1, showable)
    st['show'], st['showable'] = show, int(showable)
    if (ft == KEY and show) or ft == SWITCH or s['reduced']:
        err = 1
    else:
        err = g('err'); w.u(1, err)
    dcdf = g('dcdf'); w.u(1, dcdf)
    if s['sct'] == 2 or s['reduced']:
        sct = g('sct'); w.u(1, sct)
    else:
        sct = s['sct']
    sfimv = 2 if s['reduced'] else (s['fimv'] if s['sct'] else 2)
    fimv = 0
    if sct:
        if sfimv == 2:
            fimv = g('fimv'); w.u(1, fimv)
        else:
            fimv = sfimv
    if isintra:
        fimv = 1
    if s['fid'] and not s['reduced']:
        st['frame_id'] = g('frame_id') % (1 << s['fid'][1])
        w.u(s['fid'][1], st['frame_id'])
    fso = 0
    if not s['reduced']:
        if ft == SWITCH:
            fso = 1
        else:
            fso = g('fso'); w.u(1, fso)
    oh = s['order_hint'] and not s['reduced']
    st['foff'] = 0
    if oh:
        st['foff'] = g('foff') % (1 << s['oh_bits']); w.u(s['oh_bits'], st['foff'])
    prim = PRIMARY_NONE
    if not err and not isintra:
        prim = g('prim', PRIMARY_NONE); w.u(3, prim)
    if dm and not s['reduced']:
        brt = g('brt', None)
        w.u(1, brt is not None)
        if brt is not None:
            for o in s['ops']:
                if o['dm'] is not None:
                    if not o['idc'] or ((o['idc'] >> tid) & 1 and (o['idc'] >> (sid + 8)) & 1):
                        w.u(dm['brl'], brt % (1 << dm['brl']))
    ibc = 0
    hp = 0
    refidx = [0] * 7

    def superres():
        den = 8
        if s['super_res']:
            if g('sr_den', 8) != 8:
                w.u(1, 1); den = g('sr_den'); w.u(3, den - 9)
            else:
                w.u(1, 0)
        st['den'] = den
        w1 = st['w1']
        st['w0'] = max((w1 * 8 + (den >> 1)) // den, min(16, w1)) if den != 8 else w1

    def frame_size():
        if fso:
            st['w1'], st['h'] = g('w', s['w']), g('h', s['h'])
            w.u(s['wbits'], st['w1'] - 1); w.u(s['hbits'], st['h'] - 1)
        else:
            st['w1'], st['h'] = s['w'], s['h']
        superres()
        rs = g('render', None)
        w.u(1, rs is not None)
        if rs is not None:
            w.u(16, rs[0] - 1); w.u(16, rs[1] - 1)
            st['rw'], st['rh'] = rs
        else:
            st['rw'], st['rh'] = st['w1'], st['h']

    if isintra:
        if ft == KEY and show:
            refresh = 0xff
        else:
            refresh = g('refresh'); w.u(8, refresh)
        if refresh != 0xff and err and oh:
            for i in range(8):
                w.u(s['oh_bits'], refs[i]['foff'] % (1 << s['oh_bits']) if refs[i] else 0)
        frame_size()
        if sct and st['den'] == 8:
            ibc = g('ibc'); w.u(1, ibc)
    else:
        if ft == SWITCH:
            refresh = 0xff
        else:
            refresh = g('refresh'); w.u(8, refresh)
        if err and oh:
            for i in range(8):
                w.u(s['oh_bits'], refs[i]['foff'] % (1 << s['oh_bits']) if refs[i] else 0)
        short = 0
        if oh:
            short = 1 if g('short', None) is not None else 0
            w.u(1, short)
        if short:
            a, b = g('short')
            w.u(3, a); w.u(3, b)
            refidx = short_refs(s, refs, st['foff'], a, b)
        else:
            refidx = list(g('refidx', [0] * 7))
        for i in range(7):
            if not short:
                w.u(3, refidx[i])
            if s['fid']:
                d, n = s['fid']
                rid = refs[refidx[i]].get('frame_id', 0) if refs[refidx[i]] else 0
                delta = (st['frame_id'] - rid - 1) % (1 << n)
                delta = g('delta_fid', delta % (1 << d))
                w.u(d, delta)
        if not err and fso:
            fr = g('from_ref', None)  # index 0..6 or None
            if fr is not None:
                for i in range(fr):
                    w.u(1, 0)
                w.u(1, 1)
                r = refs[refidx[fr]]
                if r:
                    for k in ('w1', 'h', 'rw', 'rh'):
                        st[k] = r[k]
                else:
                    st.update(w1=s['w'], h=s['h'], rw=s['w'], rh=s['h'])
                superres()
            else:
                for i in range(7):
                    w.u(1, 0)
                frame_size()
        else:
            frame_size()
        if not fimv:
            hp = g('hp'); w.u(1, hp)
        flt = g('filt', 4)
        if flt == 4:
            w.u(1, 1)
        else:
            w.u(1, 0); w.u(2, flt)
        w.u(1, g('smm'))
        if not err and s['rmvs'] and oh:
            w.u(1, g('urfm'))
    st['refresh'] = refresh
    st['refidx'] = refidx
    if not s['reduced'] and not dcdf:
        w.u(1, 0 if g('refctx', 1) else 1)
    # tiles
    sbl = 6 + s['sb128']
    sbm = (1 << sbl) - 1
    sbw, sbh = (st['w0'] + sbm) >> sbl, (st['h'] + sbm) >> sbl
    mxw = 4096 >> sbl
    mxa = (4096 * 2304) >> (2 * sbl)
    minlc = tile_log2(mxw, sbw)
    maxlc = tile_log2(1, min(sbw, 64))
    maxlr = tile_log2(1, min(sbh, 64))
    mint = max(tile_log2(mxa, sbw * sbh), minlc)
    tl = g('tiles', (0, 0))  # (log2 cols, log2 rows) or ('n', [widths], [heights])
    if tl[0] != 'n':
        w.u(1, 1)
        lc = min(max(tl[0], minlc), maxlc)
        for i in range(minlc, lc):
            w.u(1, 1)
        if lc < maxlc:
            w.u(1, 0)
        tw = 1 + ((sbw - 1) >> lc)
        cols = (sbw + tw - 1) // tw
        minlr = max(mint - lc, 0)
        lr = min(max(tl[1], minlr), maxlr)
        for i in range(minlr, lr):
            w.u(1, 1)
        if lr < maxlr:
            w.u(1, 0)
        th = 1 + ((sbh - 1) >> lr)
        rows = (sbh + th - 1) // th
    else:
        w.u(1, 0)
        x = cols = 0
        widest = 0
        ws = list(tl[1]) or [1]
        while x < sbw and cols < 64:
            mx = min(sbw - x, mxw)
            t = min(ws[cols % len(ws)], mx)
            if mx > 1:
                w.ns(mx, t - 1)
            x += t; cols += 1
            widest = max(widest, t)
        lc = tile_log2(1, cols)
        area = sbw * sbh
        if mint:
            area >>= mint + 1
        mxh = max(area // widest, 1)
        y = rows = 0
        hs = list(tl[2]) or [1]
        while y < sbh and rows < 64:
            mx = min(sbh - y, mxh)
            t = min(hs[rows % len(hs)], mx)
            if mx > 1:
                w.ns(mx, t - 1)
            y += t; rows += 1
        lr = tile_log2(1, rows)
    st['cols'], st['rows'], st['lc'], st['lr'] = cols, rows, lc, lr
    st['n_bytes'] = 0
    if lc or lr:
        upd = g('tile_update')
        if upd < 0:
            upd = (1 << (lc + lr)) - 1     # possibly invalid on purpose
        else:
            upd = upd % (cols * rows)
        w.u(lc + lr, upd)
        st['n_bytes'] = g('n_bytes', 4)
        w.u(2, st['n_bytes'] - 1)

    def dq(v):
        w.u(1, v != 0)
        if v:
            w.su(7, v)
    # quant
    yac = g('yac', 100)
    q = g('q', (0, 0, 0, 0, 0))
    w.u(8, yac)
    dq(q[0])
    qq = [q[0]]
    if not s['mono']:
        diff = 0
        if s['sepuv']:
            diff = 1 if q[1:3] != q[3:5] else g('qdiff')
            w.u(1, diff)
        dq(q[1]); dq(q[2])
        qq += [q[1], q[2]]
        if diff:
            dq(q[3]); dq(q[4])
            qq += [q[3], q[4]]
    qm = g('qm', None)
    w.u(1, qm is not None)
    if qm is not None:
        w.u(4, qm[0]); w.u(4, qm[1])
        if s['sepuv'] and not s['mono']:
            w.u(4, qm[2])
    # segmentation
    pref = refs[refidx[prim]] if prim != PRIMARY_NONE else None
    seg = g('seg', None)   # None or dict(update_map, temporal, d = list of 8 lists or None)
    w.u(1, seg is not None)
    st['seg'] = SEG0
    if seg is not None:
        if prim == PRIMARY_NONE:
            upd_data = 1
        else:
            w.u(1, seg.get('update_map', 1))
            if seg.get('update_map', 1):
                w.u(1, seg.get('temporal', 0))
            upd_data = 1 if seg.get('d') is not None else 0
            w.u(1, upd_data)
        if upd_data:
            d = seg.get('d') or [[0, 0, 0, 0, 0, -1, 0, 0] for _ in range(8)]
            for e in d:
                for k, n in ((0, 9), (1, 7), (2, 7), (3, 7), (4, 7)):
                    w.u(1, e[k] != 0)
                    if e[k]:
                        w.su(n, e[k])
                w.u(1, e[5] >= 0)
                if e[5] >= 0:
                    w.u(3, e[5])
                w.u(1, e[6]); w.u(1, e[7])
            st['seg'] = dict(d=d)
        elif pref:
            st['seg'] = pref['seg']
    # delta q / lf
    dqp = 0
    if yac:
        dqp = g('dq_present'); w.u(1, dqp)
        if dqp:
            w.u(2, g('dq_res'))
            if not ibc:
                w.u(1, g('dlf_present'))
                if g('dlf_present'):
                    w.u(2, g('dlf_res')); w.u(1, g('dlf_multi'))
    lossless = True
    for i in range(8):
        qi = min(max(yac + (st['seg']['d'][i][0] if seg is not None else 0), 0), 255)
        if qi or any(qq):
            lossless = False
    st['lossless'] = lossless
    # loop filter
    st['lfd'] = list(DEFAULT_LFD)
    if not (lossless or ibc):
        lf = g('lf', (0, 0, 0, 0))
        w.u(6, lf[0]); w.u(6, lf[1])
        if not s['mono'] and (lf[0] or lf[1]):
            w.u(6, lf[2]); w.u(6, lf[3])
        w.u(3, g('sharp'))
        if pref:
            st['lfd'] = list(pref['lfd'])
        w.u(1, g('lfd_en'))
        if g('lfd_en'):
            nd = g('lfd', None)
            w.u(1, nd is not None)
            if nd is not None:
                for i in range(10):
                    c = nd[i] is not None
                    w.u(1, c)
                    if c:
                        w.su(7, nd[i]); st['lfd'][i] = nd[i]
    # cdef
    if not lossless and s['cdef'] and not ibc:
        cd = g('cdef', (3, [(0, 0)]))
        n = {1: 0, 2: 1, 4: 2, 8: 3}[len(cd[1])]
        w.u(2, cd[0] - 3); w.u(2, n)
        for y, uv in cd[1]:
            w.u(6, y)
            if not s['mono']:
                w.u(6, uv)
    # restoration
    if (not lossless or st['den'] != 8) and s['restoration'] and not ibc:
        lr_ = g('rest', (0, 0, 0))
        w.u(2, lr_[0])
        types = [lr_[0]]
        if not s['mono']:
            w.u(2, lr_[1]); w.u(2, lr_[2])
            types += [lr_[1], lr_[2]]
        if any(types):
            us = g('rest_unit', (0, 0))
            if s['sb128']:
                w.u(1, us[0] > 0)
            else:
                w.u(1, us[0] > 0)
                if us[0] > 0:
                    w.u(1, us[0] > 1)
            if any(types[1:]) and seq_ss(s) == (1, 1):
                w.u(1, us[1])
    if not lossless:
        w.u(1, g('txsel'))
    scr = 0
    if not isintra:
        scr = g('scr'); w.u(1, scr)
    skip_allowed = 0
    if scr and oh:
        n = s['oh_bits']
        before = after = before2 = None
        for i in range(7):
            r = refs[refidx[i]]
            p = r['foff'] if r else 0
            d = poc_diff(n, p, st['foff'])
            if d > 0:
                if after is None or poc_diff(n, after, p) > 0:
                    after = p
            elif d < 0:
                if before is None or poc_diff(n, p, before) > 0:
                    before = p
        if before is not None and after is not None:
            skip_allowed = 1
        elif before is not None:
            for i in range(7):
                r = refs[refidx[i]]
                p = r['foff'] if r else 0
                if poc_diff(n, p, before) < 0:
                    skip_allowed = 1
    if skip_allowed:
        w.u(1, g('skip_mode'))
    if not err and not isintra and s['warped'] and not s['reduced']:
        w.u(1, g('warp'))
    w.u(1, g('rtxs'))
    # gmv
    st['gmv'] = [(t, list(m)) for t, m in DEFAULT_GMV]
    if not isintra:
        gm = g('gmv', [(0, None)] * 7)
        for i in range(7):
            t, vals = gm[i]
            if t == 0:
                w.u(1, 0); continue
            w.u(1, 1)
            if t == 2:
                w.u(1, 1)
            else:
                w.u(1, 0)
                w.u(1, 1 if t == 1 else 0)
            base = pref['gmv'][i][1] if pref else DEFAULT_GMV[0][1]
            m = [0, 0, 65536, 0, 0, 65536]
            v = vals  # 6 raw coded values (before scaling)
            if t >= 2:
                write_subexp(w, (base[2] - 65536) >> 1, 12, v[2]); m[2] = 65536 + 2 * v[2]
                write_subexp(w, base[3] >> 1, 12, v[3]); m[3] = 2 * v[3]
                bits, shift = 12, 10
            else:
                bits, shift = 9 - (not hp), 13 + (not hp)
            if t == 3:
                write_subexp(w, base[4] >> 1, 12, v[4]); m[4] = 2 * v[4]
                write_subexp(w, (base[5] - 65536) >> 1, 12, v[5]); m[5] = 65536 + 2 * v[5]
            else:
                m[4] = -m[3]; m[5] = m[2]
            lim = 1 << bits
            v0 = max(-lim, min(lim, v[0])); v1 = max(-lim, min(lim, v[1]))
            write_subexp(w, base[0] >> shift, bits, v0); m[0] = v0 << shift
            write_subexp(w, base[1] >> shift, bits, v1); m[1] = v1 << shift
            st['gmv'][i] = (t, m)
    # film grain
    if s['grain'] and (show or showable):
        fg = g('fg', None)
        w.u(1, fg is not None)
        if fg is not None:
            w.u(16, fg['seed'])
            upd = 1
            if ft == INTER:
                upd = 0 if fg.get('from') is not None else 1
                w.u(1, upd)
            if not upd:
                w.u(3, fg['from'])
            else:
                w.u(4, len(fg['y']))
                for a, b in fg['y']:
                    w.u(8, a); w.u(8, b)
                csl = 0
                if not s['mono']:
                    csl = fg['csl']; w.u(1, csl)
                uv = [[], []]
                ss = seq_ss(s)
                if s['mono'] or csl or (ss == (1, 1) and not fg['y']):
                    pass
                else:
                    uv = fg['uv']
                    for pl in range(2):
                        w.u(4, len(uv[pl]))
                        for a, b in uv[pl]:
                            w.u(8, a); w.u(8, b)
                w.u(2, fg['sshift'] - 8)
                lag = fg['lag']
                w.u(2, lag)
                npos = 2 * lag * (lag + 1)
                if fg['y']:
                    for i in range(npos):
                        w.u(8, fg['ary'][i])
                for pl in range(2):
                    if uv[pl] or csl:
                        for i in range(npos + (1 if fg['y'] else 0)):
                            w.u(8, fg['aruv'][pl][i])
                w.u(2, fg['arshift'] - 6); w.u(2, fg['gss'])
                for pl in range(2):
                    if uv[pl]:
                        w.u(8, fg['uvm'][pl][0]); w.u(8, fg['uvm'][pl][1]); w.u(9, fg['uvm'][pl][2])
                w.u(1, fg['overlap']); w.u(1, fg['clip'])
    return w, st


# ---------------------------------------------------------------- stream builder

class Builder:
    """Builds packets (temporal units) and keeps the reference slots.

    A packet is a list of pieces; each piece is (bytes, elide) where elide marks
    opaque tile payload (identified by its hash in the trace, not by its bytes)."""

    def __init__(self, rng, seq):
        self.rng = rng
        self.seq = seq
        self.refs = [None] * 8
        self.pieces = []
        self.starts = []         # indices of pieces that begin an OBU
        self.packets = []

    # -- raw output
    def raw(self, b, elide=False, cont=False):
        if b:
            if not cont:
                self.starts.append(len(self.pieces))
            self.pieces.append((bytes(b), elide))

    def put_obu(self, typ, chunks, ext=None, has_size=True, **kw):
        """chunks: list of (bytes, elide)"""
        n = sum(len(c[0]) for c in chunks)
        hdr = obu(typ, b'', ext=ext, has_size=False, **{k: v for k, v in kw.items() if k != 'pad'})
        hdr = bytes([hdr[0] | (0x02 if has_size else 0)]) + hdr[1:]
        if has_size:
            hdr += leb128(n, kw.get('pad', 0))
        self.raw(hdr)
        for c in chunks:
            self.raw(*c, cont=True)

    def end_packet(self, **props):
        self.packets.append(dict(pieces=self.pieces, starts=self.starts, **props))
        self.pieces = []
        self.starts = []

    def td(self, **kw):
        self.raw(obu(OBU_TD, b'', **kw))

    def seqhdr(self, **kw):
        self.raw(seq_obu(self.seq, **kw))

    # -- frames
    def payload(self, n):
        return self.rng.randbytes(n)

    def refresh(self, st):
        if st.get('show_existing'):
            r = self.refs[st['idx']]
            if r and r['type'] == KEY:
                self.refs = [r] * 8
            return
        for i in range(8):
            if (st['refresh'] >> i) & 1:
                self.refs[i] = st

    def tile_chunks(self, st, tiles, start, end, have_pos=None, bad_size=None):
        """tile group payload for tiles start..end; tiles is list of bytes"""
        w = BitW()
        n = st['cols'] * st['rows']
        if n > 1:
            hp = 1 if (start, end) != (0, n - 1) else 0
            if have_pos is not None:
                hp = have_pos
            w.u(1, hp)
            if hp:
                w.u(st['lc'] + st['lr'], start); w.u(st['lc'] + st['lr'], end)
        w.align()
        out = [(w.bytes(), False)]
        for t in range(start, end + 1):
            if t != end:
                sz = len(tiles[t]) - 1
                if bad_size is not None and t == bad_size:
                    sz = (1 << (8 * st['n_bytes'])) - 1
                out.append((sz.to_bytes(st['n_bytes'], 'little'), False))
            out.append((tiles[t], True))
        return out

    def frame(self, f, tid=0, sid=0, ext=False, mode='frame', splits=None, tile_bytes=None,
              tiles=None, bad_size=None, upd=True, redundant=0, elide=True, **kw):
        """mode: 'frame' (one OBU_FRAME), 'split' (FRAME_HDR + tile groups)"""
        w, st = frame_hdr(self.seq, self.refs, f, tid, sid)
        e = (tid, sid) if ext else None
        if st.get('show_existing'):
            w.trailing()
            self.raw(obu(OBU_FH, w.bytes(), ext=e))
            self.refresh(st)
            return st
        n = st['cols'] * st['rows']
        if tiles is None:
            tiles = [self.payload(tile_bytes(st, t) if callable(tile_bytes) else (tile_bytes or 600))
                     for t in range(n)]
            st['tiles'] = tiles
        el = elide
        if mode == 'frame':
            w.align()
            s0 = splits[0] if splits else n - 1
            ch = [(w.bytes(), False)] + self.tile_chunks(st, tiles, 0, s0, bad_size=bad_size)
            self.put_obu(OBU_FRAME, [(c, x and el) for c, x in ch], ext=e, **kw)
            first = s0 + 1
        else:
            w.trailing()
            hb = w.bytes()
            self.raw(obu(OBU_FH, hb, ext=e))
            for _ in range(redundant):
                self.raw(obu(OBU_RFH, hb, ext=e))
            first = 0
        if mode != 'frame' or first < n:
            ends = [x for x in (splits or []) if x >= first] or []
            if not ends or ends[-1] != n - 1:
                ends.append(n - 1)
            for en in ends:
                ch = self.tile_chunks(st, tiles, first, en, bad_size=bad_size)
                self.put_obu(OBU_TG, [(c, x and el) for c, x in ch], ext=e, **kw)
                first = en + 1
        if upd:
            self.refresh(st)
        return st

    # -- metadata
    def cll(self, a, b, **kw):
        w = BitW(); w.u(8, 1); w.u(16, a); w.u(16, b); w.trailing()
        self.raw(obu(OBU_META, w.bytes(), **kw))

    def mdcv(self, vals, mx, mn, **kw):
        w = BitW(); w.u(8, 2)
        for v in vals:
            w.u(16, v)
        w.u(32, mx); w.u(32, mn); w.trailing()
        self.raw(obu(OBU_META, w.bytes(), **kw))

    def t35(self, cc, ext, payload, tail=b'\x80', **kw):
        b = bytes([4, cc]) + (bytes([ext]) if cc == 255 else b'') + payload + tail
        self.raw(obu(OBU_META, b, **kw))


def packet_bytes(p):
    return b''.join(b for b, _ in p['pieces'])


def packet_segs(p, full=False):
    """trace form: list of {o, d} (explicit bytes) and {o, n, h} (opaque)"""
    segs = []
    o = 0
    for b, el in p['pieces']:
        if el and not full:
            segs.append(dict(o=o, n=len(b), h=hashlib.sha1(b).hexdigest()[:12], d=[]))
        else:
            if segs and segs[-1]['h'] == '' and segs[-1]['o'] + segs[-1]['n'] == o:
                segs[-1]['d'] += list(b); segs[-1]['n'] += len(b)
            else:
                segs.append(dict(o=o, n=len(b), h='', d=list(b)))
        o += len(b)
    return segs

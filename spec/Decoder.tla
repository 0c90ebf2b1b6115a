------------------------------- MODULE Decoder -------------------------------
(* The dav1d decoding library as a state machine over its public API calls.
   The state is one record c; every API call is a total function from the state
   to the next state (its result is c.res).
   The only freedom is the outcome of entropy decoding (does a frame's tile data
   run out?), which is not modelled: it is a function of the frame's inputs (the
   "term"), shared by all runs over a packet list through the table c.tab.

   Frame threading (nfc > 1) is a ring of nfc slots: submitting a frame retires
   the oldest slot, draining retires all of them in order. *)
EXTENDS Av1Syntax

EAGAIN == -11  ENOMEM == -12  EINVAL == -22  ERANGE == -34
F_SEQ == 1  F_OP == 2  F_TU == 4
Or(a, b) == LET g(n) == IF Bit(a, n) = 1 \/ Bit(b, n) = 1 THEN P2(n) ELSE 0 IN g(0) + g(1) + g(2)

NoProps == <<-1, 0, -1, 0, -1, -1>>          \* timestamp, duration, offset, size, user data, owner
NoPic == [d |-> 0, t |-> 0, inst |-> 0, sh |-> SeqZero, fh |-> FhZero, w |-> 0, buf |-> -1, m |-> NoProps, cll |-> <<>>,
          mdcv |-> <<>>, t35 |-> <<>>, flags |-> 0, vis |-> 0, showable |-> 0, taint |-> FALSE]
(* reference slot: h = header known, p = picture (p.d = picture data present) *)
NoRef == [h |-> FALSE, p |-> NoPic]
NoSlot == [p |-> NoPic, err |-> FALSE, live |-> 0, w |-> {}, bufs |-> {}, ud |-> {}, oc |-> "ok"]

Fresh(cfg, tab) ==
  [cfg |-> cfg, seq |-> None, opidc |-> 0, maxsid |-> 0, fh |-> None, tiles |-> <<>>, nt |-> 0,
   mdcv |-> <<>>, cll |-> <<>>, t35 |-> <<>>, ff |-> 0, ef |-> 0, refs |-> [i \in 1..8 |-> NoRef],
   in |-> None, cerr |-> 0, cprops |-> NoProps, out |-> NoPic, cache |-> NoPic, drain |-> 0,
   slots |-> [i \in 1..cfg.nfc |-> NoSlot], next |-> 1, ninst |-> 0, bad |-> {}, idg |-> <<>>,
   tab |-> tab, orc |-> 0, unk |-> 0, nal |-> 0, al |-> <<>>, res |-> 0, why |-> "", outp |-> NoPic]

Fail(c, r, why) == [c EXCEPT !.res = r, !.why = why]

(* ------------------------------------------------------------------- terms *)
Norm(c, fh) ==
  LET ilf == c.cfg.ilf
      a == IF Bit(ilf, 0) = 1 THEN fh ELSE [fh EXCEPT !.lf = Zeros(4)]
  IN IF Bit(ilf, 1) = 1 THEN a ELSE [a EXCEPT !.cdef_y = Zeros(8), !.cdef_uv = Zeros(8)]
LrOff(c, fh) == Bit(c.cfg.ilf, 2) = 0 /\ fh.rest # Zeros(3)
(* id of the term with this key; table entries are [key, dg, oc (lenient), ocs (strict)] *)
TermId(tab, key) == SelectInSeq(tab, LAMBDA x : x.key = key)
Intern(c, key) ==
  LET k == TermId(c.tab, key) IN
  IF k # 0 THEN <<c, k>>
  ELSE <<[c EXCEPT !.tab = Append(@, [key |-> key, dg |-> "", dp |-> <<>>, oc |-> "", ocs |-> ""])], Len(c.tab) + 1>>
GetOc(c, t) == IF c.cfg.strict = 1 THEN c.tab[t].ocs ELSE c.tab[t].oc
SetOc(c, t, v) == IF c.cfg.strict = 1 THEN [c EXCEPT !.tab[t].ocs = v] ELSE [c EXCEPT !.tab[t].oc = v]

(* content of bytes b..b+n-1 of packet pk, independent of how they are framed *)
Content(pk, b, n) ==
  FoldLeft(LAMBDA acc, s :
    LET lo == Mx(b, s.o)  hi == Mn(b + n, s.o + s.n) IN
    IF lo >= hi THEN acc
    ELSE IF s.h # "" THEN Append(acc, <<s.h, lo - s.o, hi - lo>>)
    ELSE LET by == SubSeq(s.d, lo - s.o + 1, hi - s.o) IN
         IF acc # <<>> /\ acc[Len(acc)][1] = "" THEN [acc EXCEPT ![Len(acc)] = <<"", @[2] \o by>>]
         ELSE Append(acc, <<"", by>>), <<>>, pk)

(* split one tile group into its tiles; <<ok, contents>> *)
RECURSIVE TileLoop(_, _, _, _, _, _)
TileLoop(pk, b, n, cnt, nby, acc) ==
  IF cnt = 1 THEN <<TRUE, Append(acc, Content(pk, b, n))>>
  ELSE IF nby > n THEN <<FALSE, acc>>
  ELSE LET le(i) == PkByte(pk, b + i)
           top == IF nby = 4 THEN le(3) ELSE 0
           sz == IF top >= 64 THEN 1073741824
                 ELSE 1 + le(0) + (IF nby > 1 THEN 256 * le(1) ELSE 0) + (IF nby > 2 THEN 65536 * le(2) ELSE 0)
                      + 16777216 * top
       IN IF sz > n - nby THEN <<FALSE, acc>>
          ELSE TileLoop(pk, b + nby + sz, n - nby - sz, cnt - 1, nby, Append(acc, Content(pk, b + nby, sz)))
TileKeys(tiles, nby) ==
  FoldLeft(LAMBDA acc, g : IF ~acc[1] THEN acc
             ELSE LET r == TileLoop(g.pk, g.b, g.n, g.end - g.start + 1, nby, <<>>) IN <<r[1], acc[2] \o r[2]>>,
           <<TRUE, <<>>>>, tiles)

(* --------------------------------------------------------- picture buffers *)
(* one allocator call; <<state, id, ok>> *)
Alloc(c, w, h, lay, bpc) ==
  LET id == c.nal
      ok == ~(c.cfg.afail >= 0 /\ id >= c.cfg.afail /\ id < c.cfg.afail + c.cfg.afailn)
  IN IF c.cfg.custom = 0 THEN <<c, -1, TRUE>>
     ELSE <<[c EXCEPT !.nal = @ + 1, !.al = Append(@, <<w, h, lay, bpc, id>>)], id, ok>>

HasGrain(p) == p.fh.fg.ny # 0 \/ p.fh.fg.nuv[1] # 0 \/ p.fh.fg.nuv[2] # 0 \/ (p.fh.fg.clip = 1 /\ p.fh.fg.csl = 1)

(* apply_grain: <<state, picture, result>> *)
Bpc(p) == 8 + 2 * p.sh.hbd
Lay(sh) == IF sh.monochrome = 1 THEN 0 ELSE sh.layout
ApplyGrain(c, p) ==
  IF ~HasGrain(p) THEN <<c, p, 0>>
  ELSE LET a == Alloc(c, p.w, p.fh.height, Lay(p.sh), Bpc(p))
           k == IF p.taint THEN <<a[1], 0>> ELSE Intern(a[1], <<"g", p.t>>)
       IN IF ~a[3] THEN <<a[1], NoPic, ENOMEM>>
          ELSE <<k[1], [p EXCEPT !.buf = a[2], !.t = k[2]], 0>>

(* --------------------------------------------------------------- output *)
Layered(c) == c.cfg.all = 0 /\ c.maxsid > 0
(* output_picture_ready: <<state, ready>> *)
Ready(c, drain) ==
  IF c.cerr # 0 THEN <<c, TRUE>>
  ELSE IF ~Layered(c) THEN <<c, c.out.d = 1>>
  ELSE IF c.out.d = 1 /\ c.cache.d = 1
       THEN IF c.maxsid = c.cache.fh.spatial_id \/ Bit(c.out.flags, 2) = 1 THEN <<c, TRUE>>
            ELSE <<[c EXCEPT !.cache = c.out, !.out = NoPic], FALSE>>
  ELSE IF c.cache.d = 1 /\ drain THEN <<c, TRUE>>
  ELSE IF c.out.d = 1 THEN <<[c EXCEPT !.cache = c.out, !.out = NoPic], FALSE>>
  ELSE <<c, FALSE>>
(* output_image: the picture handed to the user is c.outp *)
OutputImage(c) ==
  LET l == Layered(c)
      p == IF l THEN c.cache ELSE c.out
      g == IF c.cfg.grain = 1 THEN ApplyGrain(c, p) ELSE <<c, p, 0>>
      a == IF l THEN [g[1] EXCEPT !.cache = IF c.out.d = 1 THEN c.out ELSE NoPic, !.out = NoPic]
           ELSE [g[1] EXCEPT !.out = NoPic]
  IN IF g[3] # 0 THEN Fail(a, g[3], "grain-alloc") ELSE [a EXCEPT !.res = 0, !.outp = g[2]]

(* ------------------------------------------------------ retiring a slot *)
(* outcome of the frame in slot s: "ok" or "bad", consuming the oracle *)
Outcome(c, t, taint, forced) ==
  LET known == IF forced # "" THEN forced ELSE IF taint THEN "" ELSE GetOc(c, t)
      v == IF c.orc = c.unk + 1 THEN "bad" ELSE "ok"
      c1 == [c EXCEPT !.unk = @ + 1]
  IN IF known # "" THEN <<c, known>>
     ELSE <<IF taint THEN c1 ELSE SetOc(c1, t, v), v>>

(* wait for the frame of slot k and take its picture out; viaSubmit: error goes to cerr *)
Retire(c, k, viaSubmit) ==
  LET s == c.slots[k]
      empty == [c EXCEPT !.slots[k] = NoSlot]
      o == IF s.live = 1 THEN Outcome(empty, s.p.t, s.p.taint, s.oc) ELSE <<empty, "ok">>
      bad == o[2] = "bad"
      c1 == IF bad THEN [o[1] EXCEPT !.bad = @ \union {s.p.inst}] ELSE o[1]
      c2 == [c1 EXCEPT !.cprops = s.p.m]
      show == s.p.d = 1 /\ (s.p.vis = 1 \/ c.cfg.invis = 1) /\ s.p.inst \notin c1.bad
  IN IF bad THEN IF viaSubmit THEN [c2 EXCEPT !.cerr = EINVAL] ELSE Fail(c2, EINVAL, "decode")
     ELSE IF show THEN [c1 EXCEPT !.out = s.p, !.ef = Or(@, s.p.flags % 4)]
     ELSE c1
NextSlot(c) == IF c.next = c.cfg.nfc THEN 1 ELSE c.next + 1
Rotate(c) == Retire([c EXCEPT !.next = NextSlot(c)], c.next, TRUE)

RECURSIVE DrainLoop(_, _, _)
DrainLoop(c, n, drained) ==
  IF n = 0 THEN [c EXCEPT !.res = 1]
  ELSE LET k == c.next
           s == c.slots[k]
           full == s.p.d = 1 \/ s.err
           r == Retire([c EXCEPT !.next = NextSlot(c), !.res = 0], k, FALSE)
           y == IF s.p.d = 1 THEN Ready(r, FALSE) ELSE <<r, FALSE>>
       IN IF ~full /\ drained THEN [c EXCEPT !.res = 1]
          ELSE IF r.res < 0 THEN r
          ELSE IF y[2] THEN OutputImage(y[1])
          ELSE DrainLoop(y[1], n - 1, drained \/ full)
DrainPicture(c) ==
  LET d == DrainLoop(c, c.cfg.nfc, FALSE)
      y == Ready([d EXCEPT !.res = 0], TRUE)
  IN IF d.res # 1 THEN d
     ELSE IF y[2] THEN OutputImage(y[1]) ELSE Fail(y[1], EAGAIN, "")

(* -------------------------------------------------------------- submitting *)
ErrProps(c) == [c EXCEPT !.cprops = The(c.in).m]
PicM(m) == m

(* why the reference frames of fh cannot be used, "" if they can *)
RefsBad(c, fh, sh) ==
  LET R1(i) == c.refs[fh.refidx[i] + 1]
      bpc == 8 + 2 * sh.hbd
      bad(i) == LET r == R1(i) IN
          r.p.d = 0 \/ fh.width[1] * 2 < r.p.w \/ fh.height * 2 < r.p.fh.height
          \/ fh.width[1] > r.p.w * 16 \/ fh.height > r.p.fh.height * 16
          \/ Lay(sh) # Lay(r.p.sh) \/ bpc # Bpc(r.p)
  IN ~IsIntra(fh) /\ \E i \in 1..7 : bad(i)

DropTiles(c) == [c EXCEPT !.tiles = <<>>, !.nt = 0]
(* after a submission error: header gone, slot marked, in-packet properties kept *)
SubmitFail(c, k, r, why) ==
  LET a == ErrProps([c EXCEPT !.fh = None]) IN
  Fail(IF c.cfg.nfc > 1 THEN [a EXCEPT !.slots[k] = [NoSlot EXCEPT !.err = TRUE]] ELSE [a EXCEPT !.out = NoPic], r, why)

Submit(c0) ==
  LET nfc == c0.cfg.nfc
      k == c0.next
      c == IF nfc > 1 THEN Rotate(c0) ELSE c0
      fh == The(c.fh)
      sh == The(c.seq)
      tk == TileKeys(c.tiles, fh.t_n_bytes)
      reft == IF IsIntra(fh) THEN <<>> ELSE [i \in 1..7 |-> c.refs[fh.refidx[i] + 1].p.t]
      taint == ~IsIntra(fh) /\ \E i \in 1..7 : LET p == c.refs[fh.refidx[i] + 1].p IN p.taint \/ p.inst \in c.bad
      \* a frame still being decoded may fail later: its dependents are tainted, too, unless its outcome is known
      pend == ~IsIntra(fh) /\ nfc > 1 /\ \E i \in 1..7 : LET p == c.refs[fh.refidx[i] + 1].p IN
                 \E j \in 1..nfc : c.slots[j].live = 1 /\ c.slots[j].p.inst = p.inst
                                   /\ ~(c.slots[j].oc = "ok" \/ (~p.taint /\ p.t # 0 /\ GetOc(c, p.t) = "ok"))
      key == <<"f", Norm(c, fh), sh, tk[2], reft, LrOff(c, fh)>>
      anyt == taint \/ pend
      ki == IF anyt \/ ~tk[1] THEN <<c, 0>> ELSE Intern(c, key)
      a1 == Alloc(ki[1], fh.width[2], fh.height, Lay(sh), 8 + 2 * sh.hbd)
      sr == fh.width[1] # fh.width[2]
      m == c.tiles[1].m
      vis == fh.show_frame = 1
      c1 == a1[1]
      keep == ~((vis \/ c.cfg.invis = 1) /\ c.maxsid = fh.spatial_id)
      pic == [NoPic EXCEPT !.d = 1, !.t = ki[2], !.inst = c.ninst + 1, !.sh = sh, !.fh = fh, !.w = fh.width[2],
                !.buf = a1[2], !.m = m, !.flags = c.ff, !.vis = fh.show_frame, !.showable = fh.showable_frame,
                !.taint = anyt,
                !.cll = IF vis THEN c.cll ELSE <<>>, !.mdcv = IF vis THEN c.mdcv ELSE <<>>,
                !.t35 = IF vis THEN c.t35 ELSE <<>>]
      wt == {c.tiles[i].w : i \in 1..Len(c.tiles)}
      uds == {c.tiles[i].m[6] : i \in 1..Len(c.tiles)} \union {m[6]}
      c2 == DropTiles([c1 EXCEPT !.ninst = @ + 1, !.ff = IF keep THEN @ % 4 ELSE 0, !.t35 = IF vis THEN <<>> ELSE @])
      a2 == IF sr THEN Alloc(c2, fh.width[1], fh.height, Lay(sh), 8 + 2 * sh.hbd) ELSE <<c2, -1, TRUE>>
      c3 == [a2[1] EXCEPT !.fh = None]
      Refresh(x, v) == [x EXCEPT !.refs = [i \in 1..8 |-> IF Bit(fh.refresh_frame_flags, i - 1) = 1 THEN v ELSE x.refs[i]]]
      outs == vis \/ c.cfg.invis = 1
      oc == Outcome(c3, ki[2], anyt, IF tk[1] THEN "" ELSE "bad")
      \* single frame context: decode at once
      good1 == LET x == Refresh(oc[1], [h |-> TRUE, p |-> pic]) IN
               IF outs THEN [x EXCEPT !.out = pic, !.ef = Or(@, pic.flags % 4)] ELSE x
      bad1 == LET x == Refresh(oc[1], NoRef)
                  y == IF outs THEN [x EXCEPT !.ef = Or(@, pic.flags % 4)] ELSE x
              IN SubmitFail(y, k, EINVAL, "decode")
      \* frame threads: queue it
      bufs == {pic.buf} \union (IF sr THEN {a2[2]} ELSE {})
                \union (IF IsIntra(fh) THEN {} ELSE {c.refs[fh.refidx[i] + 1].p.buf : i \in 1..7})
      udr == IF IsIntra(fh) THEN {} ELSE {c.refs[fh.refidx[i] + 1].p.m[6] : i \in 1..7}
      goodN == [Refresh(c3, [h |-> TRUE, p |-> pic]) EXCEPT
                  !.slots[k] = [p |-> pic, err |-> FALSE, live |-> 1, w |-> wt, bufs |-> bufs, ud |-> uds \union udr,
                                oc |-> IF tk[1] THEN "" ELSE "bad"]]
  IN IF RefsBad(c, fh, sh) THEN SubmitFail(c, k, EINVAL, "refs")
     ELSE IF ~a1[3] THEN SubmitFail(DropTiles(c1), k, ENOMEM, "alloc")
     ELSE IF ~a2[3] THEN SubmitFail(a2[1], k, ENOMEM, "alloc")
     ELSE IF nfc = 1 THEN IF oc[2] = "ok" THEN good1 ELSE bad1
     ELSE goodN

(* --------------------------------------------------------- show existing *)
(* the frame-type filter: skip this frame? *)
FilterShow(c, ft) == ((ft = INTER \/ ft = SWITCH) /\ c.cfg.dft > 1) \/ (ft = INTRA /\ c.cfg.dft > 2)
FilterFrame(c, fh) ==
  LET ft == fh.frame_type  d == c.cfg.dft  none == fh.refresh_frame_flags = 0 IN
  \/ (ft = INTER \/ ft = SWITCH) /\ (d > 1 \/ (d = 1 /\ none))
  \/ ft = INTRA /\ (d > 2 \/ (d = 1 /\ none))

ParseErr(c, why) ==
  LET a == ErrProps(c) IN
  Fail(IF IsSome(a.fh) /\ The(a.fh).show_existing_frame = 1 THEN [a EXCEPT !.fh = None] ELSE a, EINVAL, why)

SkipFrame(c) ==
  LET fh == The(c.fh)
      hdr == [h |-> TRUE, p |-> [NoPic EXCEPT !.fh = fh, !.sh = The(c.seq)]]
  IN [c EXCEPT !.refs = [i \in 1..8 |-> IF Bit(fh.refresh_frame_flags, i - 1) = 1 THEN hdr ELSE @[i]],
               !.fh = None, !.nt = 0]

ShowExisting(c) ==
  LET idx == The(c.fh).existing_frame_idx
      r == c.refs[idx + 1]
      pic == [r.p EXCEPT !.cll = c.cll, !.mdcv = c.mdcv, !.t35 = c.t35, !.m = The(c.in).m]
      rot == Rotate(c)
      k == c.next
      shown == IF c.cfg.nfc = 1
               THEN [c EXCEPT !.out = pic, !.t35 = <<>>, !.ef = Or(@, r.p.flags % 4)]
               ELSE [rot EXCEPT !.slots[k] = [NoSlot EXCEPT !.p = [pic EXCEPT !.vis = 1]], !.t35 = <<>>]
      r2 == [r EXCEPT !.p.showable = 0]
      fin == IF r.p.fh.frame_type = KEY THEN [shown EXCEPT !.refs = [i \in 1..8 |-> r2]] ELSE shown
  IN IF ~r.h THEN ParseErr(c, "show-missing")
     ELSE IF FilterShow(c, r.p.fh.frame_type) THEN SkipFrame(c)
     ELSE IF r.p.d = 0 THEN ParseErr(c, "show-nodata")
     ELSE IF c.cfg.strict = 1 /\ r.p.showable = 0 THEN ParseErr(c, "show-unshowable")
     ELSE [fin EXCEPT !.fh = None]

(* after every OBU: anything complete? *)
AfterObu(c) ==
  IF ~IsSome(c.seq) \/ ~IsSome(c.fh) THEN c
  ELSE LET fh == The(c.fh) IN
  IF fh.show_existing_frame = 1 THEN ShowExisting(c)
  ELSE IF c.nt # fh.t_cols * fh.t_rows THEN c
  ELSE IF FilterFrame(c, fh) THEN SkipFrame(c)
  ELSE IF c.tiles = <<>> THEN ParseErr(c, "no-tiles")
  ELSE Submit(c)

(* ------------------------------------------------------------------- OBUs *)
SeqObu(c, s, p) ==
  LET e == ParseSeq(s, p, c.cfg.strict = 1)
      sh == e.h
      oi == IF c.cfg.op < sh.num_operating_points THEN c.cfg.op ELSE 0
      idc == sh.ops[oi + 1][4]
      c1 == [c EXCEPT !.opidc = idc, !.maxsid = IF idc \div 256 = 0 THEN 0 ELSE Ulog2(idc \div 256), !.seq = Some(sh)]
      new == [c1 EXCEPT !.fh = None, !.ff = Or(@, F_SEQ)]
  IN IF e.err = 1 THEN ParseErr(c, "seqhdr")
     ELSE IF ~IsSome(c.seq) THEN new
     ELSE IF ~SameSeq(The(c.seq), sh)
     THEN [new EXCEPT !.mdcv = <<>>, !.cll = <<>>, !.refs = [i \in 1..8 |-> NoRef]]
     ELSE IF The(c.seq) # sh THEN [c1 EXCEPT !.ff = Or(@, F_OP)]
     ELSE c1

TileObu(c, s, p) ==
  LET fh == The(c.fh)
      n == fh.t_cols * fh.t_rows
      hp == n > 1 /\ BitsAt(s, p, 1) = 1
      nb == fh.t_log2_cols + fh.t_log2_rows
      st == IF hp THEN BitsAt(s, p + 1, nb) ELSE 0
      en == IF hp THEN BitsAt(s, p + 1 + nb, nb) ELSE n - 1
      q == p + (IF n > 1 THEN 1 ELSE 0) + (IF hp THEN 2 * nb ELSE 0)
      al == (q + 7) \div 8
      in == The(c.in)
  IN IF ~IsSome(c.fh) THEN ParseErr(c, "tile-nohdr")
     ELSE IF q > 8 * s.lim THEN ParseErr(c, "tile-overrun")
     ELSE IF st > en \/ st # c.nt THEN ParseErr(DropTiles(c), "tile-order")
     ELSE [c EXCEPT !.nt = @ + en - st + 1,
                    !.tiles = Append(@, [start |-> st, end |-> en, pk |-> s.pk, b |-> s.b + al, n |-> s.lim - al,
                                         w |-> in.w, m |-> in.m])]

FrameObu(c, s, p, type, tid, sid) ==
  LET x == [sh |-> The(c.seq), rh |-> [i \in 1..8 |-> IF c.refs[i].h THEN Some(c.refs[i].p.fh) ELSE None],
            strict |-> c.cfg.strict = 1]
      e == ParseFrameHdr([s EXCEPT !.x = x], p, tid, sid)
      none == [c EXCEPT !.fh = None]
      c1 == DropTiles([c EXCEPT !.fh = Some(e.h)])
      t == IF type # 6 THEN Trailing(e, c.cfg.strict = 1) ELSE e
      big == c.cfg.limit > 0 /\ e.h.width[2] > 0 /\ e.h.height > c.cfg.limit \div e.h.width[2]
  IN IF ~IsSome(c.seq) THEN ParseErr(c, "fh-noseq")
     ELSE IF e.err = 1 THEN ParseErr(none, "fh")
     ELSE IF t.err = 1 THEN ParseErr([c1 EXCEPT !.fh = None], "fh-trailing")
     ELSE IF big THEN Fail([c1 EXCEPT !.fh = None], ERANGE, "limit")
     ELSE IF type # 6 THEN c1
     ELSE IF e.h.show_existing_frame = 1 THEN ParseErr([c1 EXCEPT !.fh = None], "frame-show")
     ELSE TileObu(c1, s, Align(e).p)

MetaObu(c, s, p) ==
  LET u == Uleb(s, p)
      q == u.p
      b16(i) == BitsAt(s, q + 16 * i, 16)
      endc == Rd(s, q + 32, 0)
      endm == Rd(s, q + 192, 0)
      strict == c.cfg.strict = 1
      by(i) == SByte(s, i)
      pos == q \div 8
      RECURSIVE Strip(_)
      Strip(n) == IF n > pos /\ by(n - 1) = 0 THEN Strip(n - 1) ELSE n
      last == Strip(s.lim) - 1                 \* byte index of the presumed trailing byte
      cc == by(pos)
      st == IF cc = 255 THEN pos + 2 ELSE pos + 1
      psz == last - st
      t35 == <<cc, IF cc = 255 THEN by(pos + 1) ELSE 0>> \o [i \in 1..psz |-> by(st + i - 1)]
  IN IF ~u.ok \/ u.p > 8 * s.lim THEN ParseErr(c, "meta")
     ELSE IF u.v = 1 THEN IF Trailing(endc, strict).err = 1 THEN ParseErr(c, "cll") ELSE [c EXCEPT !.cll = <<b16(0), b16(1)>>]
     ELSE IF u.v = 2 THEN IF Trailing(endm, strict).err = 1 THEN ParseErr(c, "mdcv")
          ELSE [c EXCEPT !.mdcv = [i \in 1..12 |-> b16(i - 1)]]
     ELSE IF u.v = 4 THEN IF psz <= 0 \/ by(last) # 128 THEN c ELSE [c EXCEPT !.t35 = Append(@, t35)]
     ELSE c

(* parse one OBU at the head of c.in; c.adv = bytes consumed *)
ParseObu(c) ==
  LET in == The(c.in)
      s0 == Src(in.pk, in.b, PkLen(in.pk) - in.b, 0)
      b(n, k) == BitsAt(s0, n, k)
      type == b(1, 4)
      ext == b(5, 1)
      hs == b(6, 1)
      p1 == IF ext = 1 THEN 16 ELSE 8
      tid == IF ext = 1 THEN b(8, 3) ELSE 0
      sid == IF ext = 1 THEN b(11, 2) ELSE 0
      u == Uleb(s0, p1)
      p2 == IF hs = 1 THEN u.p ELSE p1
      lim == IF hs = 1 THEN p2 \div 8 + u.v ELSE s0.lim
      bad == (c.cfg.strict = 1 /\ b(0, 1) = 1) \/ p1 > 8 * s0.lim
             \/ (hs = 1 /\ (~u.ok \/ u.p > 8 * s0.lim \/ u.v > s0.lim - p2 \div 8))
      s == [s0 EXCEPT !.lim = lim]
      skip == type # 1 /\ type # 2 /\ ext = 1 /\ c.opidc # 0 /\ (Bit(c.opidc, tid) = 0 \/ Bit(c.opidc, sid + 8) = 0)
      d == CASE type = 1 -> SeqObu(c, s, p2)
             [] type = 2 -> [c EXCEPT !.ff = Or(@, F_TU)]
             [] type = 3 \/ type = 6 -> FrameObu(c, s, p2, type, tid, sid)
             [] type = 7 -> IF IsSome(c.fh) THEN c ELSE FrameObu(c, s, p2, type, tid, sid)
             [] type = 4 -> TileObu(c, s, p2)
             [] type = 5 -> MetaObu(c, s, p2)
             [] OTHER -> c
  IN IF bad THEN <<ParseErr(c, "obu"), 0>>
     ELSE IF skip THEN <<c, lim>>
     ELSE IF d.res < 0 THEN <<d, 0>>
     ELSE <<AfterObu(d), lim>>

RECURSIVE GenLoop(_)
GenLoop(c) ==
  IF c.in = None THEN c
  ELSE LET r == ParseObu(c)
           in == The(c.in)
           nb == in.b + r[2]
           q == [r[1] EXCEPT !.in = IF nb >= PkLen(in.pk) THEN None ELSE Some([in EXCEPT !.b = nb])]
           y == Ready(q, FALSE)
       IN IF r[1].res < 0 THEN [r[1] EXCEPT !.in = None]
          ELSE IF y[2] THEN y[1] ELSE GenLoop(y[1])
GenPicture(c) == LET y == Ready([c EXCEPT !.res = 0, !.why = ""], FALSE) IN IF y[2] THEN y[1] ELSE GenLoop(y[1])

(* --------------------------------------------------------------- API calls *)
Begin(c, orc) == [c EXCEPT !.res = 0, !.why = "", !.al = <<>>, !.orc = orc, !.unk = 0, !.outp = NoPic]

(* pk: packet segments, m: its properties, w: id of the data object *)
SendData(c, pk, m, w) ==
  LET c1 == [c EXCEPT !.drain = 0] IN
  IF PkLen(pk) = 0 THEN Fail(c, EINVAL, "empty")
  ELSE IF IsSome(c.in) THEN Fail(c1, EAGAIN, "busy")
  ELSE GenPicture([c1 EXCEPT !.in = Some([pk |-> pk, b |-> 0, m |-> m, w |-> w])])
SendEmpty(c) == IF IsSome(c.in) THEN Fail(c, EAGAIN, "busy") ELSE GenPicture(c)
GetPicture(c) ==
  LET d == c.drain
      g == GenPicture([c EXCEPT !.drain = 1])
      y == Ready(g, c.cfg.nfc = 1)
  IN IF g.res < 0 THEN g
     ELSE IF g.cerr # 0 THEN Fail([g EXCEPT !.cerr = 0], g.cerr, "decode")
     ELSE IF y[2] THEN OutputImage(y[1])
     ELSE IF c.cfg.nfc > 1 /\ d = 1 THEN DrainPicture(y[1])
     ELSE Fail(y[1], EAGAIN, "")
Flush(c) == [Fresh(c.cfg, c.tab) EXCEPT !.nal = c.nal, !.ef = c.ef, !.ninst = c.ninst]
EventFlags(c) == [c EXCEPT !.ef = 0]
ErrorProps(c) == [c EXCEPT !.cprops = NoProps]
=============================================================================

-------------------------------- MODULE Trace --------------------------------
(* Conformance of recorded executions of the real library with Decoder.tla.

   The trace file holds one scenario group per line: a list of packets and any
   number of recorded runs over it (different settings, thread counts, call
   orders, allocators, ...).  The runs of a group are replayed one after another
   and share the term table c.tab, so that "the same frame" has the same outcome
   and the same pixels in all of them.  Every event must be a step of the
   decoder with exactly the observed results; a group whose behaviour can be
   replayed to the end prints ACCEPT, a dead end prints REJECT with the names of
   the observations that do not fit. *)
EXTENDS Decoder, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES g, r, i, c, h
vars == <<g, r, i, c, h>>

NoDec(tab) == [none |-> 0, tab |-> tab]
(* harness side: cur = packet the caller still owns (wrap id, packet number), np pictures and nw wraps so far,
   live data / user data / buffers, pictures held by the caller, open = decoder open *)
H0 == [w |-> -1, k |-> -1, np |-> 0, nw |-> 0, lw |-> {}, lu |-> {}, lb |-> {}, held |-> <<>>, open |-> FALSE, loose |-> FALSE, nal |-> 0, err |-> FALSE, um |-> {}]

(* ------------------------------------------------------------- settings (C20) *)
CeilSqrt(n) == CHOOSE k \in 0..16 : k * k >= n /\ (k = 0 \/ (k - 1) * (k - 1) < n)
FrameDelay(nt, fd) == LET d == IF fd # 0 THEN Mn(fd, nt) ELSE IF nt >= 50 THEN 8 ELSE CeilSqrt(nt) IN d
SettingsOk(s) == s.nt \in 0..256 /\ s.fd \in 0..256 /\ s.op \in 0..31 /\ s.dft \in 0..3 /\ s.odd = ""
DefaultSettings == [n_threads |-> 0, max_frame_delay |-> 0, apply_grain |-> 1, operating_point |-> 0, all_layers |-> 1,
                    frame_size_limit |-> 0, strict |-> 0, invis |-> 0, ilf |-> 7, dft |-> 0, cb |-> 1, api |-> 1]
Tags(s) == {x[2] : x \in {y \in s : ~y[1]}}

(* ------------------------------------------------------------ resources *)
PicBuf(p) == IF p.d = 1 /\ p.buf >= 0 THEN {p.buf} ELSE {}
PicUd(p) == {p.m[6]}
HeldPics(hh) == {hh.held[n][2] : n \in DOMAIN hh.held}
InW(d) == IF IsSome(d.in) THEN {The(d.in).w} ELSE {}
SlotsP(d) == {d.slots[n].p : n \in DOMAIN d.slots}
DecPics(d) == {d.out, d.cache} \union {d.refs[n].p : n \in 1..8} \union SlotsP(d)
MustW(d, hh) == InW(d) \union {d.tiles[n].w : n \in 1..Len(d.tiles)} \union (IF hh.w >= 0 THEN {hh.w} ELSE {})
MayW(d) == UNION {d.slots[n].w : n \in DOMAIN d.slots}
MustB(d, hh) == UNION {PicBuf(p) : p \in DecPics(d) \union HeldPics(hh)}
MayB(d) == UNION {d.slots[n].bufs : n \in DOMAIN d.slots}
MustU(d, hh) == MustW(d, hh) \union UNION {PicUd(p) : p \in {q \in DecPics(d) : q.d = 1} \union HeldPics(hh)}
                \union {d.cprops[6]} \union (IF IsSome(d.in) THEN {The(d.in).m[6]} ELSE {})
                \union {d.tiles[n].m[6] : n \in 1..Len(d.tiles)}
MayU(d) == UNION {d.slots[n].ud : n \in DOMAIN d.slots} \union MayW(d)
Between(lo, x, hi) == lo \subseteq x /\ x \subseteq lo \union hi

SeqSet(s) == {s[n] : n \in 1..Len(s)}
NoDup(s) == Cardinality(SeqSet(s)) = Len(s)

(* what the event says about releases, applied to the sets of live objects;
   d = decoder state after the call (or NoDec when closed), hh = harness state *)
AlFails(cfg, id) == cfg.afail >= 0 /\ id >= cfg.afail /\ id < cfg.afail + cfg.afailn
Live(cfg, hh, e, fresh, freshu) ==
  [hh EXCEPT !.lw = (@ \union fresh) \ SeqSet(e.fr), !.lu = (@ \union freshu) \ SeqSet(e.fu),
             !.lb = (@ \union {e.al[n][5] : n \in {m \in 1..Len(e.al) : ~AlFails(cfg, e.al[m][5])}}) \ SeqSet(e.rl)]
ResTags(d, hh, uds, isOpen) ==
  LET mw == IF isOpen THEN MustW(d, hh) ELSE IF hh.w >= 0 THEN {hh.w} ELSE {}
      mb == IF isOpen THEN MustB(d, hh) ELSE UNION {PicBuf(p) : p \in HeldPics(hh)}
      mu == (IF isOpen THEN MustU(d, hh) ELSE mw \union UNION {PicUd(p) : p \in HeldPics(hh)}) \intersect uds
  IN Tags({<<Between(mw, hh.lw, IF isOpen THEN MayW(d) ELSE {}), "data-ref">>,
           <<Between(mb, hh.lb, IF isOpen THEN MayB(d) ELSE {}), "buf-ref">>,
           <<Between(mu, hh.lu, hh.um \union (IF isOpen THEN MayU(d) ELSE {})), "ud-ref">>})

(* ------------------------------------------------------------ pictures *)
LearnDg(d, p, q) == IF p.taint \/ d.tab[p.t].dg # "" THEN d ELSE [d EXCEPT !.tab[p.t].dg = q.dg, !.tab[p.t].dp = q.dp]

(* disabling loop restoration leaves the planes alone that do not use it (C26): compare, plane by plane, with
   the frame decoded from the same bits and references with the filter on *)
LrTags(d, p, q) ==
  IF p.taint THEN {}
  ELSE LET key == d.tab[p.t].key
           twin == TermId(d.tab, [key EXCEPT ![6] = ~@])
       IN IF key[1] # "f" THEN {}
          ELSE IF twin = 0 THEN {}
          ELSE IF d.tab[twin].dg = "" THEN {}
          ELSE Tags({<<\A n \in 1..3 : p.fh.rest[n] # 0 \/ d.tab[twin].dp[n] = q.dp[n], "lr-planes">>})

PicTags(d, p, q) ==      \* p: model, q: observed
  Tags({<<q.p = <<p.w, p.fh.height, Lay(p.sh), Bpc(p)>>, "dims">>,
        <<p.taint \/ d.tab[p.t].dg = "" \/ d.tab[p.t].dg = q.dg, "pixels">>,
        <<d.cfg.custom = 0 \/ q.buf = p.buf, "buffer">>,
        <<q.m = SubSeq(p.m, 1, 5), "props">>,
        <<q.cll = p.cll, "cll">>, <<q.mdcv = p.mdcv, "mdcv">>, <<q.t35 = p.t35, "t35">>,
        <<"sh" \notin DOMAIN q \/ q.sh = p.sh, "sh">>})
  \union LrTags(d, p, q) \union {"fh." \o f : f \in {x \in DOMAIN q.fh : q.fh[x] # p.fh[x]}}
(* allocator requests: as predicted, in order; <<w, h, layout, bpc, id>> plus "failed" *)
AlTags(d, e) == Tags({<<d.cfg.custom = 0 \/ [n \in 1..Len(e.al) |-> SubSeq(e.al[n], 1, 5)] = d.al, "alloc-req">>,
                      <<e.gb = 0, "guard">>, <<e.wt % 8 = 0, "alloc-thread">>, <<e.wt < 8, "buf-ref">>,
                      <<NoDup(e.fr) /\ NoDup(e.fu) /\ NoDup(e.rl), "double-free">>})


(* ------------------------------------------------------------ one event *)
Documented == {0, EAGAIN, ENOMEM, EINVAL, ERANGE, -2, -92, -5}
LooseStep(G, RR, e, d0, h0) ==
  LET h1 == Live(RR.cfg, h0, e, {}, {})
      failed == h0.err \/ (e.op \in {"s", "g", "z", "w"} /\ e.r < 0 /\ e.r # EAGAIN)
      al == [h1 EXCEPT !.nal = @ + Len(e.al), !.err = failed]
      pic == e.op = "g" /\ e.r = 0
  IN [c |-> d0,
      h |-> CASE e.op = "s" -> LET new == h0.w < 0  P == G.pks[e.k + 1] IN
                               [al EXCEPT !.nw = IF new THEN @ + 1 ELSE @, !.w = IF e.r = EAGAIN THEN e.w ELSE -1,
                                          !.k = IF e.r = EAGAIN THEN e.k ELSE -1,
                                          !.uds = IF P.ud >= 0 THEN @ \union {e.w} ELSE @,
                                          !.lw = IF new THEN (@ \union {e.w}) \ SeqSet(e.fr) ELSE @,
                                          !.lu = IF new /\ P.ud >= 0 THEN (@ \union {e.w}) \ SeqSet(e.fu) ELSE @]
              [] pic -> [al EXCEPT !.held = Append(@, <<h0.np, [NoPic EXCEPT !.d = 1, !.buf = e.pic.buf, !.taint = TRUE]>>), !.np = @ + 1]
              [] e.op = "p" -> LET k == SelectInSeq(h0.held, LAMBDA x : x[1] = e.n) IN
                               [al EXCEPT !.held = IF k = 0 THEN @ ELSE RemoveAt(@, k)]
              [] e.op = "u" -> [al EXCEPT !.w = -1, !.k = -1]
              [] e.op = "c" -> [al EXCEPT !.open = FALSE, !.loose = FALSE, !.um = h0.lu]
              [] OTHER -> al,
      \* as long as nothing was reported, the pictures are those of the stream
      bad |-> Tags({<<~pic \/ failed \/ \E n \in 1..Len(d0.tab) : d0.tab[n].dg = e.pic.dg, "pixels">>,
                    <<e.op \notin {"s", "g", "z", "w", "a", "o"} \/ e.r \in Documented, "code">>,
                    <<e.op # "g" \/ e.leak = 0, "leak">>, <<e.op # "p" \/ e.same = 1, "held-changed">>,
                    <<e.wt < 8, "buf-ref">>, <<NoDup(e.fr) /\ NoDup(e.fu) /\ NoDup(e.rl), "double-free">>})]

(* G: group, R: run; result [c, h, bad] *)
Step(G, RR, e, d0, h0, orc) ==
  LET d == IF h0.open THEN Begin(d0, orc) ELSE d0
      \* user-data ids that exist: wraps whose packet has user data
      out(d1, h1, fresh, freshu, bad) ==
        LET h2 == Live(RR.cfg, h1, e, fresh, freshu)
            uds == h2.uds \union freshu
        IN [c |-> d1, h |-> [h2 EXCEPT !.uds = uds],
            bad |-> bad \union (IF h1.open THEN AlTags(d1, e) ELSE {}) \union ResTags(d1, h2, uds, h1.open)]
  IN
  \* behind injected memory failures nothing but the documented range of results is known, until a flush
  IF h0.loose /\ e.op # "f" THEN LooseStep(G, RR, e, d0, h0) ELSE
  CASE e.op = "o" ->
         LET nomem == RR.set.loose = 1 /\ e.r = ENOMEM
             ok == SettingsOk(RR.set) /\ ~nomem
             nt == IF RR.set.nt = 0 THEN Mn(Mx(e.ncpu, 1), 256) ELSE RR.set.nt
             exp == IF RR.set.nt \in 0..256 /\ RR.set.fd \in 0..256 THEN FrameDelay(nt, RR.set.fd) ELSE EINVAL
         IN [c |-> IF ok THEN Fresh(RR.cfg, G.tab) ELSE NoDec(G.tab),
             h |-> [h0 EXCEPT !.open = ok, !.loose = RR.set.loose = 1],
             bad |-> Tags({<<ok = (e.r = 0), "open">>, <<ok = (e.ctx = 1), "open">>,
                           <<ok \/ nomem \/ e.r < 0, "open">>,
                           <<e.delay = exp, "delay">>, <<e.al = <<>>, "alloc-req">>})]
    [] e.op = "s" ->
         LET new == h0.w < 0
             w == IF new THEN h0.nw ELSE h0.w
             P == G.pks[e.k + 1]
             len == PkLen(P.segs)
             m == <<P.ts, P.dur, P.poff, IF P.psz >= 0 THEN P.psz ELSE len, P.ud, w>>
             d1 == SendData(d, P.segs, m, w)
             h1 == [h0 EXCEPT !.nw = IF new THEN @ + 1 ELSE @,
                              !.w = IF d1.res = EAGAIN THEN w ELSE -1, !.k = IF d1.res = EAGAIN THEN e.k ELSE -1]
             b == Tags({<<e.r = d1.res, "r">>, <<e.touched = 0, "touched">>,
                        <<e.left = (IF d1.res = 0 THEN 0 ELSE len), "touched">>, <<e.own = 0, "touched">>,
                        <<e.w = w /\ (new \/ e.k = h0.k), "harness">>})
         IN out(d1, h1, IF new THEN {w} ELSE {}, IF new /\ P.ud >= 0 THEN {w} ELSE {}, b)
    [] e.op = "z" -> LET d1 == SendEmpty(d) IN out(d1, h0, {}, {}, Tags({<<e.r = d1.res, "r">>}))
    [] e.op = "g" ->
         LET d1 == GetPicture(d)
             pic == d1.res = 0
             d2 == IF pic /\ e.r = 0 THEN LearnDg(d1, d1.outp, e.pic) ELSE d1
             h1 == IF pic THEN [h0 EXCEPT !.held = Append(@, <<h0.np, d1.outp>>), !.np = @ + 1] ELSE h0
             b == Tags({<<e.r = d1.res, "r">>, <<e.leak = 0, "leak">>})
                  \union (IF pic /\ e.r = 0 THEN PicTags(d1, d1.outp, e.pic) ELSE {})
         IN out(d2, h1, {}, {}, b)
    [] e.op = "f" -> IF h0.loose
                     THEN LET k == [Flush(Fresh(RR.cfg, d0.tab)) EXCEPT !.nal = h0.nal + Len(e.al), !.ef = -1, !.ninst = 1000, !.al = e.al]
                          IN out(k, [h0 EXCEPT !.loose = FALSE, !.um = h0.lu], {}, {}, {})    \* um: pictures held since then may own these
                     ELSE out(Flush(d), h0, {}, {}, {})
    [] e.op = "e" -> out(EventFlags(d), h0, {}, {}, Tags({<<e.r = 0 /\ (d.ef < 0 \/ e.f = d.ef), "flags">>}))
    [] e.op = "x" -> out(ErrorProps(d), h0, {}, {}, Tags({<<e.r = 0 /\ e.m = SubSeq(d.cprops, 1, 5), "err-props">>}))
    [] e.op = "p" ->
         LET k == SelectInSeq(h0.held, LAMBDA x : x[1] = e.n)
             h1 == [h0 EXCEPT !.held = IF k = 0 THEN @ ELSE RemoveAt(@, k)]
         IN out(d, h1, {}, {}, Tags({<<k # 0, "harness">>, <<e.same = 1, "held-changed">>}))
    [] e.op = "a" ->
         LET k == SelectInSeq(h0.held, LAMBDA x : x[1] = e.n)
             p0 == h0.held[k][2]
             q == ApplyGrain(d, p0)
             p == [q[2] EXCEPT !.m = p0.m]
             d2 == IF q[3] = 0 /\ e.r = 0 THEN LearnDg(q[1], p, e.pic) ELSE q[1]
             b == Tags({<<e.r = q[3], "r">>, <<e.same = 1, "held-changed">>})
                  \union (IF q[3] = 0 /\ e.r = 0 THEN PicTags(q[1], p, e.pic) ELSE {})
         IN out(d2, h0, {}, {}, b)
    [] e.op = "q" ->       \* the stand-alone parser has no state
         LET q == ParseSequenceHeader(G.pks[e.k + 1].segs)
         IN [c |-> d0, h |-> h0, bad |-> Tags({<<e.r = q[1], "seq-r">>, <<e.r # 0 \/ q[1] # 0 \/ e.sh = q[2], "sh">>})]
    [] e.op = "u" -> out(d, [h0 EXCEPT !.w = -1, !.k = -1], {}, {}, {})
    [] e.op = "c" -> out(d, [h0 EXCEPT !.open = FALSE], {}, {}, Tags({<<e.ctx = 0, "r">>, <<e.al = <<>>, "alloc-req">>}))
    [] e.op = "v" -> [c |-> d0, h |-> h0, bad |-> Tags({<<\A f \in DOMAIN DefaultSettings : e[f] = DefaultSettings[f], "defaults">>})]
    [] e.op = "N" -> out(d, h0, {}, {}, Tags({<<\A n \in 1..Len(e.v) : e.v[n] = EINVAL, "arguments">>}))
    [] e.op = "end" -> [c |-> d0, h |-> h0, bad |-> Tags({<<e.live = 0, "buf-ref">>,
                          <<h0.lw = {} /\ h0.lu = {}, "data-ref">>, <<"thr" \notin DOMAIN e \/ e.thr = 1, "threads">>})]
    [] OTHER -> [c |-> d0, h |-> h0, bad |-> {"op"}]

(* ------------------------------------------------------------ the replay *)
HInit == [uds |-> {}] @@ H0
Init == /\ g \in 1..Len(Traces)
        /\ r = 1 /\ i = 1 /\ h = HInit /\ c = NoDec(<<>>)
Next ==
  LET G == Traces[g]
      RR == G.runs[r]
      e == RR.ev[i]
      tab == c.tab
      GT == [pks |-> G.pks, tab |-> tab]
      \* only the observations this group is about
      Enforced(b) == IF G.enf = <<>> THEN b
                     ELSE {t \in b : t \in {"r", "op", "harness", "code", "open"} \union SeqSet(G.enf)
                                      \/ ("fh" \in SeqSet(G.enf) /\ SubSeq(t, 1, Mn(3, Len(t))) = "fh.")}
      S(k) == LET s == Step(GT, RR, e, c, h, k) IN [s EXCEPT !.bad = Enforced(@)]
      s0 == S(0)
      n == IF "unk" \in DOMAIN s0.c /\ e.op \in {"s", "z", "g"} THEN s0.c.unk ELSE 0
      cand == {0} \union 1..n
      good == {k \in cand : S(k).bad = {}}
      last == i = Len(RR.ev)
  IN
  \/ /\ r <= Len(G.runs)
     /\ good = {}
     /\ PrintT(<<"REJECT", G.id, r - 1, i - 1, s0.bad, IF "why" \in DOMAIN s0.c THEN <<s0.c.res, s0.c.why>> ELSE <<>>>>)
     /\ FALSE
     /\ UNCHANGED vars
  \/ /\ r <= Len(G.runs)
     /\ \E k \in good :
          LET s == S(k) IN
          /\ c' = IF last THEN NoDec(s.c.tab) ELSE s.c
          /\ h' = IF last THEN HInit ELSE s.h
     /\ i' = IF last THEN 1 ELSE i + 1
     /\ r' = IF last THEN r + 1 ELSE r
     /\ g' = g
     /\ (last /\ r = Len(G.runs)) => PrintT(<<"ACCEPT", G.id>>)
Spec == Init /\ [][Next]_vars
=============================================================================

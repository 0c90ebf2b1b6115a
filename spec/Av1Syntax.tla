------------------------------ MODULE Av1Syntax ------------------------------
(* The header syntax of AV1 as dav1d exposes it: sequence headers, frame headers
   with everything they inherit from the reference slots, metadata.  Field names
   are those of the recorded dumps; 32-bit values are <<high 16, low 16>>. *)
EXTENDS Bits

Z32 == <<0, 0>>
KEY == 0  INTER == 1  INTRA == 2  SWITCH == 3
ADAPTIVE == 2
NOREF == 7                       \* primary_ref_frame: none

(* ------------------------------------------------------------ sequence header *)
SeqZero == [profile |-> 0, max_width |-> 0, max_height |-> 0, layout |-> 0, pri |-> 0, trc |-> 0, mtrx |-> 0,
  chr |-> 0, hbd |-> 0, color_range |-> 0, num_operating_points |-> 0, ops |-> <<>>, still_picture |-> 0,
  reduced_still_picture_header |-> 0, timing_info_present |-> 0, num_units_in_tick |-> Z32, time_scale |-> Z32,
  equal_picture_interval |-> 0, num_ticks_per_picture |-> Z32, decoder_model_info_present |-> 0,
  encoder_decoder_buffer_delay_length |-> 0, num_units_in_decoding_tick |-> Z32, buffer_removal_delay_length |-> 0,
  frame_presentation_delay_length |-> 0, display_model_info_present |-> 0, width_n_bits |-> 0, height_n_bits |-> 0,
  frame_id_numbers_present |-> 0, delta_frame_id_n_bits |-> 0, frame_id_n_bits |-> 0, sb128 |-> 0, filter_intra |-> 0,
  intra_edge_filter |-> 0, inter_intra |-> 0, masked_compound |-> 0, warped_motion |-> 0, dual_filter |-> 0,
  order_hint |-> 0, jnt_comp |-> 0, ref_frame_mvs |-> 0, screen_content_tools |-> 0, force_integer_mv |-> 0,
  order_hint_n_bits |-> 0, super_res |-> 0, cdef |-> 0, restoration |-> 0, ss_hor |-> 0, ss_ver |-> 0,
  monochrome |-> 0, color_description_present |-> 0, separate_uv_delta_q |-> 0, film_grain_present |-> 0]

(* one operating point:
   <<major, minor, initial delay, idc, tier, dm present, disp present, dec delay (2), enc delay (2), low delay>> *)
SeqOp(e) ==
    LET h == e.h
        idc == Bits(e, 12)
        e1 == Skip(e, 12)
        maj == 2 + Bits(e1, 3)
        mnr == BitsAt(e1.s, e1.p + 3, 2)
        e2 == Skip(e1, 5)
        tier == IF maj > 3 THEN B1(e2) ELSE 0
        e3 == IF maj > 3 THEN Skip(e2, 1) ELSE e2
        dmp == IF h.decoder_model_info_present = 1 THEN B1(e3) ELSE 0
        e4 == IF h.decoder_model_info_present = 1 THEN Skip(e3, 1) ELSE e3
        n == h.encoder_decoder_buffer_delay_length
        db == IF dmp = 1 THEN PairAt(e4.s, e4.p, n) ELSE Z32
        eb == IF dmp = 1 THEN PairAt(e4.s, e4.p + n, n) ELSE Z32
        ld == IF dmp = 1 THEN BitsAt(e4.s, e4.p + 2 * n, 1) ELSE 0
        e5 == IF dmp = 1 THEN Skip(e4, 2 * n + 1) ELSE e4
        dsp == IF h.display_model_info_present = 1 THEN B1(e5) ELSE 0
        e6 == IF h.display_model_info_present = 1 THEN Skip(e5, 1) ELSE e5
        idd == IF dsp = 1 THEN Bits(e6, 4) + 1 ELSE 10
        e7 == IF dsp = 1 THEN Skip(e6, 4) ELSE e6
    IN IF idc # 0 /\ (idc % 256 = 0 \/ idc \div 256 = 0) THEN Err(e)
       ELSE [e7 EXCEPT !.h.ops = Append(@, <<maj, mnr, idd, idc, tier, dmp, dsp, db[1], db[2], eb[1], eb[2], ld>>)]
RECURSIVE SeqOps(_, _)
SeqOps(e, n) == IF e.err = 1 \/ n = 0 THEN e ELSE SeqOps(SeqOp(e), n - 1)

(* uvlc: value + 1 as a pair, or error *)
RECURSIVE VlcZeros(_, _, _)
VlcZeros(e, p, n) == IF n = 32 THEN 32 ELSE IF BitsAt(e.s, p, 1) = 1 THEN n ELSE VlcZeros(e, p + 1, n + 1)
SeqTicks(e) ==
    LET z == VlcZeros(e, e.p, 0)
        e1 == Skip(e, z + 1)
        v == IF z = 0 THEN Z32 ELSE PairAt(e1.s, e1.p, z)
    IN IF z >= 32 THEN Err(e)
       ELSE [Skip(e1, z) EXCEPT !.h.num_ticks_per_picture =
               IF z >= 16 THEN <<v[1] + P2(z - 16), v[2]>> ELSE <<0, v[2] + P2(z)>>]

SeqTiming(e, strict) ==
    LET e1 == RPair(RPair(e, "num_units_in_tick", 32), "time_scale", 32)
        e2 == IF strict /\ (e1.h.num_units_in_tick = Z32 \/ e1.h.time_scale = Z32) THEN Err(e1)
              ELSE R(e1, "equal_picture_interval", 1)
        e3 == IF e2.err = 0 /\ e2.h.equal_picture_interval = 1 THEN SeqTicks(e2) ELSE e2
        e4 == R(e3, "decoder_model_info_present", 1)
        e5 == RPair(RPlus(e4, "encoder_decoder_buffer_delay_length", 5, 1), "num_units_in_decoding_tick", 32)
        e6 == RPlus(RPlus(e5, "buffer_removal_delay_length", 5, 1), "frame_presentation_delay_length", 5, 1)
    IN IF e3.err = 1 THEN e3
       ELSE IF e4.h.decoder_model_info_present = 0 THEN e4
       ELSE IF strict /\ e5.h.num_units_in_decoding_tick = Z32 THEN Err(e5) ELSE e6

SeqColor(e, strict) ==
    LET a1 == R(e, "hbd", 1)
        a2 == IF a1.h.profile = 2 /\ a1.h.hbd = 1 THEN RPlus(a1, "hbd", 1, 1) ELSE a1
        a3 == RC(a2, a2.h.profile # 1, "monochrome", 1)
        a4 == R(a3, "color_description_present", 1)
        a5 == IF a4.h.color_description_present = 1 THEN R(R(R(a4, "pri", 8), "trc", 8), "mtrx", 8)
              ELSE Set(Set(Set(a4, "pri", 2), "trc", 2), "mtrx", 2)
        srgb == a5.h.pri = 1 /\ a5.h.trc = 13 /\ a5.h.mtrx = 0
        Sub(x) == \* x has ss_hor/ss_ver: layout and sample position
            LET hh == x.h.ss_hor  vv == x.h.ss_ver
                y == Set(x, "layout", IF hh = 1 THEN IF vv = 1 THEN 1 ELSE 2 ELSE 3)
            IN IF hh = 1 /\ vv = 1 THEN R(y, "chr", 2) ELSE y
        a6 == IF a5.h.monochrome = 1
              THEN Set(Set(R(a5, "color_range", 1), "ss_hor", 1), "ss_ver", 1)
              ELSE IF srgb
              THEN IF a5.h.profile # 1 /\ ~(a5.h.profile = 2 /\ a5.h.hbd = 2) THEN Err(a5)
                   ELSE Set(Set(a5, "layout", 3), "color_range", 1)
              ELSE LET b == R(a5, "color_range", 1) IN
                   CASE b.h.profile = 0 -> Sub(Set(Set(b, "ss_hor", 1), "ss_ver", 1))
                     [] b.h.profile = 1 -> Sub(b)
                     [] OTHER -> IF b.h.hbd = 2
                                 THEN LET b1 == R(b, "ss_hor", 1) IN Sub(RC(b1, b1.h.ss_hor = 1, "ss_ver", 1))
                                 ELSE Sub(Set(b, "ss_hor", 1))
    IN IF a6.err = 1 THEN a6
       ELSE IF strict /\ a6.h.mtrx = 0 /\ a6.h.layout # 3 THEN Err(a6)
       ELSE RC(a6, a6.h.monochrome = 0, "separate_uv_delta_q", 1)

SeqTools(e) ==
    LET f0 == R(R(R(e, "sb128", 1), "filter_intra", 1), "intra_edge_filter", 1)
        f1 == R(R(R(R(R(f0, "inter_intra", 1), "masked_compound", 1), "warped_motion", 1), "dual_filter", 1), "order_hint", 1)
        f2 == IF f1.h.order_hint = 1 THEN R(R(f1, "jnt_comp", 1), "ref_frame_mvs", 1) ELSE f1
        f3 == IF B1(f2) = 1 THEN Set(Skip(f2, 1), "screen_content_tools", ADAPTIVE)
              ELSE R(Skip(f2, 1), "screen_content_tools", 1)
        f4 == IF f3.h.screen_content_tools = 0 THEN Set(f3, "force_integer_mv", 2)
              ELSE IF B1(f3) = 1 THEN Set(Skip(f3, 1), "force_integer_mv", ADAPTIVE)
              ELSE R(Skip(f3, 1), "force_integer_mv", 1)
        f5 == IF f4.h.order_hint = 1 THEN RPlus(f4, "order_hint_n_bits", 3, 1) ELSE f4
        f6 == IF e.h.reduced_still_picture_header = 1
              THEN Set(Set(f0, "screen_content_tools", ADAPTIVE), "force_integer_mv", ADAPTIVE) ELSE f5
    IN R(R(R(f6, "super_res", 1), "cdef", 1), "restoration", 1)

(* the whole sequence header, without and with the closing trailing bits *)
SeqBody(e0, strict) ==
    LET e1 == R(e0, "profile", 3)
        e2 == R(R(e1, "still_picture", 1), "reduced_still_picture_header", 1)
        red == e2.h.reduced_still_picture_header = 1
        maj == Bits(e2, 3)
        eR == [Skip(e2, 5) EXCEPT !.h.num_operating_points = 1,
                 !.h.ops = <<<<maj, BitsAt(e2.s, e2.p + 3, 2), 10, 0, 0, 0, 0, 0, 0, 0, 0, 0>>>>]
        t0 == R(e2, "timing_info_present", 1)
        t1 == IF t0.h.timing_info_present = 1 THEN SeqTiming(t0, strict) ELSE t0
        t2 == RPlus(R(t1, "display_model_info_present", 1), "num_operating_points", 5, 1)
        eN == IF t1.err = 1 THEN t1 ELSE SeqOps(t2, t2.h.num_operating_points)
        e3 == IF red THEN eR ELSE eN
        e4 == RPlus(RPlus(e3, "width_n_bits", 4, 1), "height_n_bits", 4, 1)
        e5 == RPlus(RPlus(e4, "max_width", e4.h.width_n_bits, 1), "max_height", e4.h.height_n_bits, 1)
        e6 == RC(e5, ~red, "frame_id_numbers_present", 1)
        e7 == IF e6.h.frame_id_numbers_present = 1
              THEN LET g == RPlus(e6, "delta_frame_id_n_bits", 4, 2) IN
                   RPlus(g, "frame_id_n_bits", 3, g.h.delta_frame_id_n_bits + 1) ELSE e6
        e8 == SeqColor(SeqTools(e7), strict)
    IN IF e1.h.profile > 2 THEN Err(e1)
       ELSE IF red /\ e2.h.still_picture = 0 THEN Err(e2)
       ELSE IF e3.err = 1 THEN e3
       ELSE IF e8.err = 1 THEN e8
       ELSE R(e8, "film_grain_present", 1)
ParseSeq(s, p, strict) == LET e == SeqBody(Rd(s, p, SeqZero), strict) IN
                          IF e.err = 1 THEN e ELSE Trailing(e, strict)

(* equality up to the operating parameter info *)
OpsNoParam(sh) == [i \in 1..Len(sh.ops) |-> SubSeq(sh.ops[i], 1, 7)]
SameSeq(a, b) == [a EXCEPT !.ops = <<>>] = [b EXCEPT !.ops = <<>>] /\ OpsNoParam(a) = OpsNoParam(b)

(* --------------------------------------------------------------- frame header *)
SegOff == [i \in 1..8 |-> <<0, 0, 0, 0, 0, -1, 0, 0>>]
SegZero == [i \in 1..8 |-> Zeros(8)]
GmvId == [i \in 1..7 |-> <<0, 0, 0, 65536, 0, 0, 65536>>]
LfdDef == <<1, 0, 0, 0, -1, 0, -1, -1, 0, 0>>
FgZero == [seed |-> 0, ny |-> 0, yp |-> <<>>, csl |-> 0, nuv |-> <<0, 0>>, up |-> <<>>, vp |-> <<>>, sshift |-> 0,
  lag |-> 0, ary |-> Zeros(24), aru |-> Zeros(25), arv |-> Zeros(25), arshift |-> 0, gss |-> 0, uvm |-> <<0, 0>>,
  uvlm |-> <<0, 0>>, uvo |-> <<0, 0>>, overlap |-> 0, clip |-> 0]
FhZero == [frame_type |-> 0, width |-> <<0, 0>>, height |-> 0, frame_offset |-> 0, temporal_id |-> 0, spatial_id |-> 0,
  show_frame |-> 0, showable_frame |-> 0, refresh_frame_flags |-> 0, frame_id |-> 0, show_existing_frame |-> 0,
  existing_frame_idx |-> 0, frame_presentation_delay |-> Z32, error_resilient_mode |-> 0, disable_cdf_update |-> 0,
  allow_screen_content_tools |-> 0, force_integer_mv |-> 0, frame_size_override |-> 0, primary_ref_frame |-> 0,
  buffer_removal_time_present |-> 0, brt |-> <<>>, render_width |-> 0, render_height |-> 0, sr_den |-> 0,
  sr_enabled |-> 0, have_render_size |-> 0, allow_intrabc |-> 0, frame_ref_short_signaling |-> 0, refidx |-> Zeros(7),
  hp |-> 0, subpel_filter_mode |-> 0, switchable_motion_mode |-> 0, use_ref_frame_mvs |-> 0, refresh_context |-> 0,
  t_uniform |-> 0, t_n_bytes |-> 0, t_min_log2_cols |-> 0, t_max_log2_cols |-> 0, t_log2_cols |-> 0, t_cols |-> 0,
  t_min_log2_rows |-> 0, t_max_log2_rows |-> 0, t_log2_rows |-> 0, t_rows |-> 0, t_col_start |-> <<>>,
  t_row_start |-> <<>>, t_update |-> 0, yac |-> 0, ydc |-> 0, udc |-> 0, uac |-> 0, vdc |-> 0, vac |-> 0, qm |-> 0,
  qm_y |-> 0, qm_u |-> 0, qm_v |-> 0, seg_enabled |-> 0, seg_update_map |-> 0, seg_temporal |-> 0,
  seg_update_data |-> 0, seg |-> SegZero, seg_preskip |-> 0, seg_last |-> 0, lossless |-> Zeros(8), qidx |-> Zeros(8),
  dq_present |-> 0, dq_res |-> 0, dlf_present |-> 0, dlf_res |-> 0, dlf_multi |-> 0, all_lossless |-> 0,
  lf |-> Zeros(4), lf_delta_enabled |-> 0, lf_delta_update |-> 0, lfd |-> Zeros(10), sharpness |-> 0,
  cdef_damping |-> 0, cdef_bits |-> 0, cdef_y |-> Zeros(8), cdef_uv |-> Zeros(8), rest |-> Zeros(3),
  rest_unit |-> Zeros(2), txfm_mode |-> 0, switchable_comp_refs |-> 0, skip_mode_allowed |-> 0,
  skip_mode_enabled |-> 0, skip_mode_refs |-> <<0, 0>>, warp_motion |-> 0, reduced_txtp_set |-> 0, gmv |-> GmvId,
  fg_present |-> 0, fg_update |-> 0, fg |-> FgZero]

(* s.x = [sh |-> sequence header, rh |-> tuple of 8 optional headers, strict] *)
Sh(e) == e.s.x.sh
Ref(e, i) == e.s.x.rh[i + 1]                         \* optional header of slot i
IsIntraType(t) == t = KEY \/ t = INTRA
IsIntra(h) == IsIntraType(h.frame_type)
PocDiff(n, a, b) == IF n = 0 THEN 0
                    ELSE LET m == P2(n - 1)  d == (a - b) % (2 * m) IN IF d >= m THEN d - 2 * m ELSE d

RECURSIVE BrtLoop(_, _)
BrtLoop(e, i) ==
    IF i > Sh(e).num_operating_points THEN e
    ELSE LET op == Sh(e).ops[i]  idc == op[4]
             rd == op[6] = 1 /\ (idc = 0 \/ (Bit(idc, e.h.temporal_id) = 1 /\ Bit(idc, e.h.spatial_id + 8) = 1))
             n == Sh(e).buffer_removal_delay_length
         IN BrtLoop(IF rd THEN [e EXCEPT !.h.brt[i] = PairAt(e.s, e.p, n), !.p = @ + n] ELSE e, i + 1)

FhStart(e) ==
    LET sh == Sh(e)  red == sh.reduced_still_picture_header = 1
        fpd == sh.decoder_model_info_present = 1 /\ sh.equal_picture_interval = 0
        a1 == RC(e, ~red, "frame_type", 2)
        a2 == IF red THEN Set(a1, "show_frame", 1) ELSE R(a1, "show_frame", 1)
        a3 == IF a2.h.show_frame = 1
              THEN LET x == IF fpd THEN RPair(a2, "frame_presentation_delay", sh.frame_presentation_delay_length) ELSE a2
                   IN Set(x, "showable_frame", B2I(x.h.frame_type # KEY))
              ELSE R(a2, "showable_frame", 1)
        a4 == IF (a3.h.frame_type = KEY /\ a3.h.show_frame = 1) \/ a3.h.frame_type = SWITCH \/ red
              THEN Set(a3, "error_resilient_mode", 1) ELSE R(a3, "error_resilient_mode", 1)
        a5 == R(a4, "disable_cdf_update", 1)
        a6 == IF sh.screen_content_tools = ADAPTIVE THEN R(a5, "allow_screen_content_tools", 1)
              ELSE Set(a5, "allow_screen_content_tools", sh.screen_content_tools)
        a7 == IF a6.h.allow_screen_content_tools = 0 THEN a6
              ELSE IF sh.force_integer_mv = ADAPTIVE THEN R(a6, "force_integer_mv", 1)
              ELSE Set(a6, "force_integer_mv", sh.force_integer_mv)
        a8 == IF IsIntra(a7.h) THEN Set(a7, "force_integer_mv", 1) ELSE a7
        a9 == RC(a8, sh.frame_id_numbers_present = 1, "frame_id", sh.frame_id_n_bits)
        b1 == IF red THEN a9 ELSE IF a9.h.frame_type = SWITCH THEN Set(a9, "frame_size_override", 1)
              ELSE R(a9, "frame_size_override", 1)
        b2 == RC(b1, sh.order_hint = 1, "frame_offset", sh.order_hint_n_bits)
        b3 == IF b2.h.error_resilient_mode = 0 /\ ~IsIntra(b2.h) THEN R(b2, "primary_ref_frame", 3)
              ELSE Set(b2, "primary_ref_frame", NOREF)
        b4 == RC(b3, sh.decoder_model_info_present = 1, "buffer_removal_time_present", 1)
    IN IF b4.h.buffer_removal_time_present = 1 THEN BrtLoop(b4, 1) ELSE b4

SuperRes(e) ==
    LET a1 == RC(e, Sh(e).super_res = 1, "sr_enabled", 1)
        a2 == IF a1.h.sr_enabled = 1 THEN RPlus(a1, "sr_den", 3, 9) ELSE Set(a1, "sr_den", 8)
        w1 == a2.h.width[2]  d == a2.h.sr_den
    IN [a2 EXCEPT !.h.width[1] = IF a2.h.sr_enabled = 1 THEN Mx((w1 * 8 + d \div 2) \div d, Mn(16, w1)) ELSE w1]
FrameSizeOwn(e) ==
    LET sh == Sh(e)
        a1 == IF e.h.frame_size_override = 1
              THEN LET w == Bits(e, sh.width_n_bits) + 1  x == Skip(e, sh.width_n_bits) IN
                   [x EXCEPT !.h.width[2] = w, !.h.height = Bits(x, sh.height_n_bits) + 1, !.p = @ + sh.height_n_bits]
              ELSE [e EXCEPT !.h.width[2] = sh.max_width, !.h.height = sh.max_height]
        a2 == R(SuperRes(a1), "have_render_size", 1)
    IN IF a2.h.have_render_size = 1 THEN RPlus(RPlus(a2, "render_width", 16, 1), "render_height", 16, 1)
       ELSE [a2 EXCEPT !.h.render_width = a2.h.width[2], !.h.render_height = a2.h.height]
RECURSIVE FrameSizeRef(_, _)
FrameSizeRef(e, i) ==
    IF i > 7 THEN FrameSizeOwn(e)
    ELSE IF B1(e) = 0 THEN FrameSizeRef(Skip(e, 1), i + 1)
    ELSE LET r == Ref(e, e.h.refidx[i]) IN
         IF ~IsSome(r) THEN Err(e)
         ELSE SuperRes([Skip(e, 1) EXCEPT !.h.width[2] = The(r).width[2], !.h.height = The(r).height,
                           !.h.render_width = The(r).render_width, !.h.render_height = The(r).render_height])

(* short signalling of reference indices (7.8) *)
ShortRefs(e, a, b) ==
    LET n == Sh(e).order_hint_n_bits
        cur == P2(n - 1)
        hint == [i \in 1..8 |-> cur + PocDiff(n, The(Ref(e, i - 1)).frame_offset, e.h.frame_offset)]
        \* last index among unused forward frames with the greatest hint
        Best(cand, better(_, _)) == FoldLeft(LAMBDA acc, i : IF i \notin cand THEN acc
                                               ELSE IF acc = 0 THEN i ELSE IF better(hint[i], hint[acc]) THEN i ELSE acc, 0, I8)
        Ge(x, y) == x >= y
        Lt(x, y) == x < y
        u0 == {a + 1, b + 1}
        fwd(u) == {i \in 1..8 : i \notin u /\ hint[i] >= cur}
        bwd(u) == {i \in 1..8 : i \notin u /\ hint[i] < cur}
        r6 == Best(fwd(u0), Ge)
        u1 == u0 \union {r6}
        r4 == Best(fwd(u1), Lt)
        u2 == u1 \union {r4}
        r5 == Best(fwd(u2), Lt)
        u3 == u2 \union {r5}
        base == <<a + 1, 0, 0, b + 1, r4, r5, r6>>
        fill == FoldLeft(LAMBDA acc, i : IF acc.r[i] # 0 THEN acc
                            ELSE LET k == Best(bwd(acc.u), Ge) IN [r |-> [acc.r EXCEPT ![i] = k], u |-> acc.u \union {k}],
                         [r |-> base, u |-> u3], <<2, 3, 4, 5, 6, 7>>)
        rest == Best(1..8, Lt)
    IN [i \in 1..7 |-> (IF fill.r[i] = 0 THEN rest ELSE fill.r[i]) - 1]

RECURSIVE RefIdxLoop(_, _)
RefIdxLoop(e, i) ==
    IF i > 7 \/ e.err = 1 THEN e
    ELSE LET sh == Sh(e)
             a == IF e.h.frame_ref_short_signaling = 1 THEN e ELSE RI(e, "refidx", i, 3)
             d == Bits(a, sh.delta_frame_id_n_bits) + 1
             want == (a.h.frame_id + P2(sh.frame_id_n_bits) - d) % P2(sh.frame_id_n_bits)
             r == Ref(a, a.h.refidx[i])
         IN IF sh.frame_id_numbers_present = 0 THEN RefIdxLoop(a, i + 1)
            ELSE IF ~IsSome(r) \/ The(r).frame_id # want THEN Err(a)
            ELSE RefIdxLoop(Skip(a, sh.delta_frame_id_n_bits), i + 1)

FhRefs(e) ==
    LET sh == Sh(e)  key == e.h.frame_type = KEY  oh == sh.order_hint = 1
        i1 == IF key /\ e.h.show_frame = 1 THEN Set(e, "refresh_frame_flags", 255) ELSE R(e, "refresh_frame_flags", 8)
        i2 == IF i1.h.refresh_frame_flags # 255 /\ i1.h.error_resilient_mode = 1 /\ oh
              THEN Skip(i1, 8 * sh.order_hint_n_bits) ELSE i1
        i3 == FrameSizeOwn(i2)
        i4 == IF i3.h.allow_screen_content_tools = 1 /\ i3.h.sr_enabled = 0 THEN R(i3, "allow_intrabc", 1) ELSE i3
        p1 == IF e.h.frame_type = SWITCH THEN Set(e, "refresh_frame_flags", 255) ELSE R(e, "refresh_frame_flags", 8)
        p2 == IF p1.h.error_resilient_mode = 1 /\ oh THEN Skip(p1, 8 * sh.order_hint_n_bits) ELSE p1
        p3 == RC(p2, oh, "frame_ref_short_signaling", 1)
        p4 == IF p3.h.frame_ref_short_signaling = 1
              THEN IF \E i \in 0..7 : ~IsSome(Ref(p3, i)) THEN Err(p3)
                   ELSE Skip(Set(p3, "refidx", ShortRefs(p3, Bits(p3, 3), BitsAt(p3.s, p3.p + 3, 3))), 6)
              ELSE p3
        p5 == RefIdxLoop(p4, 1)
        p6 == IF p5.h.error_resilient_mode = 0 /\ p5.h.frame_size_override = 1 THEN FrameSizeRef(p5, 1) ELSE FrameSizeOwn(p5)
        p7 == RC(p6, p6.h.force_integer_mv = 0, "hp", 1)
        p8 == IF B1(p7) = 1 THEN Set(Skip(p7, 1), "subpel_filter_mode", 4) ELSE R(Skip(p7, 1), "subpel_filter_mode", 2)
        p9 == R(p8, "switchable_motion_mode", 1)
        q1 == RC(p9, p9.h.error_resilient_mode = 0 /\ sh.ref_frame_mvs = 1 /\ oh, "use_ref_frame_mvs", 1)
    IN IF IsIntra(e.h) THEN IF e.s.x.strict /\ e.h.frame_type = INTRA /\ i1.h.refresh_frame_flags = 255 THEN Err(i1) ELSE i4
       ELSE IF p5.err = 1 THEN p5 ELSE IF p6.err = 1 THEN p6 ELSE q1

(* tiling *)
RECURSIVE TLog2(_, _, _)
TLog2(sz, tgt, k) == IF sz * P2(k) >= tgt THEN k ELSE TLog2(sz, tgt, k + 1)
RECURSIVE IncBits(_, _, _)
IncBits(e, k, max) == IF k >= max THEN <<k, e>> ELSE IF B1(e) = 0 THEN <<k, Skip(e, 1)>> ELSE IncBits(Skip(e, 1), k + 1, max)
Starts(total, step) == [i \in 1..((total + step - 1) \div step) |-> (i - 1) * step]
RECURSIVE NonUniform(_, _, _, _, _)      \* <<starts, widest, e>>
NonUniform(e, at, total, maxsz, acc) ==
    IF at >= total \/ Len(acc[1]) >= 64 THEN <<acc[1], acc[2], e>>
    ELSE LET m == Mn(total - at, maxsz)
             u == IF m > 1 THEN Uniform(e, m) ELSE <<0, 0>>
             w == 1 + u[1]
         IN NonUniform(Skip(e, u[2]), at + w, total, maxsz, <<Append(acc[1], at), Mx(acc[2], w)>>)
FhTiles(e) ==
    LET sh == Sh(e)  h == e.h
        l2 == 6 + sh.sb128
        sbw == (h.width[1] + P2(l2) - 1) \div P2(l2)
        sbh == (h.height + P2(l2) - 1) \div P2(l2)
        maxw == 4096 \div P2(l2)
        maxarea == (4096 * 2304) \div P2(2 * l2)
        minc == TLog2(maxw, sbw, 0)
        maxc == TLog2(1, Mn(sbw, 64), 0)
        maxr == TLog2(1, Mn(sbh, 64), 0)
        mint == Mx(TLog2(maxarea, sbw * sbh, 0), minc)
        a0 == [e EXCEPT !.h.t_uniform = B1(e), !.h.t_min_log2_cols = minc, !.h.t_max_log2_cols = maxc,
                        !.h.t_max_log2_rows = maxr, !.p = @ + 1]
        cu == IncBits(a0, minc, maxc)
        cst == Starts(sbw, 1 + ((sbw - 1) \div P2(cu[1])))
        minr == Mx(mint - cu[1], 0)
        ru == IncBits(cu[2], minr, maxr)
        rst == Starts(sbh, 1 + ((sbh - 1) \div P2(ru[1])))
        u == [ru[2] EXCEPT !.h.t_log2_cols = cu[1], !.h.t_cols = Len(cst), !.h.t_col_start = Append(cst, sbw),
                !.h.t_min_log2_rows = minr, !.h.t_log2_rows = ru[1], !.h.t_rows = Len(rst), !.h.t_row_start = Append(rst, sbh)]
        nc == NonUniform(a0, 0, sbw, maxw, <<<<>>, 0>>)
        area == IF mint > 0 THEN (sbw * sbh) \div P2(mint + 1) ELSE sbw * sbh
        nr == NonUniform(nc[3], 0, sbh, Mx(area \div nc[2], 1), <<<<>>, 0>>)
        v == [nr[3] EXCEPT !.h.t_log2_cols = TLog2(1, Len(nc[1]), 0), !.h.t_cols = Len(nc[1]), !.h.t_col_start = Append(nc[1], sbw),
                !.h.t_log2_rows = TLog2(1, Len(nr[1]), 0), !.h.t_rows = Len(nr[1]), !.h.t_row_start = Append(nr[1], sbh)]
        b == IF a0.h.t_uniform = 1 THEN u ELSE v
        nb == b.h.t_log2_cols + b.h.t_log2_rows
        c == R(b, "t_update", nb)
    IN IF nb = 0 THEN b
       ELSE IF c.h.t_update >= c.h.t_cols * c.h.t_rows THEN Err(c)
       ELSE RPlus(c, "t_n_bytes", 2, 1)

FhQuant(e) ==
    LET sh == Sh(e)
        a1 == ROptS(R(e, "yac", 8), "ydc", 7, 0)
        diff == IF sh.separate_uv_delta_q = 1 THEN B1(a1) ELSE 0
        a2 == IF sh.separate_uv_delta_q = 1 THEN Skip(a1, 1) ELSE a1
        a3 == ROptS(ROptS(a2, "udc", 7, 0), "uac", 7, 0)
        a4 == IF diff = 1 THEN ROptS(ROptS(a3, "vdc", 7, 0), "vac", 7, 0)
              ELSE Set(Set(a3, "vdc", a3.h.udc), "vac", a3.h.uac)
        a5 == R(IF sh.monochrome = 1 THEN a1 ELSE a4, "qm", 1)
        a6 == R(R(a5, "qm_y", 4), "qm_u", 4)
    IN IF a5.h.qm = 0 THEN a5
       ELSE IF sh.separate_uv_delta_q = 1 THEN R(a6, "qm_v", 4) ELSE Set(a6, "qm_v", a6.h.qm_u)

(* one feature of one segment: flag, then n-bit value (signed for the first five) *)
SegFeature(e, i, f) ==
    LET on == B1(e) = 1
        a == Skip(e, 1)
        n == CASE f = 1 -> 9 [] f \in 2..5 -> 7 [] f = 6 -> 3 [] OTHER -> 0
        v == IF f <= 5 THEN SVal(Bits(a, n), n) ELSE IF f = 6 THEN Bits(a, n) ELSE 1
    IN IF on THEN [a EXCEPT !.p = @ + n, !.h.seg[i][f] = v, !.h.seg_last = i - 1, !.h.seg_preskip = IF f >= 6 THEN 1 ELSE @]
       ELSE a
FhSeg(e) ==
    LET a1 == R(e, "seg_enabled", 1)
        off == Set(a1, "seg", SegOff)
        a2 == IF a1.h.primary_ref_frame = NOREF THEN Set(Set(a1, "seg_update_map", 1), "seg_update_data", 1)
              ELSE LET x == R(a1, "seg_update_map", 1)
                       y == RC(x, x.h.seg_update_map = 1, "seg_temporal", 1) IN R(y, "seg_update_data", 1)
        a3 == Set(Set(a2, "seg", SegOff), "seg_last", -1)
        full == FoldLeft(LAMBDA x, i : FoldLeft(LAMBDA y, f : SegFeature(y, i, f), x, I8), a3, I8)
        r == Ref(a2, a2.h.refidx[a2.h.primary_ref_frame + 1])
    IN IF a1.h.seg_enabled = 0 THEN off
       ELSE IF a2.h.seg_update_data = 1 THEN full
       ELSE IF ~IsSome(r) THEN Err(a2)
       ELSE [a2 EXCEPT !.h.seg = The(r).seg, !.h.seg_preskip = The(r).seg_preskip, !.h.seg_last = The(r).seg_last]

FhDelta(e) ==
    LET a1 == RC(e, e.h.yac # 0, "dq_present", 1)
        a2 == RC(a1, a1.h.dq_present = 1, "dq_res", 2)
        a3 == RC(a2, a2.h.dq_present = 1 /\ a2.h.allow_intrabc = 0, "dlf_present", 1)
        a4 == IF a3.h.dlf_present = 1 THEN R(R(a3, "dlf_res", 2), "dlf_multi", 1) ELSE a3
        h == a4.h
        dl == h.ydc = 0 /\ h.udc = 0 /\ h.uac = 0 /\ h.vdc = 0 /\ h.vac = 0
        q == [i \in 1..8 |-> IF h.seg_enabled = 1 THEN Clip(h.yac + h.seg[i][1], 0, 255) ELSE h.yac]
        ll == [i \in 1..8 |-> B2I(q[i] = 0 /\ dl)]
    IN [a4 EXCEPT !.h.qidx = q, !.h.lossless = ll, !.h.all_lossless = B2I(\A i \in 1..8 : ll[i] = 1)]

FhLoopFilter(e) ==
    LET none == e.h.all_lossless = 1 \/ e.h.allow_intrabc = 1
        a1 == RI(RI(e, "lf", 1, 6), "lf", 2, 6)
        a2 == IF Sh(e).monochrome = 0 /\ (a1.h.lf[1] # 0 \/ a1.h.lf[2] # 0) THEN RI(RI(a1, "lf", 3, 6), "lf", 4, 6) ELSE a1
        a3 == R(a2, "sharpness", 3)
        prim == a3.h.primary_ref_frame
        r == IF prim = NOREF THEN None ELSE Ref(a3, a3.h.refidx[prim + 1])
        a4 == Set(a3, "lfd", IF prim = NOREF THEN LfdDef ELSE The(r).lfd)
        a5 == R(a4, "lf_delta_enabled", 1)
        a6 == RC(a5, a5.h.lf_delta_enabled = 1, "lf_delta_update", 1)
        a7 == IF a6.h.lf_delta_update = 0 THEN a6
              ELSE FoldLeft(LAMBDA x, i : IF B1(x) = 0 THEN Skip(x, 1)
                                ELSE [x EXCEPT !.h.lfd[i] = SBits(Skip(x, 1), 7), !.p = @ + 8], a6, Rng(1, 10))
    IN IF none THEN [e EXCEPT !.h.lf_delta_enabled = 1, !.h.lf_delta_update = 1, !.h.lfd = LfdDef]
       ELSE IF prim # NOREF /\ ~IsSome(r) THEN Err(a3) ELSE a7

FhCdef(e) ==
    LET a1 == R(RPlus(e, "cdef_damping", 2, 3), "cdef_bits", 2)
        mono == Sh(e).monochrome = 1
    IN IF e.h.all_lossless = 1 \/ Sh(e).cdef = 0 \/ e.h.allow_intrabc = 1 THEN e
       ELSE FoldLeft(LAMBDA x, i : LET y == RI(x, "cdef_y", i, 6) IN IF mono THEN y ELSE RI(y, "cdef_uv", i, 6),
                     a1, Rng(1, P2(a1.h.cdef_bits)))

FhRest(e) ==
    LET sh == Sh(e)
        on == (e.h.all_lossless = 0 \/ e.h.sr_enabled = 1) /\ sh.restoration = 1 /\ e.h.allow_intrabc = 0
        a1 == RI(e, "rest", 1, 2)
        a2 == IF sh.monochrome = 1 THEN a1 ELSE RI(RI(a1, "rest", 2, 2), "rest", 3, 2)
        any == \E i \in 1..3 : a2.h.rest[i] # 0
        u0 == 6 + sh.sb128
        b == B1(a2)
        u == IF b = 0 THEN u0 ELSE IF sh.sb128 = 1 THEN u0 + 1 ELSE u0 + 1 + BitsAt(a2.s, a2.p + 1, 1)
        a3 == Skip(a2, IF b = 1 /\ sh.sb128 = 0 THEN 2 ELSE 1)
        sub == (a3.h.rest[2] # 0 \/ a3.h.rest[3] # 0) /\ sh.ss_hor = 1 /\ sh.ss_ver = 1
        a4 == IF sub THEN [Skip(a3, 1) EXCEPT !.h.rest_unit = <<u, u - B1(a3)>>] ELSE Set(a3, "rest_unit", <<u, u>>)
    IN IF ~on THEN e ELSE IF any THEN a4 ELSE Set(a2, "rest_unit", <<8, 0>>)

(* skip mode references: <<ok, allowed, refs>> *)
SkipMode(e) ==
    LET n == Sh(e).order_hint_n_bits  poc == e.h.frame_offset
        rp == [i \in 1..7 |-> The(Ref(e, e.h.refidx[i])).frame_offset]
        D(a, b) == PocDiff(n, a, b)
        best == FoldLeft(LAMBDA acc, i :
                   LET d == D(rp[i], poc) IN
                   IF d > 0 THEN IF acc.a = 0 \/ D(rp[acc.a], rp[i]) > 0 THEN [acc EXCEPT !.a = i] ELSE acc
                   ELSE IF d < 0 /\ (acc.b = 0 \/ D(rp[i], rp[acc.b]) > 0) THEN [acc EXCEPT !.b = i] ELSE acc,
                   [a |-> 0, b |-> 0], I7)
        b2 == IF best.b = 0 THEN 0
              ELSE FoldLeft(LAMBDA acc, i : IF D(rp[i], rp[best.b]) < 0 /\ (acc = 0 \/ D(rp[i], rp[acc]) > 0) THEN i ELSE acc, 0, I7)
        o == IF best.b # 0 /\ best.a # 0 THEN best.a ELSE IF best.b # 0 THEN b2 ELSE 0
    IN IF \E i \in 1..7 : ~IsSome(Ref(e, e.h.refidx[i])) THEN <<FALSE, 0, <<0, 0>>>>
       ELSE IF best.b = 0 \/ o = 0 THEN <<TRUE, 0, <<0, 0>>>>
       ELSE <<TRUE, 1, <<Mn(best.b, o) - 1, Mx(best.b, o) - 1>>>>

FhModes(e) ==
    LET a1 == IF e.h.all_lossless = 1 THEN Set(e, "txfm_mode", 0)
              ELSE Set(Skip(e, 1), "txfm_mode", IF B1(e) = 1 THEN 2 ELSE 1)
        a2 == RC(a1, ~IsIntra(a1.h), "switchable_comp_refs", 1)
        sm == IF a2.h.switchable_comp_refs = 1 /\ Sh(e).order_hint = 1 THEN SkipMode(a2) ELSE <<TRUE, 0, <<0, 0>>>>
        a3 == [a2 EXCEPT !.h.skip_mode_allowed = sm[2], !.h.skip_mode_refs = sm[3]]
        a4 == RC(a3, sm[2] = 1, "skip_mode_enabled", 1)
        a5 == RC(a4, a4.h.error_resilient_mode = 0 /\ ~IsIntra(a4.h) /\ Sh(e).warped_motion = 1, "warp_motion", 1)
    IN IF ~sm[1] THEN Err(a2) ELSE R(a5, "reduced_txtp_set", 1)

(* global motion *)
InvRecenter(r, v) == IF v > 2 * r THEN v ELSE IF v % 2 = 1 THEN r - (v + 1) \div 2 ELSE r + v \div 2
RECURSIVE SubexpU(_, _, _, _)            \* <<raw value, bits>> of get_bits_subexp_u, before recentering
SubexpU(e, n, i, acc) ==
    LET b == IF i = 0 THEN 3 ELSE 3 + i - 1 IN
    IF n < acc[1] + 3 * P2(b)
    THEN LET u == Uniform(Skip(e, acc[2]), n - acc[1] + 1) IN <<acc[1] + u[1], acc[2] + u[2]>>
    ELSE IF BitsAt(e.s, e.p + acc[2], 1) = 0
    THEN <<acc[1] + BitsAt(e.s, e.p + acc[2] + 1, b), acc[2] + 1 + b>>
    ELSE SubexpU(e, n, i + 1, <<acc[1] + P2(b), acc[2] + 1>>)
Subexp(e, ref, n) ==                     \* <<value, bits>>
    LET N == 2 * P2(n)  r == ref + P2(n)
        u == SubexpU(e, N, 0, <<0, 0>>)
        v == IF r * 2 <= N THEN InvRecenter(r, u[1]) ELSE N - InvRecenter(N - r, u[1])
    IN <<v - P2(n), u[2]>>
Gmv(e, i) ==
    IF e.err = 1 THEN e
    ELSE IF B1(e) = 0 THEN Skip(e, 1)
    ELSE
    LET b2 == BitsAt(e.s, e.p + 1, 1)
        t == IF b2 = 1 THEN 2 ELSE IF BitsAt(e.s, e.p + 2, 1) = 1 THEN 1 ELSE 3
        a0 == Skip(e, IF b2 = 1 THEN 2 ELSE 3)
        prim == e.h.primary_ref_frame
        r == IF prim = NOREF THEN None ELSE Ref(e, e.h.refidx[prim + 1])
        ref == IF prim = NOREF THEN GmvId[1] ELSE The(r).gmv[i]          \* <<type, m0..m5>>
        sub(x, v, n) == Subexp(x, v, n)
        s2 == sub(a0, (ref[4] - 65536) \div 2, 12)
        a1 == Skip(a0, s2[2])
        s3 == sub(a1, ref[5] \div 2, 12)
        a2 == IF t >= 2 THEN Skip(a1, s3[2]) ELSE a0
        m2 == IF t >= 2 THEN 65536 + 2 * s2[1] ELSE 65536
        m3 == IF t >= 2 THEN 2 * s3[1] ELSE 0
        s4 == sub(a2, ref[6] \div 2, 12)
        a3 == Skip(a2, s4[2])
        s5 == sub(a3, (ref[7] - 65536) \div 2, 12)
        a4 == IF t = 3 THEN Skip(a3, s5[2]) ELSE a2
        m4 == IF t = 3 THEN 2 * s4[1] ELSE -m3
        m5 == IF t = 3 THEN 65536 + 2 * s5[1] ELSE m2
        bits == IF t >= 2 THEN 12 ELSE 9 - B2I(e.h.hp = 0)
        sh == IF t >= 2 THEN 10 ELSE 13 + B2I(e.h.hp = 0)
        s0 == sub(a4, ref[2] \div P2(sh), bits)
        a5 == Skip(a4, s0[2])
        s1 == sub(a5, ref[3] \div P2(sh), bits)
    IN IF prim # NOREF /\ ~IsSome(r) THEN Err(e)
       ELSE [Skip(a5, s1[2]) EXCEPT !.h.gmv[i] = <<t, s0[1] * P2(sh), s1[1] * P2(sh), m2, m3, m4, m5>>]
FhGmv(e) == IF IsIntra(e.h) THEN e ELSE FoldLeft(LAMBDA x, i : Gmv(x, i), e, I7)

(* film grain *)
RECURSIVE Points(_, _, _)                \* <<ok, flat list>>
Points(e, n, acc) ==
    IF n = 0 THEN acc
    ELSE LET k == Len(acc)
             x == BitsAt(e.s, e.p + 8 * k, 8) IN
         IF k > 0 /\ acc[k - 1] >= x THEN <<-1>>
         ELSE Points(e, n - 1, acc \o <<x, BitsAt(e.s, e.p + 8 * k + 8, 8)>>)
Coefs(e, n, total) == [i \in 1..total |-> IF i <= n THEN BitsAt(e.s, e.p + 8 * (i - 1), 8) - 128 ELSE 0]
FgData(e, seed) ==
    LET sh == Sh(e)  sub == sh.ss_hor = 1 /\ sh.ss_ver = 1
        ny == Bits(e, 4)
        e1 == Skip(e, 4)
        yp == IF ny > 14 THEN <<-1>> ELSE Points(e1, ny, <<>>)
        e2 == Skip(e1, 16 * ny)
        csl == IF sh.monochrome = 0 THEN B1(e2) ELSE 0
        e3 == IF sh.monochrome = 0 THEN Skip(e2, 1) ELSE e2
        nouv == sh.monochrome = 1 \/ csl = 1 \/ (sub /\ ny = 0)
        nu == IF nouv THEN 0 ELSE Bits(e3, 4)
        up == IF nu > 10 THEN <<-1>> ELSE IF nouv THEN <<>> ELSE Points(Skip(e3, 4), nu, <<>>)
        e4 == IF nouv THEN e3 ELSE Skip(e3, 4 + 16 * nu)
        nv == IF nouv THEN 0 ELSE Bits(e4, 4)
        vp == IF nv > 10 THEN <<-1>> ELSE IF nouv THEN <<>> ELSE Points(Skip(e4, 4), nv, <<>>)
        e5 == IF nouv THEN e4 ELSE Skip(e4, 4 + 16 * nv)
        bad == yp = <<-1>> \/ up = <<-1>> \/ vp = <<-1>> \/ (sub /\ ((nu = 0) # (nv = 0)))
        ssh == Bits(e5, 2) + 8
        lag == BitsAt(e5.s, e5.p + 2, 2)
        e6 == Skip(e5, 4)
        npos == 2 * lag * (lag + 1)
        ary == IF ny > 0 THEN Coefs(e6, npos, 24) ELSE Zeros(24)
        e7 == IF ny > 0 THEN Skip(e6, 8 * npos) ELSE e6
        nuvp == npos + B2I(ny > 0)
        hu == nu > 0 \/ csl = 1
        aru == IF hu THEN Coefs(e7, nuvp, 25) ELSE Zeros(25)
        e8 == IF hu THEN Skip(e7, 8 * nuvp) ELSE e7
        hv == nv > 0 \/ csl = 1
        arv == IF hv THEN Coefs(e8, nuvp, 25) ELSE Zeros(25)
        e9 == IF hv THEN Skip(e8, 8 * nuvp) ELSE e8
        arsh == Bits(e9, 2) + 6
        gss == BitsAt(e9.s, e9.p + 2, 2)
        f1 == Skip(e9, 4)
        mu == IF nu > 0 THEN <<Bits(f1, 8) - 128, BitsAt(f1.s, f1.p + 8, 8) - 128, BitsAt(f1.s, f1.p + 16, 9) - 256>> ELSE <<0, 0, 0>>
        f2 == IF nu > 0 THEN Skip(f1, 25) ELSE f1
        mv == IF nv > 0 THEN <<Bits(f2, 8) - 128, BitsAt(f2.s, f2.p + 8, 8) - 128, BitsAt(f2.s, f2.p + 16, 9) - 256>> ELSE <<0, 0, 0>>
        f3 == IF nv > 0 THEN Skip(f2, 25) ELSE f2
    IN IF bad THEN Err(e)
       ELSE [Skip(f3, 2) EXCEPT !.h.fg = [seed |-> seed, ny |-> ny, yp |-> yp, csl |-> csl, nuv |-> <<nu, nv>>, up |-> up,
              vp |-> vp, sshift |-> ssh, lag |-> lag, ary |-> ary, aru |-> aru, arv |-> arv, arshift |-> arsh, gss |-> gss,
              uvm |-> <<mu[1], mv[1]>>, uvlm |-> <<mu[2], mv[2]>>, uvo |-> <<mu[3], mv[3]>>,
              overlap |-> B1(f3), clip |-> BitsAt(f3.s, f3.p + 1, 1)]]
FhGrain(e) ==
    LET a1 == RC(e, Sh(e).film_grain_present = 1 /\ (e.h.show_frame = 1 \/ e.h.showable_frame = 1), "fg_present", 1)
        seed == Bits(a1, 16)
        a2 == Skip(a1, 16)
        a3 == IF a2.h.frame_type # INTER THEN Set(a2, "fg_update", 1) ELSE R(a2, "fg_update", 1)
        ri == Bits(a3, 3)
    IN IF a1.h.fg_present = 0 THEN a1
       ELSE IF a3.h.fg_update = 1 THEN FgData(a3, seed)
       ELSE IF (\A i \in 1..7 : a3.h.refidx[i] # ri) \/ ~IsSome(Ref(a3, ri)) THEN Err(a3)
       ELSE Set(Skip(a3, 3), "fg", [The(Ref(a3, ri)).fg EXCEPT !.seed = seed])

Then(e, Op(_)) == IF e.err = 1 THEN e ELSE Op(e)
FhRefreshCtx(e) == IF Sh(e).reduced_still_picture_header = 1 \/ e.h.disable_cdf_update = 1 THEN e
                   ELSE [e EXCEPT !.h.refresh_context = 1 - B1(e), !.p = @ + 1]

(* show_existing_frame header *)
FhExisting(e) ==
    LET sh == Sh(e)
        a1 == R(Set(e, "show_existing_frame", 1), "existing_frame_idx", 3)
        a2 == IF sh.decoder_model_info_present = 1 /\ sh.equal_picture_interval = 0
              THEN RPair(a1, "frame_presentation_delay", sh.frame_presentation_delay_length) ELSE a1
        a3 == R(a2, "frame_id", sh.frame_id_n_bits)
        r == Ref(a1, a1.h.existing_frame_idx)
    IN IF sh.frame_id_numbers_present = 0 THEN a2
       ELSE IF ~IsSome(r) \/ The(r).frame_id # a3.h.frame_id THEN Err(a3) ELSE a3

(* frame header at bit p of source s; x = [sh, rh, strict] is in s.x *)
ParseFrameHdr(s, p, tid, sid) ==
    LET sh == s.x.sh
        e0 == Rd(s, p, [FhZero EXCEPT !.temporal_id = tid, !.spatial_id = sid,
                           !.brt = [i \in 1..sh.num_operating_points |-> Z32]])
        red == sh.reduced_still_picture_header = 1
        e1 == FhStart(IF red THEN e0 ELSE Skip(e0, 1))
        e2 == Then(FhRefs(e1), FhRefreshCtx)
        e3 == Then(Then(Then(Then(e2, FhTiles), FhQuant), FhSeg), FhDelta)
        e4 == Then(Then(Then(e3, FhLoopFilter), FhCdef), FhRest)
    IN IF ~red /\ B1(e0) = 1 THEN FhExisting(Skip(e0, 1))
       ELSE Then(Then(Then(e4, FhModes), FhGmv), FhGrain)
(* the stand-alone sequence header parser: <<result, header>>; the last sequence header of the data wins *)
RECURSIVE Standalone(_, _, _, _)
Standalone(pk, b, n, res) ==
    LET s == Src(pk, b, n - b, 0)
        type == BitsAt(s, 1, 4)
        hs == BitsAt(s, 6, 1)
        p1 == IF BitsAt(s, 5, 1) = 1 THEN 16 ELSE 8
        u == Uleb(s, p1)
        p2 == IF hs = 1 THEN u.p ELSE p1
        lim == IF hs = 1 THEN p2 \div 8 + u.v ELSE s.lim
        e == ParseSeq(s, p2, FALSE)
        r == IF type = 1 THEN <<0, e.h>> ELSE res
        nx == b + lim
    IN IF p2 > 8 * s.lim \/ (hs = 1 /\ (~u.ok \/ u.v > s.lim - p2 \div 8)) THEN <<-22, SeqZero>>
       ELSE IF type = 1 /\ (e.err = 1 \/ (e.p + 7) \div 8 > lim) THEN <<-22, SeqZero>>
       ELSE IF nx >= n THEN r ELSE Standalone(pk, nx, n, r)
ParseSequenceHeader(pk) == Standalone(pk, 0, PkLen(pk), <<-2, SeqZero>>)
=============================================================================

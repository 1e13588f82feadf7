/* written by lib/gen_print.py */
PAIR (ch, ch)
PAIR (ch, bo)
PAIR (ch, i8)
PAIR (ch, u8)
PAIR (ch, i16)
PAIR (ch, u16)
PAIR (ch, i32)
PAIR (ch, u32)
PAIR (ch, i64)
PAIR (ch, u64)
PAIR (ch, lo)
PAIR (ch, ul)
PAIR (ch, i128)
PAIR (ch, u128)
PAIR (ch, fl)
PAIR (ch, dl)
PAIR (ch, lg)
PAIR (ch, cf)
PAIR (ch, cd)
PAIR (ch, cl)
PAIR (ch, st)
PAIR (ch, cs)
PAIR (ch, pt)
PAIR (ch, cv)
PAIR (bo, ch)
PAIR (bo, bo)
PAIR (bo, i8)
PAIR (bo, u8)
PAIR (bo, i16)
PAIR (bo, u16)
PAIR (bo, i32)
PAIR (bo, u32)
PAIR (bo, i64)
PAIR (bo, u64)
PAIR (bo, lo)
PAIR (bo, ul)
PAIR (bo, i128)
PAIR (bo, u128)
PAIR (bo, fl)
PAIR (bo, dl)
PAIR (bo, lg)
PAIR (bo, cf)
PAIR (bo, cd)
PAIR (bo, cl)
PAIR (bo, st)
PAIR (bo, cs)
PAIR (bo, pt)
PAIR (bo, cv)
PAIR (i8, ch)
PAIR (i8, bo)
PAIR (i8, i8)
PAIR (i8, u8)
PAIR (i8, i16)
PAIR (i8, u16)
PAIR (i8, i32)
PAIR (i8, u32)
PAIR (i8, i64)
PAIR (i8, u64)
PAIR (i8, lo)
PAIR (i8, ul)
PAIR (i8, i128)
PAIR (i8, u128)
PAIR (i8, fl)
PAIR (i8, dl)
PAIR (i8, lg)
PAIR (i8, cf)
PAIR (i8, cd)
PAIR (i8, cl)
PAIR (i8, st)
PAIR (i8, cs)
PAIR (i8, pt)
PAIR (i8, cv)
PAIR (u8, ch)
PAIR (u8, bo)
PAIR (u8, i8)
PAIR (u8, u8)
PAIR (u8, i16)
PAIR (u8, u16)
PAIR (u8, i32)
PAIR (u8, u32)
PAIR (u8, i64)
PAIR (u8, u64)
PAIR (u8, lo)
PAIR (u8, ul)
PAIR (u8, i128)
PAIR (u8, u128)
PAIR (u8, fl)
PAIR (u8, dl)
PAIR (u8, lg)
PAIR (u8, cf)
PAIR (u8, cd)
PAIR (u8, cl)
PAIR (u8, st)
PAIR (u8, cs)
PAIR (u8, pt)
PAIR (u8, cv)
PAIR (i16, ch)
PAIR (i16, bo)
PAIR (i16, i8)
PAIR (i16, u8)
PAIR (i16, i16)
PAIR (i16, u16)
PAIR (i16, i32)
PAIR (i16, u32)
PAIR (i16, i64)
PAIR (i16, u64)
PAIR (i16, lo)
PAIR (i16, ul)
PAIR (i16, i128)
PAIR (i16, u128)
PAIR (i16, fl)
PAIR (i16, dl)
PAIR (i16, lg)
PAIR (i16, cf)
PAIR (i16, cd)
PAIR (i16, cl)
PAIR (i16, st)
PAIR (i16, cs)
PAIR (i16, pt)
PAIR (i16, cv)
PAIR (u16, ch)
PAIR (u16, bo)
PAIR (u16, i8)
PAIR (u16, u8)
PAIR (u16, i16)
PAIR (u16, u16)
PAIR (u16, i32)
PAIR (u16, u32)
PAIR (u16, i64)
PAIR (u16, u64)
PAIR (u16, lo)
PAIR (u16, ul)
PAIR (u16, i128)
PAIR (u16, u128)
PAIR (u16, fl)
PAIR (u16, dl)
PAIR (u16, lg)
PAIR (u16, cf)
PAIR (u16, cd)
PAIR (u16, cl)
PAIR (u16, st)
PAIR (u16, cs)
PAIR (u16, pt)
PAIR (u16, cv)
PAIR (i32, ch)
PAIR (i32, bo)
PAIR (i32, i8)
PAIR (i32, u8)
PAIR (i32, i16)
PAIR (i32, u16)
PAIR (i32, i32)
PAIR (i32, u32)
PAIR (i32, i64)
PAIR (i32, u64)
PAIR (i32, lo)
PAIR (i32, ul)
PAIR (i32, i128)
PAIR (i32, u128)
PAIR (i32, fl)
PAIR (i32, dl)
PAIR (i32, lg)
PAIR (i32, cf)
PAIR (i32, cd)
PAIR (i32, cl)
PAIR (i32, st)
PAIR (i32, cs)
PAIR (i32, pt)
PAIR (i32, cv)
PAIR (u32, ch)
PAIR (u32, bo)
PAIR (u32, i8)
PAIR (u32, u8)
PAIR (u32, i16)
PAIR (u32, u16)
PAIR (u32, i32)
PAIR (u32, u32)
PAIR (u32, i64)
PAIR (u32, u64)
PAIR (u32, lo)
PAIR (u32, ul)
PAIR (u32, i128)
PAIR (u32, u128)
PAIR (u32, fl)
PAIR (u32, dl)
PAIR (u32, lg)
PAIR (u32, cf)
PAIR (u32, cd)
PAIR (u32, cl)
PAIR (u32, st)
PAIR (u32, cs)
PAIR (u32, pt)
PAIR (u32, cv)
PAIR (i64, ch)
PAIR (i64, bo)
PAIR (i64, i8)
PAIR (i64, u8)
PAIR (i64, i16)
PAIR (i64, u16)
PAIR (i64, i32)
PAIR (i64, u32)
PAIR (i64, i64)
PAIR (i64, u64)
PAIR (i64, lo)
PAIR (i64, ul)
PAIR (i64, i128)
PAIR (i64, u128)
PAIR (i64, fl)
PAIR (i64, dl)
PAIR (i64, lg)
PAIR (i64, cf)
PAIR (i64, cd)
PAIR (i64, cl)
PAIR (i64, st)
PAIR (i64, cs)
PAIR (i64, pt)
PAIR (i64, cv)
PAIR (u64, ch)
PAIR (u64, bo)
PAIR (u64, i8)
PAIR (u64, u8)
PAIR (u64, i16)
PAIR (u64, u16)
PAIR (u64, i32)
PAIR (u64, u32)
PAIR (u64, i64)
PAIR (u64, u64)
PAIR (u64, lo)
PAIR (u64, ul)
PAIR (u64, i128)
PAIR (u64, u128)
PAIR (u64, fl)
PAIR (u64, dl)
PAIR (u64, lg)
PAIR (u64, cf)
PAIR (u64, cd)
PAIR (u64, cl)
PAIR (u64, st)
PAIR (u64, cs)
PAIR (u64, pt)
PAIR (u64, cv)
PAIR (lo, ch)
PAIR (lo, bo)
PAIR (lo, i8)
PAIR (lo, u8)
PAIR (lo, i16)
PAIR (lo, u16)
PAIR (lo, i32)
PAIR (lo, u32)
PAIR (lo, i64)
PAIR (lo, u64)
PAIR (lo, lo)
PAIR (lo, ul)
PAIR (lo, i128)
PAIR (lo, u128)
PAIR (lo, fl)
PAIR (lo, dl)
PAIR (lo, lg)
PAIR (lo, cf)
PAIR (lo, cd)
PAIR (lo, cl)
PAIR (lo, st)
PAIR (lo, cs)
PAIR (lo, pt)
PAIR (lo, cv)
PAIR (ul, ch)
PAIR (ul, bo)
PAIR (ul, i8)
PAIR (ul, u8)
PAIR (ul, i16)
PAIR (ul, u16)
PAIR (ul, i32)
PAIR (ul, u32)
PAIR (ul, i64)
PAIR (ul, u64)
PAIR (ul, lo)
PAIR (ul, ul)
PAIR (ul, i128)
PAIR (ul, u128)
PAIR (ul, fl)
PAIR (ul, dl)
PAIR (ul, lg)
PAIR (ul, cf)
PAIR (ul, cd)
PAIR (ul, cl)
PAIR (ul, st)
PAIR (ul, cs)
PAIR (ul, pt)
PAIR (ul, cv)
PAIR (i128, ch)
PAIR (i128, bo)
PAIR (i128, i8)
PAIR (i128, u8)
PAIR (i128, i16)
PAIR (i128, u16)
PAIR (i128, i32)
PAIR (i128, u32)
PAIR (i128, i64)
PAIR (i128, u64)
PAIR (i128, lo)
PAIR (i128, ul)
PAIR (i128, i128)
PAIR (i128, u128)
PAIR (i128, fl)
PAIR (i128, dl)
PAIR (i128, lg)
PAIR (i128, cf)
PAIR (i128, cd)
PAIR (i128, cl)
PAIR (i128, st)
PAIR (i128, cs)
PAIR (i128, pt)
PAIR (i128, cv)
PAIR (u128, ch)
PAIR (u128, bo)
PAIR (u128, i8)
PAIR (u128, u8)
PAIR (u128, i16)
PAIR (u128, u16)
PAIR (u128, i32)
PAIR (u128, u32)
PAIR (u128, i64)
PAIR (u128, u64)
PAIR (u128, lo)
PAIR (u128, ul)
PAIR (u128, i128)
PAIR (u128, u128)
PAIR (u128, fl)
PAIR (u128, dl)
PAIR (u128, lg)
PAIR (u128, cf)
PAIR (u128, cd)
PAIR (u128, cl)
PAIR (u128, st)
PAIR (u128, cs)
PAIR (u128, pt)
PAIR (u128, cv)
PAIR (fl, ch)
PAIR (fl, bo)
PAIR (fl, i8)
PAIR (fl, u8)
PAIR (fl, i16)
PAIR (fl, u16)
PAIR (fl, i32)
PAIR (fl, u32)
PAIR (fl, i64)
PAIR (fl, u64)
PAIR (fl, lo)
PAIR (fl, ul)
PAIR (fl, i128)
PAIR (fl, u128)
PAIR (fl, fl)
PAIR (fl, dl)
PAIR (fl, lg)
PAIR (fl, cf)
PAIR (fl, cd)
PAIR (fl, cl)
PAIR (fl, st)
PAIR (fl, cs)
PAIR (fl, pt)
PAIR (fl, cv)
PAIR (dl, ch)
PAIR (dl, bo)
PAIR (dl, i8)
PAIR (dl, u8)
PAIR (dl, i16)
PAIR (dl, u16)
PAIR (dl, i32)
PAIR (dl, u32)
PAIR (dl, i64)
PAIR (dl, u64)
PAIR (dl, lo)
PAIR (dl, ul)
PAIR (dl, i128)
PAIR (dl, u128)
PAIR (dl, fl)
PAIR (dl, dl)
PAIR (dl, lg)
PAIR (dl, cf)
PAIR (dl, cd)
PAIR (dl, cl)
PAIR (dl, st)
PAIR (dl, cs)
PAIR (dl, pt)
PAIR (dl, cv)
PAIR (lg, ch)
PAIR (lg, bo)
PAIR (lg, i8)
PAIR (lg, u8)
PAIR (lg, i16)
PAIR (lg, u16)
PAIR (lg, i32)
PAIR (lg, u32)
PAIR (lg, i64)
PAIR (lg, u64)
PAIR (lg, lo)
PAIR (lg, ul)
PAIR (lg, i128)
PAIR (lg, u128)
PAIR (lg, fl)
PAIR (lg, dl)
PAIR (lg, lg)
PAIR (lg, cf)
PAIR (lg, cd)
PAIR (lg, cl)
PAIR (lg, st)
PAIR (lg, cs)
PAIR (lg, pt)
PAIR (lg, cv)
PAIR (cf, ch)
PAIR (cf, bo)
PAIR (cf, i8)
PAIR (cf, u8)
PAIR (cf, i16)
PAIR (cf, u16)
PAIR (cf, i32)
PAIR (cf, u32)
PAIR (cf, i64)
PAIR (cf, u64)
PAIR (cf, lo)
PAIR (cf, ul)
PAIR (cf, i128)
PAIR (cf, u128)
PAIR (cf, fl)
PAIR (cf, dl)
PAIR (cf, lg)
PAIR (cf, cf)
PAIR (cf, cd)
PAIR (cf, cl)
PAIR (cf, st)
PAIR (cf, cs)
PAIR (cf, pt)
PAIR (cf, cv)
PAIR (cd, ch)
PAIR (cd, bo)
PAIR (cd, i8)
PAIR (cd, u8)
PAIR (cd, i16)
PAIR (cd, u16)
PAIR (cd, i32)
PAIR (cd, u32)
PAIR (cd, i64)
PAIR (cd, u64)
PAIR (cd, lo)
PAIR (cd, ul)
PAIR (cd, i128)
PAIR (cd, u128)
PAIR (cd, fl)
PAIR (cd, dl)
PAIR (cd, lg)
PAIR (cd, cf)
PAIR (cd, cd)
PAIR (cd, cl)
PAIR (cd, st)
PAIR (cd, cs)
PAIR (cd, pt)
PAIR (cd, cv)
PAIR (cl, ch)
PAIR (cl, bo)
PAIR (cl, i8)
PAIR (cl, u8)
PAIR (cl, i16)
PAIR (cl, u16)
PAIR (cl, i32)
PAIR (cl, u32)
PAIR (cl, i64)
PAIR (cl, u64)
PAIR (cl, lo)
PAIR (cl, ul)
PAIR (cl, i128)
PAIR (cl, u128)
PAIR (cl, fl)
PAIR (cl, dl)
PAIR (cl, lg)
PAIR (cl, cf)
PAIR (cl, cd)
PAIR (cl, cl)
PAIR (cl, st)
PAIR (cl, cs)
PAIR (cl, pt)
PAIR (cl, cv)
PAIR (st, ch)
PAIR (st, bo)
PAIR (st, i8)
PAIR (st, u8)
PAIR (st, i16)
PAIR (st, u16)
PAIR (st, i32)
PAIR (st, u32)
PAIR (st, i64)
PAIR (st, u64)
PAIR (st, lo)
PAIR (st, ul)
PAIR (st, i128)
PAIR (st, u128)
PAIR (st, fl)
PAIR (st, dl)
PAIR (st, lg)
PAIR (st, cf)
PAIR (st, cd)
PAIR (st, cl)
PAIR (st, st)
PAIR (st, cs)
PAIR (st, pt)
PAIR (st, cv)
PAIR (cs, ch)
PAIR (cs, bo)
PAIR (cs, i8)
PAIR (cs, u8)
PAIR (cs, i16)
PAIR (cs, u16)
PAIR (cs, i32)
PAIR (cs, u32)
PAIR (cs, i64)
PAIR (cs, u64)
PAIR (cs, lo)
PAIR (cs, ul)
PAIR (cs, i128)
PAIR (cs, u128)
PAIR (cs, fl)
PAIR (cs, dl)
PAIR (cs, lg)
PAIR (cs, cf)
PAIR (cs, cd)
PAIR (cs, cl)
PAIR (cs, st)
PAIR (cs, cs)
PAIR (cs, pt)
PAIR (cs, cv)
PAIR (pt, ch)
PAIR (pt, bo)
PAIR (pt, i8)
PAIR (pt, u8)
PAIR (pt, i16)
PAIR (pt, u16)
PAIR (pt, i32)
PAIR (pt, u32)
PAIR (pt, i64)
PAIR (pt, u64)
PAIR (pt, lo)
PAIR (pt, ul)
PAIR (pt, i128)
PAIR (pt, u128)
PAIR (pt, fl)
PAIR (pt, dl)
PAIR (pt, lg)
PAIR (pt, cf)
PAIR (pt, cd)
PAIR (pt, cl)
PAIR (pt, st)
PAIR (pt, cs)
PAIR (pt, pt)
PAIR (pt, cv)
PAIR (cv, ch)
PAIR (cv, bo)
PAIR (cv, i8)
PAIR (cv, u8)
PAIR (cv, i16)
PAIR (cv, u16)
PAIR (cv, i32)
PAIR (cv, u32)
PAIR (cv, i64)
PAIR (cv, u64)
PAIR (cv, lo)
PAIR (cv, ul)
PAIR (cv, i128)
PAIR (cv, u128)
PAIR (cv, fl)
PAIR (cv, dl)
PAIR (cv, lg)
PAIR (cv, cf)
PAIR (cv, cd)
PAIR (cv, cl)
PAIR (cv, st)
PAIR (cv, cs)
PAIR (cv, pt)
PAIR (cv, cv)
static void (* const pairs[]) (void) = { pair_ch_ch, pair_ch_bo, pair_ch_i8, pair_ch_u8, pair_ch_i16, pair_ch_u16, pair_ch_i32, pair_ch_u32, pair_ch_i64, pair_ch_u64, pair_ch_lo, pair_ch_ul, pair_ch_i128, pair_ch_u128, pair_ch_fl, pair_ch_dl, pair_ch_lg, pair_ch_cf, pair_ch_cd, pair_ch_cl, pair_ch_st, pair_ch_cs, pair_ch_pt, pair_ch_cv, pair_bo_ch, pair_bo_bo, pair_bo_i8, pair_bo_u8, pair_bo_i16, pair_bo_u16, pair_bo_i32, pair_bo_u32, pair_bo_i64, pair_bo_u64, pair_bo_lo, pair_bo_ul, pair_bo_i128, pair_bo_u128, pair_bo_fl, pair_bo_dl, pair_bo_lg, pair_bo_cf, pair_bo_cd, pair_bo_cl, pair_bo_st, pair_bo_cs, pair_bo_pt, pair_bo_cv, pair_i8_ch, pair_i8_bo, pair_i8_i8, pair_i8_u8, pair_i8_i16, pair_i8_u16, pair_i8_i32, pair_i8_u32, pair_i8_i64, pair_i8_u64, pair_i8_lo, pair_i8_ul, pair_i8_i128, pair_i8_u128, pair_i8_fl, pair_i8_dl, pair_i8_lg, pair_i8_cf, pair_i8_cd, pair_i8_cl, pair_i8_st, pair_i8_cs, pair_i8_pt, pair_i8_cv, pair_u8_ch, pair_u8_bo, pair_u8_i8, pair_u8_u8, pair_u8_i16, pair_u8_u16, pair_u8_i32, pair_u8_u32, pair_u8_i64, pair_u8_u64, pair_u8_lo, pair_u8_ul, pair_u8_i128, pair_u8_u128, pair_u8_fl, pair_u8_dl, pair_u8_lg, pair_u8_cf, pair_u8_cd, pair_u8_cl, pair_u8_st, pair_u8_cs, pair_u8_pt, pair_u8_cv, pair_i16_ch, pair_i16_bo, pair_i16_i8, pair_i16_u8, pair_i16_i16, pair_i16_u16, pair_i16_i32, pair_i16_u32, pair_i16_i64, pair_i16_u64, pair_i16_lo, pair_i16_ul, pair_i16_i128, pair_i16_u128, pair_i16_fl, pair_i16_dl, pair_i16_lg, pair_i16_cf, pair_i16_cd, pair_i16_cl, pair_i16_st, pair_i16_cs, pair_i16_pt, pair_i16_cv, pair_u16_ch, pair_u16_bo, pair_u16_i8, pair_u16_u8, pair_u16_i16, pair_u16_u16, pair_u16_i32, pair_u16_u32, pair_u16_i64, pair_u16_u64, pair_u16_lo, pair_u16_ul, pair_u16_i128, pair_u16_u128, pair_u16_fl, pair_u16_dl, pair_u16_lg, pair_u16_cf, pair_u16_cd, pair_u16_cl, pair_u16_st, pair_u16_cs, pair_u16_pt, pair_u16_cv, pair_i32_ch, pair_i32_bo, pair_i32_i8, pair_i32_u8, pair_i32_i16, pair_i32_u16, pair_i32_i32, pair_i32_u32, pair_i32_i64, pair_i32_u64, pair_i32_lo, pair_i32_ul, pair_i32_i128, pair_i32_u128, pair_i32_fl, pair_i32_dl, pair_i32_lg, pair_i32_cf, pair_i32_cd, pair_i32_cl, pair_i32_st, pair_i32_cs, pair_i32_pt, pair_i32_cv, pair_u32_ch, pair_u32_bo, pair_u32_i8, pair_u32_u8, pair_u32_i16, pair_u32_u16, pair_u32_i32, pair_u32_u32, pair_u32_i64, pair_u32_u64, pair_u32_lo, pair_u32_ul, pair_u32_i128, pair_u32_u128, pair_u32_fl, pair_u32_dl, pair_u32_lg, pair_u32_cf, pair_u32_cd, pair_u32_cl, pair_u32_st, pair_u32_cs, pair_u32_pt, pair_u32_cv, pair_i64_ch, pair_i64_bo, pair_i64_i8, pair_i64_u8, pair_i64_i16, pair_i64_u16, pair_i64_i32, pair_i64_u32, pair_i64_i64, pair_i64_u64, pair_i64_lo, pair_i64_ul, pair_i64_i128, pair_i64_u128, pair_i64_fl, pair_i64_dl, pair_i64_lg, pair_i64_cf, pair_i64_cd, pair_i64_cl, pair_i64_st, pair_i64_cs, pair_i64_pt, pair_i64_cv, pair_u64_ch, pair_u64_bo, pair_u64_i8, pair_u64_u8, pair_u64_i16, pair_u64_u16, pair_u64_i32, pair_u64_u32, pair_u64_i64, pair_u64_u64, pair_u64_lo, pair_u64_ul, pair_u64_i128, pair_u64_u128, pair_u64_fl, pair_u64_dl, pair_u64_lg, pair_u64_cf, pair_u64_cd, pair_u64_cl, pair_u64_st, pair_u64_cs, pair_u64_pt, pair_u64_cv, pair_lo_ch, pair_lo_bo, pair_lo_i8, pair_lo_u8, pair_lo_i16, pair_lo_u16, pair_lo_i32, pair_lo_u32, pair_lo_i64, pair_lo_u64, pair_lo_lo, pair_lo_ul, pair_lo_i128, pair_lo_u128, pair_lo_fl, pair_lo_dl, pair_lo_lg, pair_lo_cf, pair_lo_cd, pair_lo_cl, pair_lo_st, pair_lo_cs, pair_lo_pt, pair_lo_cv, pair_ul_ch, pair_ul_bo, pair_ul_i8, pair_ul_u8, pair_ul_i16, pair_ul_u16, pair_ul_i32, pair_ul_u32, pair_ul_i64, pair_ul_u64, pair_ul_lo, pair_ul_ul, pair_ul_i128, pair_ul_u128, pair_ul_fl, pair_ul_dl, pair_ul_lg, pair_ul_cf, pair_ul_cd, pair_ul_cl, pair_ul_st, pair_ul_cs, pair_ul_pt, pair_ul_cv, pair_i128_ch, pair_i128_bo, pair_i128_i8, pair_i128_u8, pair_i128_i16, pair_i128_u16, pair_i128_i32, pair_i128_u32, pair_i128_i64, pair_i128_u64, pair_i128_lo, pair_i128_ul, pair_i128_i128, pair_i128_u128, pair_i128_fl, pair_i128_dl, pair_i128_lg, pair_i128_cf, pair_i128_cd, pair_i128_cl, pair_i128_st, pair_i128_cs, pair_i128_pt, pair_i128_cv, pair_u128_ch, pair_u128_bo, pair_u128_i8, pair_u128_u8, pair_u128_i16, pair_u128_u16, pair_u128_i32, pair_u128_u32, pair_u128_i64, pair_u128_u64, pair_u128_lo, pair_u128_ul, pair_u128_i128, pair_u128_u128, pair_u128_fl, pair_u128_dl, pair_u128_lg, pair_u128_cf, pair_u128_cd, pair_u128_cl, pair_u128_st, pair_u128_cs, pair_u128_pt, pair_u128_cv, pair_fl_ch, pair_fl_bo, pair_fl_i8, pair_fl_u8, pair_fl_i16, pair_fl_u16, pair_fl_i32, pair_fl_u32, pair_fl_i64, pair_fl_u64, pair_fl_lo, pair_fl_ul, pair_fl_i128, pair_fl_u128, pair_fl_fl, pair_fl_dl, pair_fl_lg, pair_fl_cf, pair_fl_cd, pair_fl_cl, pair_fl_st, pair_fl_cs, pair_fl_pt, pair_fl_cv, pair_dl_ch, pair_dl_bo, pair_dl_i8, pair_dl_u8, pair_dl_i16, pair_dl_u16, pair_dl_i32, pair_dl_u32, pair_dl_i64, pair_dl_u64, pair_dl_lo, pair_dl_ul, pair_dl_i128, pair_dl_u128, pair_dl_fl, pair_dl_dl, pair_dl_lg, pair_dl_cf, pair_dl_cd, pair_dl_cl, pair_dl_st, pair_dl_cs, pair_dl_pt, pair_dl_cv, pair_lg_ch, pair_lg_bo, pair_lg_i8, pair_lg_u8, pair_lg_i16, pair_lg_u16, pair_lg_i32, pair_lg_u32, pair_lg_i64, pair_lg_u64, pair_lg_lo, pair_lg_ul, pair_lg_i128, pair_lg_u128, pair_lg_fl, pair_lg_dl, pair_lg_lg, pair_lg_cf, pair_lg_cd, pair_lg_cl, pair_lg_st, pair_lg_cs, pair_lg_pt, pair_lg_cv, pair_cf_ch, pair_cf_bo, pair_cf_i8, pair_cf_u8, pair_cf_i16, pair_cf_u16, pair_cf_i32, pair_cf_u32, pair_cf_i64, pair_cf_u64, pair_cf_lo, pair_cf_ul, pair_cf_i128, pair_cf_u128, pair_cf_fl, pair_cf_dl, pair_cf_lg, pair_cf_cf, pair_cf_cd, pair_cf_cl, pair_cf_st, pair_cf_cs, pair_cf_pt, pair_cf_cv, pair_cd_ch, pair_cd_bo, pair_cd_i8, pair_cd_u8, pair_cd_i16, pair_cd_u16, pair_cd_i32, pair_cd_u32, pair_cd_i64, pair_cd_u64, pair_cd_lo, pair_cd_ul, pair_cd_i128, pair_cd_u128, pair_cd_fl, pair_cd_dl, pair_cd_lg, pair_cd_cf, pair_cd_cd, pair_cd_cl, pair_cd_st, pair_cd_cs, pair_cd_pt, pair_cd_cv, pair_cl_ch, pair_cl_bo, pair_cl_i8, pair_cl_u8, pair_cl_i16, pair_cl_u16, pair_cl_i32, pair_cl_u32, pair_cl_i64, pair_cl_u64, pair_cl_lo, pair_cl_ul, pair_cl_i128, pair_cl_u128, pair_cl_fl, pair_cl_dl, pair_cl_lg, pair_cl_cf, pair_cl_cd, pair_cl_cl, pair_cl_st, pair_cl_cs, pair_cl_pt, pair_cl_cv, pair_st_ch, pair_st_bo, pair_st_i8, pair_st_u8, pair_st_i16, pair_st_u16, pair_st_i32, pair_st_u32, pair_st_i64, pair_st_u64, pair_st_lo, pair_st_ul, pair_st_i128, pair_st_u128, pair_st_fl, pair_st_dl, pair_st_lg, pair_st_cf, pair_st_cd, pair_st_cl, pair_st_st, pair_st_cs, pair_st_pt, pair_st_cv, pair_cs_ch, pair_cs_bo, pair_cs_i8, pair_cs_u8, pair_cs_i16, pair_cs_u16, pair_cs_i32, pair_cs_u32, pair_cs_i64, pair_cs_u64, pair_cs_lo, pair_cs_ul, pair_cs_i128, pair_cs_u128, pair_cs_fl, pair_cs_dl, pair_cs_lg, pair_cs_cf, pair_cs_cd, pair_cs_cl, pair_cs_st, pair_cs_cs, pair_cs_pt, pair_cs_cv, pair_pt_ch, pair_pt_bo, pair_pt_i8, pair_pt_u8, pair_pt_i16, pair_pt_u16, pair_pt_i32, pair_pt_u32, pair_pt_i64, pair_pt_u64, pair_pt_lo, pair_pt_ul, pair_pt_i128, pair_pt_u128, pair_pt_fl, pair_pt_dl, pair_pt_lg, pair_pt_cf, pair_pt_cd, pair_pt_cl, pair_pt_st, pair_pt_cs, pair_pt_pt, pair_pt_cv, pair_cv_ch, pair_cv_bo, pair_cv_i8, pair_cv_u8, pair_cv_i16, pair_cv_u16, pair_cv_i32, pair_cv_u32, pair_cv_i64, pair_cv_u64, pair_cv_lo, pair_cv_ul, pair_cv_i128, pair_cv_u128, pair_cv_fl, pair_cv_dl, pair_cv_lg, pair_cv_cf, pair_cv_cd, pair_cv_cl, pair_cv_st, pair_cv_cs, pair_cv_pt, pair_cv_cv };
QUINT (list_ch_bo_i8_u8_i16, ch, bo, i8, u8, i16)
QUINT (list_ch_u16_lo_dl_st, ch, u16, lo, dl, st)
QUINT (list_ch_u32_fl_cs_i16, ch, u32, fl, cs, i16)
QUINT (list_bo_i8_u8_i16_u16, bo, i8, u8, i16, u16)
QUINT (list_bo_i32_ul_lg_cs, bo, i32, ul, lg, cs)
QUINT (list_bo_i64_dl_pt_u16, bo, i64, dl, pt, u16)
QUINT (list_i8_u8_i16_u16_i32, i8, u8, i16, u16, i32)
QUINT (list_i8_u32_i128_cf_pt, i8, u32, i128, cf, pt)
QUINT (list_i8_u64_lg_cv_i32, i8, u64, lg, cv, i32)
QUINT (list_u8_i16_u16_i32_u32, u8, i16, u16, i32, u32)
QUINT (list_u8_i64_u128_cd_cv, u8, i64, u128, cd, cv)
QUINT (list_u8_lo_cf_ch_u32, u8, lo, cf, ch, u32)
QUINT (list_i16_u16_i32_u32_i64, i16, u16, i32, u32, i64)
QUINT (list_i16_u64_fl_cl_ch, i16, u64, fl, cl, ch)
QUINT (list_i16_ul_cd_bo_i64, i16, ul, cd, bo, i64)
QUINT (list_u16_i32_u32_i64_u64, u16, i32, u32, i64, u64)
QUINT (list_u16_lo_dl_st_bo, u16, lo, dl, st, bo)
QUINT (list_u16_i128_cl_i8_u64, u16, i128, cl, i8, u64)
QUINT (list_i32_u32_i64_u64_lo, i32, u32, i64, u64, lo)
QUINT (list_i32_ul_lg_cs_i8, i32, ul, lg, cs, i8)
QUINT (list_i32_u128_st_u8_lo, i32, u128, st, u8, lo)
QUINT (list_u32_i64_u64_lo_ul, u32, i64, u64, lo, ul)
QUINT (list_u32_i128_cf_pt_u8, u32, i128, cf, pt, u8)
QUINT (list_u32_fl_cs_i16_ul, u32, fl, cs, i16, ul)
QUINT (list_i64_u64_lo_ul_i128, i64, u64, lo, ul, i128)
QUINT (list_i64_u128_cd_cv_i16, i64, u128, cd, cv, i16)
QUINT (list_i64_dl_pt_u16_i128, i64, dl, pt, u16, i128)
QUINT (list_u64_lo_ul_i128_u128, u64, lo, ul, i128, u128)
QUINT (list_u64_fl_cl_ch_u16, u64, fl, cl, ch, u16)
QUINT (list_u64_lg_cv_i32_u128, u64, lg, cv, i32, u128)
QUINT (list_lo_ul_i128_u128_fl, lo, ul, i128, u128, fl)
QUINT (list_lo_dl_st_bo_i32, lo, dl, st, bo, i32)
QUINT (list_lo_cf_ch_u32_fl, lo, cf, ch, u32, fl)
QUINT (list_ul_i128_u128_fl_dl, ul, i128, u128, fl, dl)
QUINT (list_ul_lg_cs_i8_u32, ul, lg, cs, i8, u32)
QUINT (list_ul_cd_bo_i64_dl, ul, cd, bo, i64, dl)
QUINT (list_i128_u128_fl_dl_lg, i128, u128, fl, dl, lg)
QUINT (list_i128_cf_pt_u8_i64, i128, cf, pt, u8, i64)
QUINT (list_i128_cl_i8_u64_lg, i128, cl, i8, u64, lg)
QUINT (list_u128_fl_dl_lg_cf, u128, fl, dl, lg, cf)
QUINT (list_u128_cd_cv_i16_u64, u128, cd, cv, i16, u64)
QUINT (list_u128_st_u8_lo_cf, u128, st, u8, lo, cf)
QUINT (list_fl_dl_lg_cf_cd, fl, dl, lg, cf, cd)
QUINT (list_fl_cl_ch_u16_lo, fl, cl, ch, u16, lo)
QUINT (list_fl_cs_i16_ul_cd, fl, cs, i16, ul, cd)
QUINT (list_dl_lg_cf_cd_cl, dl, lg, cf, cd, cl)
QUINT (list_dl_st_bo_i32_ul, dl, st, bo, i32, ul)
QUINT (list_dl_pt_u16_i128_cl, dl, pt, u16, i128, cl)
QUINT (list_lg_cf_cd_cl_st, lg, cf, cd, cl, st)
QUINT (list_lg_cs_i8_u32_i128, lg, cs, i8, u32, i128)
QUINT (list_lg_cv_i32_u128_st, lg, cv, i32, u128, st)
QUINT (list_cf_cd_cl_st_cs, cf, cd, cl, st, cs)
QUINT (list_cf_pt_u8_i64_u128, cf, pt, u8, i64, u128)
QUINT (list_cf_ch_u32_fl_cs, cf, ch, u32, fl, cs)
QUINT (list_cd_cl_st_cs_pt, cd, cl, st, cs, pt)
QUINT (list_cd_cv_i16_u64_fl, cd, cv, i16, u64, fl)
QUINT (list_cd_bo_i64_dl_pt, cd, bo, i64, dl, pt)
QUINT (list_cl_st_cs_pt_cv, cl, st, cs, pt, cv)
QUINT (list_cl_ch_u16_lo_dl, cl, ch, u16, lo, dl)
QUINT (list_cl_i8_u64_lg_cv, cl, i8, u64, lg, cv)
QUINT (list_st_cs_pt_cv_ch, st, cs, pt, cv, ch)
QUINT (list_st_bo_i32_ul_lg, st, bo, i32, ul, lg)
QUINT (list_st_u8_lo_cf_ch, st, u8, lo, cf, ch)
QUINT (list_cs_pt_cv_ch_bo, cs, pt, cv, ch, bo)
QUINT (list_cs_i8_u32_i128_cf, cs, i8, u32, i128, cf)
QUINT (list_cs_i16_ul_cd_bo, cs, i16, ul, cd, bo)
QUINT (list_pt_cv_ch_bo_i8, pt, cv, ch, bo, i8)
QUINT (list_pt_u8_i64_u128_cd, pt, u8, i64, u128, cd)
QUINT (list_pt_u16_i128_cl_i8, pt, u16, i128, cl, i8)
QUINT (list_cv_ch_bo_i8_u8, cv, ch, bo, i8, u8)
QUINT (list_cv_i16_u64_fl_cl, cv, i16, u64, fl, cl)
QUINT (list_cv_i32_u128_st_u8, cv, i32, u128, st, u8)
static void (* const quints[]) (void) = { list_ch_bo_i8_u8_i16, list_ch_u16_lo_dl_st, list_ch_u32_fl_cs_i16, list_bo_i8_u8_i16_u16, list_bo_i32_ul_lg_cs, list_bo_i64_dl_pt_u16, list_i8_u8_i16_u16_i32, list_i8_u32_i128_cf_pt, list_i8_u64_lg_cv_i32, list_u8_i16_u16_i32_u32, list_u8_i64_u128_cd_cv, list_u8_lo_cf_ch_u32, list_i16_u16_i32_u32_i64, list_i16_u64_fl_cl_ch, list_i16_ul_cd_bo_i64, list_u16_i32_u32_i64_u64, list_u16_lo_dl_st_bo, list_u16_i128_cl_i8_u64, list_i32_u32_i64_u64_lo, list_i32_ul_lg_cs_i8, list_i32_u128_st_u8_lo, list_u32_i64_u64_lo_ul, list_u32_i128_cf_pt_u8, list_u32_fl_cs_i16_ul, list_i64_u64_lo_ul_i128, list_i64_u128_cd_cv_i16, list_i64_dl_pt_u16_i128, list_u64_lo_ul_i128_u128, list_u64_fl_cl_ch_u16, list_u64_lg_cv_i32_u128, list_lo_ul_i128_u128_fl, list_lo_dl_st_bo_i32, list_lo_cf_ch_u32_fl, list_ul_i128_u128_fl_dl, list_ul_lg_cs_i8_u32, list_ul_cd_bo_i64_dl, list_i128_u128_fl_dl_lg, list_i128_cf_pt_u8_i64, list_i128_cl_i8_u64_lg, list_u128_fl_dl_lg_cf, list_u128_cd_cv_i16_u64, list_u128_st_u8_lo_cf, list_fl_dl_lg_cf_cd, list_fl_cl_ch_u16_lo, list_fl_cs_i16_ul_cd, list_dl_lg_cf_cd_cl, list_dl_st_bo_i32_ul, list_dl_pt_u16_i128_cl, list_lg_cf_cd_cl_st, list_lg_cs_i8_u32_i128, list_lg_cv_i32_u128_st, list_cf_cd_cl_st_cs, list_cf_pt_u8_i64_u128, list_cf_ch_u32_fl_cs, list_cd_cl_st_cs_pt, list_cd_cv_i16_u64_fl, list_cd_bo_i64_dl_pt, list_cl_st_cs_pt_cv, list_cl_ch_u16_lo_dl, list_cl_i8_u64_lg_cv, list_st_cs_pt_cv_ch, list_st_bo_i32_ul_lg, list_st_u8_lo_cf_ch, list_cs_pt_cv_ch_bo, list_cs_i8_u32_i128_cf, list_cs_i16_ul_cd_bo, list_pt_cv_ch_bo_i8, list_pt_u8_i64_u128_cd, list_pt_u16_i128_cl_i8, list_cv_ch_bo_i8_u8, list_cv_i16_u64_fl_cl, list_cv_i32_u128_st_u8 };

// Generated by tools/tla2rust.py from Lexer, Parser, Props, Text, Tree; do not edit.
// spec-hash: 20f30b9fa24530dedda61a5cbdde49b29db81d0a75d7f9d4cd2138a34c4f5ef3
#![allow(unused, non_snake_case, clippy::all)]
use crate::value::*;

pub fn o_D_C11(p_o_12047: &V) -> bool { { let l_rows_12050 = Lz::new(|| -> V { o_Rows(p_o_12047) }); let l_po_12055 = Lz::new(|| -> V { o_Places((p_o_12047).f(0)) }); let l_N_12060 = Lz::new(|| -> i64 { (((p_o_12047).f(0)).len() as i64) }); let l_K_12080 = |p_i_12061: &V, p_k_12062: &V| -> bool { ((((p_i_12061).i() >= 1i64) && ((p_i_12061).i() <= (*l_N_12060))) && (*(((p_o_12047).f(0)).at((p_i_12061).i())).f(1) == *p_k_12062)) };  ((1i64)..=((((&*l_rows_12050)).len() as i64))).map(V::I).all_(|p_i_12085| { let p_i_12085 = &p_i_12085; { let l_r_12089 = Lz::new(|| -> V { ((&*l_rows_12050)).at((p_i_12085).i()).clone() });  (if ((((&*l_r_12089)).f(2)).is_sym(3) && (((&*l_r_12089)).f(4)).is_sym(5)) { ((((p_i_12085).i() + 3i64) <= (((&*l_rows_12050)).len() as i64)) && ((1i64)..=((*l_N_12060))).map(V::I).any_(|p_t_12110| { let p_t_12110 = &p_t_12110; ((*((&*l_po_12055)).at((p_t_12110).i()) == *((&*l_r_12089)).f(6)) && l_K_12080(p_t_12110, (&V::S(7)))) }) && ((1i64)..=((*l_N_12060))).map(V::I).any_(|p_t_12126| { let p_t_12126 = &p_t_12126; (((*((&*l_po_12055)).at((p_t_12126).i()) == *(((&*l_rows_12050)).at(((p_i_12085).i() + 2i64))).f(6)) && l_K_12080(p_t_12126, (&V::S(8)))) && l_K_12080((&V::I(((p_t_12126).i() + 1i64))), (&V::S(9)))) }) && (!((1i64)..=((*l_N_12060))).map(V::I).any_(|p_t_12152| { let p_t_12152 = &p_t_12152; ((((((&*l_po_12055)).at((p_t_12152).i())).i() > (((&*l_r_12089)).f(6)).i()) && ((((&*l_po_12055)).at((p_t_12152).i())).i() < ((((&*l_rows_12050)).at(((p_i_12085).i() + 2i64))).f(6)).i())) && l_K_12080(p_t_12152, (&V::S(8)))) })) && (((((&*l_rows_12050)).at(((p_i_12085).i() + 3i64))).f(2)).is_sym(3) && ((((&*l_rows_12050)).at(((p_i_12085).i() + 3i64))).f(4)).is_sym(10))) } else if ((((&*l_r_12089)).f(2)).is_sym(3) && (((&*l_r_12089)).f(4)).is_sym(10)) { ((((p_i_12085).i() + 2i64) <= (((&*l_rows_12050)).len() as i64)) && ((1i64)..=((*l_N_12060))).map(V::I).any_(|p_s_12219| { let p_s_12219 = &p_s_12219; ((1i64)..=((*l_N_12060))).map(V::I).any_(|p_t_12223| { let p_t_12223 = &p_t_12223; (((((*((&*l_po_12055)).at((p_s_12219).i()) == *((&*l_r_12089)).f(6)) && l_K_12080(p_s_12219, (&V::S(9)))) && (*((&*l_po_12055)).at((p_t_12223).i()) == *(((&*l_rows_12050)).at(((p_i_12085).i() + 2i64))).f(6))) && l_K_12080(p_t_12223, (&V::S(11)))) && ((o_DepthAt((p_o_12047).f(0), (&V::I(((p_s_12219).i() + 1i64))), p_t_12223, (&V::I(1)))).i() > 0i64)) }) })) } else if ((((&*l_r_12089)).f(2)).is_sym(12) && (((&*l_r_12089)).f(4)).is_sym(13)) { (((((&*l_r_12089)).f(14)).is_sym(15) || (((&*l_r_12089)).f(14)).is_sym(16))) } else { true }) } }) } }

pub fn o_ListRun(p_cx_4178: &V, p_p_4179: &V, p_st_4180: &V, p_lv_4181: &V, p_kd_4182: &V, p_ev_4183: &V) -> V { let mut st = (p_cx_4178.clone(), p_p_4179.clone(), p_st_4180.clone(), p_lv_4181.clone(), p_kd_4182.clone(), p_ev_4183.clone(),); loop { let r: Result<V, (V, V, V, V, V, V,)> = { let (p_cx_4178, p_p_4179, p_st_4180, p_lv_4181, p_kd_4182, p_ev_4183,) = &st; (if (!o_ListMarkerAt(p_cx_4178, p_p_4179, p_lv_4181, p_kd_4182)) { Ok(o_Done(p_p_4179, (&(p_ev_4183).push(o_EvE(p_kd_4182, (&o_NoContent())))))) } else { { let l_r_4203 = Lz::new(|| -> V { o_ListItem(p_cx_4178, p_p_4179, p_st_4180, p_lv_4181, p_kd_4182) });  Err((p_cx_4178.clone(), ((&*l_r_4203)).f(14).clone(), p_st_4180.clone(), p_lv_4181.clone(), p_kd_4182.clone(), (p_ev_4183).cat(((&*l_r_4203)).f(17)),)) } }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_X_C11(p_o_12293: &V) -> bool { o_Same(p_o_12293, (&V::S(18))) }

pub fn o_P_C11(p_o_12298: &V) -> bool { (o_X_C11(p_o_12298) && o_D_C11(p_o_12298)) }

pub fn o_LineStart(p_o_12305: &V, p_po_12306: &V, p_a_12307: &V) -> bool { ((1i64)..=(((p_po_12306).len() as i64))).map(V::I).any_(|p_t_12312| { let p_t_12312 = &p_t_12312; ((*(p_po_12306).at((p_t_12312).i()) == *p_a_12307) && (((((p_o_12305).f(0)).at((p_t_12312).i())).f(19)).i() == 0)) }) }

pub fn o_HashMark(p_w_12330: &V) -> bool { ((((((p_w_12330).len() as i64) >= 2i64) && (((p_w_12330).len() as i64) <= 7i64)) && (((p_w_12330).at(((p_w_12330).len() as i64))).i() == o_SP())) && ((1i64)..=((((p_w_12330).len() as i64) - 1i64))).map(V::I).all_(|p_j_12353| { let p_j_12353 = &p_j_12353; (((p_w_12330).at((p_j_12353).i())).i() == o_HASH()) })) }

pub fn o_ListItem(p_cx_4104: &V, p_p_4105: &V, p_st_4106: &V, p_lv_4107: &V, p_kd_4108: &V) -> V { { let l_q_4117 = Lz::new(|| -> i64 { ((p_p_4105).i() + (if ((p_lv_4107).i() == 0) { 2i64 } else { 3i64 })) }); let l_t_4127 = Lz::new(|| -> V { o_Paragraph(p_cx_4104, (&V::I((*l_q_4117))), (&(p_st_4106).cat((&V::seq(vec![o_StopList(p_lv_4107, p_kd_4108)]))))) }); let l_n_4145 = Lz::new(|| -> V { (if o_AtEnd(p_cx_4104, ((&*l_t_4127)).f(14), p_st_4106) { o_Fail() } else { o_ListFrom(p_cx_4104, ((&*l_t_4127)).f(14), p_st_4106, (&V::I(((p_lv_4107).i() + 1i64)))) }) }); let l_r_4151 = Lz::new(|| -> V { o_Optional((&*l_n_4145), ((&*l_t_4127)).f(14)) });  o_Done(((&*l_r_4151)).f(14), (&((&((&((&V::seq(vec![o_EvS((&V::S(20)), (&o_Content(p_cx_4104, p_p_4105, (&V::I((*l_q_4117))))))]))).cat(((&*l_t_4127)).f(17)))).cat(((&*l_r_4151)).f(17)))).cat((&V::seq(vec![o_EvE((&V::S(20)), (&o_NoContent()))]))))) } }

pub fn o_Grammatical(p_ev_8263: &V) -> bool { (o_GIf(p_ev_8263, (&o_GOpt(p_ev_8263, (&V::I(1)), (&V::set(vec![V::S(21)])))), (&V::S(15))) == (((p_ev_8263).len() as i64) + 1i64)) }

pub fn o_D_C03(p_o_8278: &V) -> bool { (o_Grammatical((p_o_8278).f(17)) && ((p_o_8278).f(22)).b()) }

pub fn o_P_C03(p_o_8288: &V) -> bool { o_D_C03(p_o_8288) }

pub fn o_CloseOf(p_ev_8297: &V, p_j_8298: &V, p_d_8299: &V) -> V { let mut st = (p_ev_8297.clone(), p_j_8298.clone(), p_d_8299.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_ev_8297, p_j_8298, p_d_8299,) = &st; (if (((p_ev_8297).at((p_j_8298).i())).f(2)).is_sym(3) { Err((p_ev_8297.clone(), V::I(((p_j_8298).i() + 1i64)), V::I(((p_d_8299).i() + 1i64)),)) } else { (if (((p_ev_8297).at((p_j_8298).i())).f(2)).is_sym(12) { (if ((p_d_8299).i() == 1) { Ok(p_j_8298.clone()) } else { Err((p_ev_8297.clone(), V::I(((p_j_8298).i() + 1i64)), V::I(((p_d_8299).i() - 1i64)),)) }) } else { Err((p_ev_8297.clone(), V::I(((p_j_8298).i() + 1i64)), p_d_8299.clone(),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_D_C24(p_o_16444: &V) -> bool { { let l_el_16454 = Lz::new(|| -> bool { o_HasEscaped((p_o_16444).f(23), (&o_Escaped((p_o_16444).f(23))), (&V::I(o_LF()))) });  ((!(!((((p_o_16444).f(24)).f(25)).len() == 0)) || o_NoEdgeBreak((((p_o_16444).f(24)).f(25)).at(1i64))) && ((1i64)..=(((((p_o_16444).f(24)).f(26)).len() as i64))).map(V::I).all_(|p_i_16479| { let p_i_16479 = &p_i_16479; o_RuleBlock((((p_o_16444).f(24)).f(26)).at((p_i_16479).i()), (&V::B((*l_el_16454)))) })) } }

pub fn o_P_C24(p_o_16493: &V) -> bool { o_D_C24(p_o_16493) }

pub fn o_TokenText(p_src_16497: &V, p_t_16498: &V) -> V { (p_src_16497).sub(((p_t_16498).f(6)).i(), (((p_t_16498).f(27)).i() - 1i64)) }

pub fn o_Follows(p_tk_16510: &V, p_ps_16511: &V, p_i_16512: &V) -> bool { (*((p_tk_16510).at(((p_ps_16511).at((p_i_16512).i())).i())).f(28) == *((p_tk_16510).at(((p_ps_16511).at(((p_i_16512).i() + 1i64))).i())).f(29)) }

pub fn o_KidsFrom(p_ev_8348: &V, p_j_8349: &V, p_acc_8350: &V) -> V { let mut st = (p_ev_8348.clone(), p_j_8349.clone(), p_acc_8350.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_ev_8348, p_j_8349, p_acc_8350,) = &st; (if (((p_ev_8348).at((p_j_8349).i())).f(2)).is_sym(12) { Ok(p_acc_8350.clone()) } else { Err((p_ev_8348.clone(), (if (((p_ev_8348).at((p_j_8349).i())).f(2)).is_sym(30) { V::I(((p_j_8349).i() + 1i64)) } else { V::I(((o_CloseOf(p_ev_8348, p_j_8349, (&V::I(0)))).i() + 1i64)) }), (p_acc_8350).push(p_j_8349.clone()),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_DocStops(p_b_4253: &V) -> V { (if (((p_b_4253).f(31)).len() == 0) { V::seq(vec![]) } else { V::seq(vec![o_StopColl()]) }) }

pub fn o_Kids(p_ev_8382: &V, p_i_8383: &V) -> V { o_KidsFrom(p_ev_8382, (&V::I(((p_i_8383).i() + 1i64))), (&V::seq(vec![]))) }

pub fn o_Metadata(p_cx_4264: &V) -> V { (if (!o_IsKN0(p_cx_4264, (&V::I(1)), (&V::S(32)), (&V::I(3)))) { o_Fail() } else { { let l_q_4279 = Lz::new(|| -> V { o_Find(p_cx_4264, (&V::I(2)), (&V::seq(vec![])), (&V::S(32)), (&V::I(3)), (&V::B(true))) });  (if (((*l_q_4279).clone()).i() == 0) { o_Fail() } else { o_Done((&V::I((((*l_q_4279).clone()).i() + 1i64))), (&o_RawNode(p_cx_4264, (&V::S(21)), (&V::I(1)), (&*l_q_4279)))) }) } }) }

pub fn o_SelectKids(p_ev_8398: &V, p_ks_8399: &V, p_j_8400: &V, p_ns_8401: &V, p_acc_8402: &V) -> V { let mut st = (p_ev_8398.clone(), p_ks_8399.clone(), p_j_8400.clone(), p_ns_8401.clone(), p_acc_8402.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_ev_8398, p_ks_8399, p_j_8400, p_ns_8401, p_acc_8402,) = &st; (if ((p_j_8400).i() > ((p_ks_8399).len() as i64)) { Ok(p_acc_8402.clone()) } else { Err((p_ev_8398.clone(), p_ks_8399.clone(), V::I(((p_j_8400).i() + 1i64)), p_ns_8401.clone(), (if ((((p_ev_8398).at(((p_ks_8399).at((p_j_8400).i())).i())).f(2)).is_sym(3) && ((p_ns_8401).contains(((p_ev_8398).at(((p_ks_8399).at((p_j_8400).i())).i())).f(4)))) { (p_acc_8402).push((p_ks_8399).at((p_j_8400).i()).clone()) } else { p_acc_8402.clone() }),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_BlockInit(p_src_4297: &V, p_tk_4298: &V) -> V { { let l_m_4309 = Lz::new(|| -> V { o_Optional((&o_Metadata((&V::rec(vec![(0, p_tk_4298.clone()), (23, p_src_4297.clone())])))), (&V::I(1))) });  V::rec(vec![(0, p_tk_4298.clone()), (14, ((&*l_m_4309)).f(14).clone()), (17, (((&*l_m_4309)).f(17)).push(o_EvS((&V::S(15)), (&o_NoContent())))), (23, p_src_4297.clone()), (31, V::seq(vec![])), (33, V::B(false))]) } }

pub fn o_BlockTake(p_b_4339: &V, p_r_4340: &V) -> V { { let x1 = { let b2 = p_b_4339; let b3 = b2.f(14); let n = (p_r_4340).f(14).clone(); b2.with_f(14, n) }; let x4 = { let b5 = (&x1); let b6 = b5.f(17); let n = (b6).cat((p_r_4340).f(17)); b5.with_f(17, n) };  x4 } }

pub fn o_KidsOf(p_ev_8442: &V, p_i_8443: &V, p_ns_8444: &V) -> V { o_SelectKids(p_ev_8442, (&o_Kids(p_ev_8442, p_i_8443)), (&V::I(1)), p_ns_8444, (&V::seq(vec![]))) }

pub fn o_Demote(p_b_4358: &V, p_p_4359: &V) -> V { { let x7 = { let b8 = p_b_4358; let b9 = b8.f(0); let n = { let x10 = { let b11 = b9; let i13 = (p_p_4359).i(); let b12 = b11.at(i13); let n = { let b14 = b12; let b15 = b14.f(1); let n = V::S(34); b14.with_f(1, n) }; b11.with_at(i13, n) };  x10 }; b8.with_f(0, n) }; let x16 = { let b17 = (&x7); let b18 = b17.f(14); let n = p_p_4359.clone(); b17.with_f(14, n) };  x16 } }

pub fn o_RawText(p_ev_8454: &V, p_i_8455: &V) -> V { { let l_k_8459 = Lz::new(|| -> V { o_Kids(p_ev_8454, p_i_8455) });  o_Concat((&V::seq(((1i64)..=((((&*l_k_8459)).len() as i64))).map(V::I).map(|p_j_8464| { let p_j_8464 = &p_j_8464; (((p_ev_8454).at((((&*l_k_8459)).at((p_j_8464).i())).i())).f(35)).f(36).clone() }).collect()))) } }

pub fn o_PartText(p_ev_8478: &V, p_i_8479: &V, p_n_8480: &V) -> V { { let l_k_8486 = Lz::new(|| -> V { o_KidsOf(p_ev_8478, p_i_8479, (&V::set(vec![p_n_8480.clone()]))) });  (if (((&*l_k_8486)).len() == 0) { V::seq(vec![]) } else { o_RawText(p_ev_8478, ((&*l_k_8486)).at(1i64)) }) } }

pub fn o_D_C25(p_o_16531: &V) -> bool { { let l_n_16536 = Lz::new(|| -> i64 { (((p_o_16531).f(37)).len() as i64) });  (((p_o_16531).f(38)).b() && (*((p_o_16531).f(19)).f(36) == *(&o_Concat((&V::seq(((1i64)..=((*l_n_16536))).map(V::I).map(|p_j_16548| { let p_j_16548 = &p_j_16548; o_TokenText((p_o_16531).f(23), ((p_o_16531).f(0)).at((((p_o_16531).f(37)).at((p_j_16548).i())).i())) }).collect()))))) && ((((p_o_16531).f(19)).f(39)).b() == ((1i64)..=(((*l_n_16536) - 1i64))).map(V::I).any_(|p_i_16575| { let p_i_16575 = &p_i_16575; (!o_Follows((p_o_16531).f(0), (p_o_16531).f(37), p_i_16575)) })) && (!(((p_o_16531).f(40)).f(39)).b()) && (if ((*l_n_16536) == 0) { (((((((p_o_16531).f(19)).f(29)).i() == 0) && ((((p_o_16531).f(19)).f(28)).i() == 0)) && ((((p_o_16531).f(40)).f(29)).i() == 0)) && ((((p_o_16531).f(40)).f(28)).i() == 0)) } else { { let l_s_16638 = Lz::new(|| -> V { (((p_o_16531).f(0)).at((((p_o_16531).f(37)).at(1i64)).i())).f(29).clone() }); let l_e_16650 = Lz::new(|| -> V { (((p_o_16531).f(0)).at((((p_o_16531).f(37)).at((*l_n_16536))).i())).f(28).clone() });  (((*((p_o_16531).f(40)).f(29) == *(&*l_s_16638)) && (*((p_o_16531).f(40)).f(28) == *(&*l_e_16650))) && (!(!(((p_o_16531).f(19)).f(39)).b()) || ((*((p_o_16531).f(19)).f(29) == *(&*l_s_16638)) && (*((p_o_16531).f(19)).f(28) == *(&*l_e_16650))))) } })) } }

pub fn o_CollapsibleHead(p_b_4377: &V) -> bool { ((o_IsK(p_b_4377, (p_b_4377).f(14), (&V::S(41))) && o_Col0(p_b_4377, (p_b_4377).f(14))) && (o_IsK(p_b_4377, (&V::I((((p_b_4377).f(14)).i() + 1i64))), (&V::S(42))) || o_IsK(p_b_4377, (&V::I((((p_b_4377).f(14)).i() + 1i64))), (&V::S(43))))) }

pub fn o_P_C25(p_o_16694: &V) -> bool { o_D_C25(p_o_16694) }

pub fn o_ContentInit() -> V { thread_local! { static C: V = V::rec(vec![(28, V::I(0)), (29, V::I(0)), (36, V::seq(vec![])), (39, V::B(false))]); } C.with(|c| c.clone()) }

pub fn o_PartOpt(p_ev_8499: &V, p_i_8500: &V, p_n_8501: &V) -> V { { let l_k_8507 = Lz::new(|| -> V { o_KidsOf(p_ev_8499, p_i_8500, (&V::set(vec![p_n_8501.clone()]))) });  (if (((&*l_k_8507)).len() == 0) { V::seq(vec![]) } else { V::seq(vec![o_RawText(p_ev_8499, ((&*l_k_8507)).at(1i64))]) }) } }

pub fn o_Denote(p_ev_8580: &V, p_i_8581: &V, p_lv_8582: &V) -> V { { let l_n_8588 = Lz::new(|| -> V { ((p_ev_8580).at((p_i_8581).i())).f(4).clone() });  (if (((p_ev_8580).at((p_i_8581).i())).f(2)).is_sym(30) { o_Txt((((p_ev_8580).at((p_i_8581).i())).f(35)).f(36)) } else if ((&*l_n_8588)).is_sym(44) { o_ParaNode((&o_DenoteBody(p_ev_8580, p_i_8581))) } else if ((&*l_n_8588)).is_sym(45) { o_BoldNode((&o_DenoteBody(p_ev_8580, p_i_8581))) } else if ((&*l_n_8588)).is_sym(46) { o_HeadNode((&V::I(o_CountHash((((p_ev_8580).at((p_i_8581).i())).f(35)).f(36), (&V::I(1))))), (&o_DenoteBody(p_ev_8580, p_i_8581))) } else if (((&o_InlineKinds())).contains((&*l_n_8588))) { o_LeafNode((&*l_n_8588), (&o_RawText(p_ev_8580, p_i_8581))) } else if ((&*l_n_8588)).is_sym(47) { o_AnchorNode((&o_PartText(p_ev_8580, p_i_8581, (&V::S(5)))), (&o_PartText(p_ev_8580, p_i_8581, (&V::S(10))))) } else if ((&*l_n_8588)).is_sym(13) { o_ImageNode((&o_PartText(p_ev_8580, p_i_8581, (&V::S(5)))), (&o_PartText(p_ev_8580, p_i_8581, (&V::S(10))))) } else if ((&*l_n_8588)).is_sym(16) { o_ImagesNode((&o_DenoteBody(p_ev_8580, p_i_8581))) } else if ((&*l_n_8588)).is_sym(48) { o_CodeNode((&o_PartText(p_ev_8580, p_i_8581, (&V::S(49)))), (&o_TrimEnd((((p_ev_8580).at(((o_CloseOf(p_ev_8580, p_i_8581, (&V::I(0)))).i() - 1i64))).f(35)).f(36)))) } else if ((&*l_n_8588)).is_sym(50) { o_EmbedNode((((p_ev_8580).at(((p_i_8581).i() + 1i64))).f(35)).f(36), (((p_ev_8580).at(((p_i_8581).i() + 3i64))).f(35)).f(36)) } else if ((&*l_n_8588)).is_sym(51) { o_BreakNode() } else if (((&o_ListKinds())).contains((&*l_n_8588))) { { let l_k_8737 = Lz::new(|| -> V { o_Kids(p_ev_8580, p_i_8581) });  o_ListNode((&*l_n_8588), p_lv_8582, (&V::seq(((1i64)..=((((&*l_k_8737)).len() as i64))).map(V::I).map(|p_j_8744| { let p_j_8744 = &p_j_8744; o_DenoteItem(p_ev_8580, ((&*l_k_8737)).at((p_j_8744).i()), p_lv_8582) }).collect()))) } } else if ((&*l_n_8588)).is_sym(52) { { let l_k_8763 = Lz::new(|| -> V { o_KidsOf(p_ev_8580, p_i_8581, (&V::set(vec![V::S(44)]))) });  o_HighNode((&o_PartOpt(p_ev_8580, p_i_8581, (&V::S(49)))), (&o_PartOpt(p_ev_8580, p_i_8581, (&V::S(53)))), (&V::seq(((1i64)..=((((&*l_k_8763)).len() as i64))).map(V::I).map(|p_j_8776| { let p_j_8776 = &p_j_8776; o_ParaNode((&o_TrimLastText((&o_DenoteBody(p_ev_8580, ((&*l_k_8763)).at((p_j_8776).i())))))) }).collect()))) } } else { { let l_d_8793 = Lz::new(|| -> V { o_KidsOf(p_ev_8580, p_i_8581, (&V::set(vec![V::S(15)]))) });  o_CollNode((&o_PartText(p_ev_8580, p_i_8581, (&V::S(49)))), (&o_DenoteAll(p_ev_8580, (&o_KidsOf(p_ev_8580, ((&*l_d_8793)).at(1i64), (&o_BlockKinds()))), (&V::I(0))))) } }) } }

pub fn o_DenoteAll(p_ev_8526: &V, p_ks_8527: &V, p_lv_8528: &V) -> V { V::seq(((1i64)..=(((p_ks_8527).len() as i64))).map(V::I).map(|p_j_8533| { let p_j_8533 = &p_j_8533; o_Denote(p_ev_8526, (p_ks_8527).at((p_j_8533).i()), p_lv_8528) }).collect()) }

pub fn o_DenoteBody(p_ev_8542: &V, p_i_8543: &V) -> V { o_DenoteAll(p_ev_8542, (&o_Kids(p_ev_8542, p_i_8543)), (&V::I(0))) }

pub fn o_DenoteItem(p_ev_8551: &V, p_i_8552: &V, p_lv_8553: &V) -> V { { let l_p_8559 = Lz::new(|| -> V { o_KidsOf(p_ev_8551, p_i_8552, (&V::set(vec![V::S(44)]))) }); let l_l_8564 = Lz::new(|| -> V { o_KidsOf(p_ev_8551, p_i_8552, (&o_ListKinds())) });  o_ItemNode((&o_TrimLastText((&o_DenoteBody(p_ev_8551, ((&*l_p_8559)).at(1i64))))), (&o_DenoteAll(p_ev_8551, (&*l_l_8564), (&V::I(((p_lv_8553).i() + 1i64)))))) } }

pub fn o_CollapsibleOpen(p_b_4409: &V) -> V { { let l_m_4424 = Lz::new(|| -> V { o_Optional((&o_Modifier(p_b_4409, (&V::I((((p_b_4409).f(14)).i() + 2i64))), (&V::seq(vec![])))), (&V::I((((p_b_4409).f(14)).i() + 2i64)))) });  (if (!o_Col0(p_b_4409, ((&*l_m_4424)).f(14))) { o_Demote(p_b_4409, (p_b_4409).f(14)) } else { { let x19 = { let b20 = p_b_4409; let b21 = b20.f(14); let n = ((&*l_m_4424)).f(14).clone(); b20.with_f(14, n) }; let x22 = { let b23 = (&x19); let b24 = b23.f(31); let n = (b24).push(V::rec(vec![(4, V::I((((p_b_4409).f(17)).len() as i64))), (14, (p_b_4409).f(14).clone())])); b23.with_f(31, n) }; let x25 = { let b26 = (&x22); let b27 = b26.f(17); let n = ((&((&(b27).cat((&V::seq(vec![o_EvS((&V::S(54)), (&o_Content(p_b_4409, (p_b_4409).f(14), (&V::I((((p_b_4409).f(14)).i() + 2i64))))))]))))).cat(((&*l_m_4424)).f(17)))).cat((&V::seq(vec![o_EvS((&V::S(15)), (&o_NoContent()))]))); b26.with_f(17, n) };  x25 } }) } }

pub fn o_AddToken(p_src_16712: &V, p_x_16713: &V, p_t_16714: &V) -> V { { let l_w_16718 = Lz::new(|| -> V { o_TokenText(p_src_16712, p_t_16714) });  (if (((p_x_16713).f(36)).len() == 0) { V::rec(vec![(28, (p_t_16714).f(28).clone()), (29, (p_t_16714).f(29).clone()), (36, (*l_w_16718).clone()), (39, V::B(false))]) } else { (if ((!((p_x_16713).f(39)).b()) && (*(p_x_16713).f(28) == *(p_t_16714).f(29))) { { let x28 = { let b29 = p_x_16713; let b30 = b29.f(28); let n = (p_t_16714).f(28).clone(); b29.with_f(28, n) }; let x31 = { let b32 = (&x28); let b33 = b32.f(36); let n = (b33).cat((&*l_w_16718)); b32.with_f(36, n) };  x31 } } else { V::rec(vec![(28, V::I(0)), (29, V::I(0)), (36, ((p_x_16713).f(36)).cat((&*l_w_16718))), (39, V::B(true))]) }) }) } }

pub fn o_AssembleFrom(p_src_16795: &V, p_tk_16796: &V, p_ps_16797: &V, p_i_16798: &V, p_x_16799: &V) -> V { let mut st = (p_src_16795.clone(), p_tk_16796.clone(), p_ps_16797.clone(), p_i_16798.clone(), p_x_16799.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_src_16795, p_tk_16796, p_ps_16797, p_i_16798, p_x_16799,) = &st; (if ((p_i_16798).i() > ((p_ps_16797).len() as i64)) { Ok(p_x_16799.clone()) } else { Err((p_src_16795.clone(), p_tk_16796.clone(), p_ps_16797.clone(), V::I(((p_i_16798).i() + 1i64)), o_AddToken(p_src_16795, p_x_16799, (p_tk_16796).at(((p_ps_16797).at((p_i_16798).i())).i())),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Assemble(p_src_16821: &V, p_tk_16822: &V, p_ps_16823: &V) -> V { o_AssembleFrom(p_src_16821, p_tk_16822, p_ps_16823, (&V::I(1)), (&o_ContentInit())) }

pub fn o_SpanOf(p_tk_16831: &V, p_ps_16832: &V) -> V { (if ((p_ps_16832).len() == 0) { V::rec(vec![(28, V::I(0)), (29, V::I(0)), (39, V::B(false))]) } else { V::rec(vec![(28, ((p_tk_16831).at(((p_ps_16832).at(((p_ps_16832).len() as i64))).i())).f(28).clone()), (29, ((p_tk_16831).at(((p_ps_16832).at(1i64)).i())).f(29).clone()), (39, V::B(false))]) }) }

pub fn o_CollapsibleClose(p_b_4491: &V) -> V { { let l_q_4507 = Lz::new(|| -> V { (if o_IsK(p_b_4491, (p_b_4491).f(14), (&V::S(43))) { V::I((((p_b_4491).f(14)).i() + 1i64)) } else { (p_b_4491).f(14).clone() }) }); let l_o_4516 = Lz::new(|| -> V { ((p_b_4491).f(31)).at((((p_b_4491).f(31)).len() as i64)).clone() }); let l_c_4529 = Lz::new(|| -> V { { let x34 = { let b35 = p_b_4491; let b36 = b35.f(31); let n = (b36).sub(1i64, (((b36).len() as i64) - 1i64)); b35.with_f(31, n) };  x34 } });  (if (o_IsK(p_b_4491, (&*l_q_4507), (&V::S(55))) && o_Col0(p_b_4491, (&*l_q_4507))) { { let l_z_4551 = Lz::new(|| -> i64 { (if o_IsK(p_b_4491, (&V::I((((*l_q_4507).clone()).i() + 1i64))), (&V::S(43))) { (((*l_q_4507).clone()).i() + 2i64) } else { (((*l_q_4507).clone()).i() + 1i64) }) });  { let x37 = { let b38 = (&*l_c_4529); let b39 = b38.f(14); let n = V::I((*l_z_4551)); b38.with_f(14, n) }; let x40 = { let b41 = (&x37); let b42 = b41.f(17); let n = (b42).cat((&V::seq(vec![o_EvE((&V::S(15)), (&o_NoContent())), o_EvE((&V::S(54)), (&o_Content(p_b_4491, (&*l_q_4507), (&V::I((*l_z_4551))))))]))); b41.with_f(17, n) };  x40 } } } else { o_Demote((&{ let x43 = { let b44 = (&*l_c_4529); let b45 = b44.f(17); let n = (b45).sub(1i64, (((&*l_o_4516)).f(4)).i()); b44.with_f(17, n) };  x43 }), ((&*l_o_4516)).f(14)) }) } }

pub fn o_Move(p_a_4592: &V, p_b_4593: &V) -> V { V::rec(vec![(6, p_a_4592.clone()), (56, p_b_4593.clone())]) }

pub fn o_ModelPicks(p_src_16871: &V, p_tk_16872: &V, p_ps_16873: &V) -> V { V::rec(vec![(0, p_tk_16872.clone()), (19, o_Assemble(p_src_16871, p_tk_16872, p_ps_16873)), (23, p_src_16871.clone()), (37, p_ps_16873.clone()), (38, V::B(true)), (40, o_SpanOf(p_tk_16872, p_ps_16873))]) }

pub fn o_TrimLfEnd(p_s_16902: &V) -> V { let mut st = (p_s_16902.clone(),); loop { let r: Result<V, (V,)> = { let (p_s_16902,) = &st; (if ((((p_s_16902).len() as i64) > 0i64) && (((p_s_16902).at(((p_s_16902).len() as i64))).i() == o_LF())) { Err(((p_s_16902).sub(1i64, (((p_s_16902).len() as i64) - 1i64)),)) } else { Ok(p_s_16902.clone()) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_D_C12(p_o_12362: &V) -> bool { { let l_rows_12365 = Lz::new(|| -> V { o_Rows(p_o_12362) }); let l_po_12370 = Lz::new(|| -> V { o_Places((p_o_12362).f(0)) });  ((1i64)..=((((&*l_rows_12365)).len() as i64))).map(V::I).all_(|p_i_12375| { let p_i_12375 = &p_i_12375; { let l_r_12379 = Lz::new(|| -> V { ((&*l_rows_12365)).at((p_i_12375).i()).clone() });  (!(((&*l_r_12379)).f(2)).is_sym(3) || (if (((&*l_r_12379)).f(4)).is_sym(46) { ((((((&*l_r_12379)).f(14)).is_sym(15) && o_HashMark(((&*l_r_12379)).f(36))) && o_LineStart(p_o_12362, (&*l_po_12370), ((&*l_r_12379)).f(6))) && ((1i64)..=((((&*l_po_12370)).len() as i64))).map(V::I).any_(|p_t_12411| { let p_t_12411 = &p_t_12411; ((*((&*l_po_12370)).at((p_t_12411).i()) == *((&*l_r_12379)).f(6)) && ((((((p_o_12362).f(0)).at((p_t_12411).i())).f(28)).i() - ((((p_o_12362).f(0)).at((p_t_12411).i())).f(29)).i()) == (((((&*l_r_12379)).f(36)).len() as i64) - 1i64))) })) } else if (((&*l_r_12379)).f(4)).is_sym(51) { ((((((&*l_r_12379)).f(14)).is_sym(15) && o_LineStart(p_o_12362, (&*l_po_12370), ((&*l_r_12379)).f(6))) && (*(((&*l_rows_12365)).at(((p_i_12375).i() + 1i64))).f(36) == *(&o_Repeat((&V::I(o_DASH())), (&V::I(5)))))) && ((1i64)..=((((&*l_po_12370)).len() as i64))).map(V::I).any_(|p_t_12478| { let p_t_12478 = &p_t_12478; (((*((&*l_po_12370)).at((p_t_12478).i()) == *((&*l_r_12379)).f(6)) && ((((p_o_12362).f(0)).at((p_t_12478).i())).f(1)).is_sym(32)) && ((((((p_o_12362).f(0)).at((p_t_12478).i())).f(28)).i() - ((((p_o_12362).f(0)).at((p_t_12478).i())).f(29)).i()) == 5)) })) } else if (((&*l_r_12379)).f(4)).is_sym(50) { ((((((&*l_r_12379)).f(14)).is_sym(15) && o_LineStart(p_o_12362, (&*l_po_12370), ((&*l_r_12379)).f(6))) && (*((&*l_r_12379)).f(36) == *(&V::seq(vec![V::I(o_LBRACE()), V::I(o_LBRACE())])))) && (*(((&*l_rows_12365)).at(((p_i_12375).i() + 2i64))).f(36) == *(&V::seq(vec![V::I(o_PIPE())]))) && (!((1i64)..=((((&*l_po_12370)).len() as i64))).map(V::I).any_(|p_t_12556| { let p_t_12556 = &p_t_12556; ((((((&*l_po_12370)).at((p_t_12556).i())).i() >= (((&*l_r_12379)).f(6)).i()) && ((((&*l_po_12370)).at((p_t_12556).i())).i() < ((((&*l_rows_12365)).at(((p_i_12375).i() + 4i64))).f(6)).i())) && ((((((p_o_12362).f(0)).at((p_t_12556).i())).f(1)).is_sym(57) && ((((&*l_po_12370)).at((p_t_12556).i())).i() < ((((&*l_rows_12365)).at(((p_i_12375).i() + 2i64))).f(6)).i())) || ((((((p_o_12362).f(0)).at((p_t_12556).i())).f(1)).is_sym(58) && ((((((p_o_12362).f(0)).at((p_t_12556).i())).f(28)).i() - ((((p_o_12362).f(0)).at((p_t_12556).i())).f(29)).i()) == 2)) && ((((&*l_po_12370)).at((p_t_12556).i())).i() > ((((&*l_rows_12365)).at(((p_i_12375).i() + 2i64))).f(6)).i())) || ((((p_o_12362).f(0)).at((p_t_12556).i())).f(1)).is_sym(59))) })) && (((*(((&*l_rows_12365)).at(((p_i_12375).i() + 4i64))).f(36) == *(&V::seq(vec![V::I(o_RBRACE()), V::I(o_RBRACE())]))) || (*(((&*l_rows_12365)).at(((p_i_12375).i() + 4i64))).f(36) == *(&V::seq(vec![V::I(o_RBRACE()), V::I(o_RBRACE()), V::I(o_LF())]))) || (*(((&*l_rows_12365)).at(((p_i_12375).i() + 4i64))).f(36) == *(&V::seq(vec![V::I(o_RBRACE()), V::I(o_RBRACE()), V::I(o_CR()), V::I(o_LF())])))))) } else if ((((&*l_r_12379)).f(4)).is_sym(44) && (((&*l_r_12379)).f(14)).is_sym(15)) { ((1i64)..=((((&*l_po_12370)).len() as i64))).map(V::I).all_(|p_t_12687| { let p_t_12687 = &p_t_12687; (!((*((&*l_po_12370)).at((p_t_12687).i()) == *((&*l_r_12379)).f(6)) && (((((p_o_12362).f(0)).at((p_t_12687).i())).f(19)).i() == 0)) || ((!(((((p_o_12362).f(0)).at((p_t_12687).i())).f(1)).is_sym(32) && ((((((p_o_12362).f(0)).at((p_t_12687).i())).f(28)).i() - ((((p_o_12362).f(0)).at((p_t_12687).i())).f(29)).i()) == 5))) && (!((((((p_o_12362).f(0)).at((p_t_12687).i())).f(1)).is_sym(60) && ((((((p_o_12362).f(0)).at((p_t_12687).i())).f(28)).i() - ((((p_o_12362).f(0)).at((p_t_12687).i())).f(29)).i()) <= 6i64)) && (((((p_t_12687).i() + 1i64) <= (((&*l_po_12370)).len() as i64)) && ((((p_o_12362).f(0)).at(((p_t_12687).i() + 1i64))).f(1)).is_sym(42)) && ((((((p_o_12362).f(0)).at(((p_t_12687).i() + 1i64))).f(28)).i() - ((((p_o_12362).f(0)).at(((p_t_12687).i() + 1i64))).f(29)).i()) == 1)))))) }) } else { true })) } }) } }

pub fn o_X_C12(p_o_12814: &V) -> bool { o_Same(p_o_12814, (&V::S(61))) }

pub fn o_P_C12(p_o_12819: &V) -> bool { (o_X_C12(p_o_12819) && o_D_C12(p_o_12819)) }

pub fn o_TrimLfStart(p_s_16927: &V) -> V { let mut st = (p_s_16927.clone(),); loop { let r: Result<V, (V,)> = { let (p_s_16927,) = &st; (if ((((p_s_16927).len() as i64) > 0i64) && (((p_s_16927).at(1i64)).i() == o_LF())) { Err(((p_s_16927).sub(2i64, ((p_s_16927).len() as i64)),)) } else { Ok(p_s_16927.clone()) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_BuiltBlock(p_n_16949: &V) -> V { (if ((p_n_16949).f(62)).is_sym(48) { o_CodeNode((p_n_16949).f(63), (&o_TrimLfEnd((p_n_16949).f(64)))) } else if ((p_n_16949).f(62)).is_sym(54) { o_CollNode((p_n_16949).f(65), (&V::seq(((1i64)..=((((p_n_16949).f(26)).len() as i64))).map(V::I).map(|p_i_16978| { let p_i_16978 = &p_i_16978; o_BuiltBlock(((p_n_16949).f(26)).at((p_i_16978).i())) }).collect()))) } else { p_n_16949.clone() }) }

pub fn o_Fence(p_o_12826: &V, p_t_12827: &V) -> bool { ((((((p_o_12826).f(0)).at((p_t_12827).i())).f(1)).is_sym(66) && ((((((p_o_12826).f(0)).at((p_t_12827).i())).f(28)).i() - ((((p_o_12826).f(0)).at((p_t_12827).i())).f(29)).i()) == 3)) && (((((p_o_12826).f(0)).at((p_t_12827).i())).f(19)).i() == 0)) }

pub fn o_InnerMove(p_b_4602: &V) -> V { { let l_s2_4608 = Lz::new(|| -> V { ((&o_DocStops(p_b_4602))).cat((&V::seq(vec![o_StopTerm()]))) }); let l_l_4616 = Lz::new(|| -> V { o_ListFrom(p_b_4602, (p_b_4602).f(14), (&*l_s2_4608), (&V::I(0))) });  (if (((&*l_l_4616)).f(22)).b() { o_Move((&V::S(67)), (&o_BlockTake(p_b_4602, (&*l_l_4616)))) } else { { let l_i_4631 = Lz::new(|| -> V { o_Images(p_b_4602, (p_b_4602).f(14), (&*l_s2_4608)) });  (if (((&*l_i_4631)).f(22)).b() { o_Move((&V::S(68)), (&o_BlockTake(p_b_4602, (&*l_i_4631)))) } else { { let l_k_4645 = Lz::new(|| -> V { o_ThematicBreak(p_b_4602, (p_b_4602).f(14)) });  (if (((&*l_k_4645)).f(22)).b() { o_Move((&V::S(69)), (&o_BlockTake(p_b_4602, (&*l_k_4645)))) } else { { let l_h_4660 = Lz::new(|| -> V { o_Heading(p_b_4602, (p_b_4602).f(14), (&*l_s2_4608)) });  (if (((&*l_h_4660)).f(22)).b() { o_Move((&V::S(70)), (&o_BlockTake(p_b_4602, (&*l_h_4660)))) } else { o_Move((&V::S(71)), (&o_BlockTake(p_b_4602, (&o_Paragraph(p_b_4602, (p_b_4602).f(14), (&*l_s2_4608)))))) }) } }) } }) } }) } }

pub fn o_LF() -> i64 { 10i64 }

pub fn o_CR() -> i64 { 13i64 }

pub fn o_SP() -> i64 { 32i64 }

pub fn o_BSL() -> i64 { 92i64 }

pub fn o_TILDE() -> i64 { 126i64 }

pub fn o_BuiltDoc(p_d_16991: &V) -> V { o_DocNode((&(if (((p_d_16991).f(25)).len() == 0) { V::seq(vec![]) } else { V::seq(vec![o_TrimLfStart((&o_TrimLfEnd(((p_d_16991).f(25)).at(1i64))))]) })), (&V::seq(((1i64)..=((((p_d_16991).f(26)).len() as i64))).map(V::I).map(|p_i_17013| { let p_i_17013 = &p_i_17013; o_BuiltBlock(((p_d_16991).f(26)).at((p_i_17013).i())) }).collect()))) }

pub fn o_STAR() -> i64 { 42i64 }

pub fn o_LBRACE() -> i64 { 123i64 }

pub fn o_RBRACE() -> i64 { 125i64 }

pub fn o_Unescaped(p_s_17023: &V) -> V { o_Plain(p_s_17023, (&o_Kept(p_s_17023))) }

pub fn o_PCT() -> i64 { 37i64 }

pub fn o_DASH() -> i64 { 45i64 }

pub fn o_HASH() -> i64 { 35i64 }

pub fn o_GT() -> i64 { 62i64 }

pub fn o_DenoteDoc(p_ev_8812: &V) -> V { { let l_m_8817 = Lz::new(|| -> bool { o_IsS(p_ev_8812, (&V::I(1)), (&V::S(21))) }); let l_d_8827 = Lz::new(|| -> i64 { (if (*l_m_8817) { ((o_CloseOf(p_ev_8812, (&V::I(1)), (&V::I(0)))).i() + 1i64) } else { 1i64 }) });  o_DocNode((&(if (*l_m_8817) { V::seq(vec![o_Trim((&o_RawText(p_ev_8812, (&V::I(1)))))]) } else { V::seq(vec![]) })), (&o_DenoteAll(p_ev_8812, (&o_KidsOf(p_ev_8812, (&V::I((*l_d_8827))), (&o_BlockKinds()))), (&V::I(0))))) } }

pub fn o_BANG() -> i64 { 33i64 }

pub fn o_TICK() -> i64 { 96i64 }

pub fn o_PLUS() -> i64 { 43i64 }

pub fn o_LSQ() -> i64 { 91i64 }

pub fn o_RSQ() -> i64 { 93i64 }

pub fn o_LPAR() -> i64 { 40i64 }

pub fn o_RPAR() -> i64 { 41i64 }

pub fn o_USCORE() -> i64 { 95i64 }

pub fn o_PIPE() -> i64 { 124i64 }

pub fn o_D_C04(p_o_8846: &V) -> bool { (!o_Grammatical((p_o_8846).f(17)) || (((p_o_8846).f(22)).b() && (*(p_o_8846).f(24) == *(&o_DenoteDoc((p_o_8846).f(17)))))) }

pub fn o_P_C04(p_o_8865: &V) -> bool { o_D_C04(p_o_8865) }

pub fn o_BalancedFrom(p_ev_8874: &V, p_i_8875: &V, p_open_8876: &V) -> bool { let mut st = (p_ev_8874.clone(), p_i_8875.clone(), p_open_8876.clone(),); loop { let r: Result<bool, (V, V, V,)> = { let (p_ev_8874, p_i_8875, p_open_8876,) = &st; (if ((p_i_8875).i() > ((p_ev_8874).len() as i64)) { Ok(((p_open_8876).len() == 0)) } else { (if (((p_ev_8874).at((p_i_8875).i())).f(2)).is_sym(3) { Err((p_ev_8874.clone(), V::I(((p_i_8875).i() + 1i64)), (p_open_8876).push(((p_ev_8874).at((p_i_8875).i())).f(4).clone()),)) } else { (if (((p_ev_8874).at((p_i_8875).i())).f(2)).is_sym(12) { Ok((((((p_open_8876).len() as i64) > 0i64) && (*(p_open_8876).at(((p_open_8876).len() as i64)) == *((p_ev_8874).at((p_i_8875).i())).f(4))) && o_BalancedFrom(p_ev_8874, (&V::I(((p_i_8875).i() + 1i64))), (&(p_open_8876).sub(1i64, (((p_open_8876).len() as i64) - 1i64)))))) } else { Err((p_ev_8874.clone(), V::I(((p_i_8875).i() + 1i64)), p_open_8876.clone(),)) }) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_U8(p_c_671: &V) -> i64 { (if ((p_c_671).i() < 128i64) { 1i64 } else { (if ((p_c_671).i() < 2048i64) { 2i64 } else { (if ((p_c_671).i() < 65536i64) { 3i64 } else { 4i64 }) }) }) }

pub fn o_U8LenAcc(p_s_694: &V, p_i_695: &V, p_acc_696: &V) -> V { let mut st = (p_s_694.clone(), p_i_695.clone(), p_acc_696.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_s_694, p_i_695, p_acc_696,) = &st; (if ((p_i_695).i() > ((p_s_694).len() as i64)) { Ok(p_acc_696.clone()) } else { Err((p_s_694.clone(), V::I(((p_i_695).i() + 1i64)), V::I(((p_acc_696).i() + o_U8((p_s_694).at((p_i_695).i())))),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_U8Len(p_s_714: &V) -> V { o_U8LenAcc(p_s_714, (&V::I(1)), (&V::I(0))) }

pub fn o_OffsAcc(p_s_726: &V, p_i_727: &V, p_b_728: &V, p_acc_729: &V) -> V { let mut st = (p_s_726.clone(), p_i_727.clone(), p_b_728.clone(), p_acc_729.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_s_726, p_i_727, p_b_728, p_acc_729,) = &st; (if ((p_i_727).i() > ((p_s_726).len() as i64)) { Ok((p_acc_729).push(p_b_728.clone())) } else { Err((p_s_726.clone(), V::I(((p_i_727).i() + 1i64)), V::I(((p_b_728).i() + o_U8((p_s_726).at((p_i_727).i())))), (p_acc_729).push(p_b_728.clone()),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_PlainBold(p_n_17029: &V) -> V { { let l_w_17096 = Lz::new(|| -> V { o_Concat((&V::seq(((1i64)..=((((p_n_17029).f(26)).len() as i64))).map(V::I).map(|p_i_17036| { let p_i_17036 = &p_i_17036; (if ((((p_n_17029).f(26)).at((p_i_17036).i())).f(62)).is_sym(72) { ((&((&V::seq(vec![V::I(o_USCORE())]))).cat((((p_n_17029).f(26)).at((p_i_17036).i())).f(29)))).cat((&V::seq(vec![V::I(o_USCORE())]))) } else if ((((p_n_17029).f(26)).at((p_i_17036).i())).f(62)).is_sym(73) { ((&((&V::seq(vec![V::I(o_TILDE()), V::I(o_TILDE())]))).cat((((p_n_17029).f(26)).at((p_i_17036).i())).f(29)))).cat((&V::seq(vec![V::I(o_TILDE()), V::I(o_TILDE())]))) } else { (((p_n_17029).f(26)).at((p_i_17036).i())).f(29).clone() }) }).collect()))) });  (if (((&*l_w_17096)).len() == 0) { V::seq(vec![]) } else { ((&((&V::seq(vec![V::I(o_STAR()), V::I(o_STAR())]))).cat((&*l_w_17096)))).cat((&V::seq(vec![V::I(o_STAR()), V::I(o_STAR())]))) }) } }

pub fn o_PlainLink(p_a_17113: &V, p_b_17114: &V) -> V { ((&((&((&((&V::seq(vec![V::I(o_LSQ())]))).cat(p_a_17113))).cat((&V::seq(vec![V::I(o_RSQ()), V::I(o_LPAR())]))))).cat(p_b_17114))).cat((&V::seq(vec![V::I(o_RPAR())]))) }

pub fn o_BlockMove(p_b_4688: &V) -> V { { let l_st_4691 = Lz::new(|| -> V { o_DocStops(p_b_4688) });  (if o_AtEnd(p_b_4688, (p_b_4688).f(14), (&*l_st_4691)) { (if (((p_b_4688).f(31)).len() == 0) { o_Move((&V::S(74)), (&{ let x46 = { let b47 = p_b_4688; let b48 = b47.f(33); let n = V::B(true); b47.with_f(33, n) }; let x49 = { let b50 = (&x46); let b51 = b50.f(17); let n = (b51).push(o_EvE((&V::S(15)), (&o_NoContent()))); b50.with_f(17, n) };  x49 })) } else { { let l_c_4721 = Lz::new(|| -> V { o_CollapsibleClose(p_b_4688) });  o_Move((&(if ((((&*l_c_4721)).f(14)).i() > ((p_b_4688).f(14)).i()) { V::S(75) } else { V::S(76) })), (&*l_c_4721)) } }) } else { (if o_IsK(p_b_4688, (p_b_4688).f(14), (&V::S(59))) { o_Move((&V::S(77)), (&o_BlockTake(p_b_4688, (&o_Done((&V::I((((p_b_4688).f(14)).i() + 1i64))), (&V::seq(vec![o_EvV((&o_Content(p_b_4688, (p_b_4688).f(14), (&V::I((((p_b_4688).f(14)).i() + 1i64))))))]))))))) } else { { let l_c_4770 = Lz::new(|| -> V { o_Code(p_b_4688, (p_b_4688).f(14), (&*l_st_4691)) });  (if (((&*l_c_4770)).f(22)).b() { o_Move((&V::S(64)), (&o_BlockTake(p_b_4688, (&*l_c_4770)))) } else { (if o_CollapsibleHead(p_b_4688) { { let l_o_4783 = Lz::new(|| -> V { o_CollapsibleOpen(p_b_4688) });  o_Move((&(if (((((&*l_o_4783)).f(31)).len() as i64) > (((p_b_4688).f(31)).len() as i64)) { V::S(31) } else { V::S(78) })), (&*l_o_4783)) } } else { { let l_e_4808 = Lz::new(|| -> V { o_Embed(p_b_4688, (p_b_4688).f(14), (&((&*l_st_4691)).cat((&V::seq(vec![o_StopTerm()]))))) });  (if (((&*l_e_4808)).f(22)).b() { o_Move((&V::S(79)), (&o_BlockTake(p_b_4688, (&*l_e_4808)))) } else { { let l_h_4823 = Lz::new(|| -> V { o_Highlight(p_b_4688, (p_b_4688).f(14), (&*l_st_4691)) });  (if (((&*l_h_4823)).f(22)).b() { o_Move((&V::S(80)), (&o_BlockTake(p_b_4688, (&*l_h_4823)))) } else { o_InnerMove(p_b_4688) }) } }) } }) }) } }) }) } }

pub fn o_BlockStep(p_b_4845: &V) -> V { ((&o_BlockMove(p_b_4845))).f(56).clone() }

pub fn o_BlocksFrom(p_b_4854: &V) -> V { let mut st = (p_b_4854.clone(),); loop { let r: Result<V, (V,)> = { let (p_b_4854,) = &st; (if ((p_b_4854).f(33)).b() { Ok((p_b_4854).f(17).clone()) } else { Err((o_BlockStep(p_b_4854),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Offsets(p_s_752: &V) -> V { o_OffsAcc(p_s_752, (&V::I(1)), (&V::I(0)), (&V::seq(vec![]))) }

pub fn o_Balanced(p_ev_8947: &V) -> bool { o_BalancedFrom(p_ev_8947, (&V::I(1)), (&V::seq(vec![]))) }

pub fn o_Max2(p_a_759: &V, p_b_760: &V) -> V { (if ((p_a_759).i() > (p_b_760).i()) { p_a_759.clone() } else { p_b_760.clone() }) }

pub fn o_ParseTokens(p_src_4865: &V, p_tk_4866: &V) -> V { o_BlocksFrom((&o_BlockInit(p_src_4865, p_tk_4866))) }

pub fn o_Min2(p_a_768: &V, p_b_769: &V) -> V { (if ((p_a_768).i() < (p_b_769).i()) { p_a_768.clone() } else { p_b_769.clone() }) }

pub fn o_Parse(p_src_4872: &V) -> V { o_ParseTokens(p_src_4872, (&o_Lex(p_src_4872))) }

pub fn o_D_C13(p_o_12866: &V) -> bool { { let l_rows_12869 = Lz::new(|| -> V { o_Rows(p_o_12866) }); let l_po_12874 = Lz::new(|| -> V { o_Places((p_o_12866).f(0)) });  ((1i64)..=((((&*l_rows_12869)).len() as i64))).map(V::I).all_(|p_i_12879| { let p_i_12879 = &p_i_12879; { let l_r_12883 = Lz::new(|| -> V { ((&*l_rows_12869)).at((p_i_12879).i()).clone() });  (if ((((&*l_r_12883)).f(2)).is_sym(3) && (((&*l_r_12883)).f(4)).is_sym(48)) { ((((&*l_r_12883)).f(14)).is_sym(15) && ((1i64)..=((((&*l_po_12874)).len() as i64))).map(V::I).any_(|p_t_12904| { let p_t_12904 = &p_t_12904; ((*((&*l_po_12874)).at((p_t_12904).i()) == *((&*l_r_12883)).f(6)) && o_Fence(p_o_12866, p_t_12904)) })) } else if ((((&*l_r_12883)).f(2)).is_sym(30) && (((&*l_r_12883)).f(14)).is_sym(48)) { ((!((1i64)..=((((&*l_po_12874)).len() as i64))).map(V::I).any_(|p_t_12934| { let p_t_12934 = &p_t_12934; ((((((&*l_po_12874)).at((p_t_12934).i())).i() >= (((&*l_r_12883)).f(6)).i()) && ((((&*l_po_12874)).at((p_t_12934).i())).i() < ((((&*l_r_12883)).f(6)).i() + ((((&*l_r_12883)).f(36)).len() as i64)))) && o_Fence(p_o_12866, p_t_12934)) })) && ((1i64)..=((((&*l_po_12874)).len() as i64))).map(V::I).any_(|p_t_12965| { let p_t_12965 = &p_t_12965; (((((&*l_po_12874)).at((p_t_12965).i())).i() == ((((&*l_r_12883)).f(6)).i() + ((((&*l_r_12883)).f(36)).len() as i64))) && o_Fence(p_o_12866, p_t_12965)) }) && (((*(((&*l_rows_12869)).at(((p_i_12879).i() + 1i64))).f(36) == *(&V::seq(vec![V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK())]))) || (*(((&*l_rows_12869)).at(((p_i_12879).i() + 1i64))).f(36) == *(&V::seq(vec![V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK()), V::I(o_LF())]))) || (*(((&*l_rows_12869)).at(((p_i_12879).i() + 1i64))).f(36) == *(&V::seq(vec![V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK()), V::I(o_CR()), V::I(o_LF())])))))) } else if (((((&*l_r_12883)).f(2)).is_sym(30) && (((&*l_r_12883)).f(14)).is_sym(49)) && (((&*l_r_12883)).f(81)).is_sym(48)) { (!((1i64)..=((((&*l_po_12874)).len() as i64))).map(V::I).any_(|p_t_13030| { let p_t_13030 = &p_t_13030; ((((((&*l_po_12874)).at((p_t_13030).i())).i() >= (((&*l_r_12883)).f(6)).i()) && ((((&*l_po_12874)).at((p_t_13030).i())).i() < ((((&*l_r_12883)).f(6)).i() + ((((&*l_r_12883)).f(36)).len() as i64)))) && ((((((p_o_12866).f(0)).at((p_t_13030).i())).f(1)).is_sym(43) || ((((p_o_12866).f(0)).at((p_t_13030).i())).f(1)).is_sym(59)))) })) } else { true }) } }) } }

pub fn o_D_C05(p_o_8953: &V) -> bool { ((((p_o_8953).f(22)).b() == o_Balanced((p_o_8953).f(17))) && (*(p_o_8953).f(82) == *(p_o_8953).f(22)) && (!((p_o_8953).f(22)).b() || (*(p_o_8953).f(83) == *(p_o_8953).f(24)))) }

pub fn o_X_C13(p_o_13073: &V) -> bool { o_Same(p_o_13073, (&V::S(84))) }

pub fn o_At(p_s_777: &V, p_i_778: &V) -> V { (if (((p_i_778).i() >= 1i64) && ((p_i_778).i() <= ((p_s_777).len() as i64))) { (p_s_777).at((p_i_778).i()).clone() } else { V::I(0) }) }

pub fn o_Txt(p_s_4883: &V) -> V { V::rec(vec![(29, p_s_4883.clone()), (62, V::S(85))]) }

pub fn o_P_C13(p_o_13078: &V) -> bool { (o_X_C13(p_o_13078) && o_D_C13(p_o_13078)) }

pub fn o_LeafNode(p_n_4892: &V, p_s_4893: &V) -> V { V::rec(vec![(29, p_s_4893.clone()), (62, p_n_4892.clone())]) }

pub fn o_X_C05(p_o_8982: &V) -> bool { (!((p_o_8982).f(22)).b() || (*(p_o_8982).f(24) == *((&o_Build((p_o_8982).f(17)))).f(86))) }

pub fn o_P_C05(p_o_8998: &V) -> bool { (o_D_C05(p_o_8998) && o_X_C05(p_o_8998)) }

pub fn o_BoldNode(p_b_4902: &V) -> V { V::rec(vec![(26, p_b_4902.clone()), (62, V::S(45))]) }

pub fn o_ItemMark(p_w_13085: &V, p_lv_13086: &V, p_k_13087: &V) -> bool { (*p_w_13085 == *(&((&o_Repeat((&V::I(o_SP())), p_lv_13086))).cat((&V::seq(vec![(if (p_k_13087).is_sym(87) { V::I(o_PLUS()) } else { V::I(o_DASH()) }), V::I(o_SP())]))))) }

pub fn o_P_C04b(p_o_9005: &V) -> bool { o_D_C04(p_o_9005) }

pub fn o_C14From(p_rows_13109: &V, p_i_13110: &V, p_lv_13111: &V, p_acc_13112: &V) -> V { let mut st = (p_rows_13109.clone(), p_i_13110.clone(), p_lv_13111.clone(), p_acc_13112.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_rows_13109, p_i_13110, p_lv_13111, p_acc_13112,) = &st; (if ((p_i_13110).i() > ((p_rows_13109).len() as i64)) { Ok(p_acc_13112.clone()) } else { { let l_r_13121 = Lz::new(|| -> V { (p_rows_13109).at((p_i_13110).i()).clone() });  (if (((&o_ListKinds())).contains(((&*l_r_13121)).f(4))) { Err((p_rows_13109.clone(), V::I(((p_i_13110).i() + 1i64)), (if (((&*l_r_13121)).f(2)).is_sym(3) { V::I(((p_lv_13111).i() + 1i64)) } else { V::I(((p_lv_13111).i() - 1i64)) }), V::B(((p_acc_13112).b() && (!(((&*l_r_13121)).f(2)).is_sym(3) || (*((&*l_r_13121)).f(14) == *(&(if ((p_lv_13111).i() == 0) { V::S(15) } else { V::S(20) })))))),)) } else { (if ((((&*l_r_13121)).f(4)).is_sym(20) && (((&*l_r_13121)).f(2)).is_sym(3)) { Err((p_rows_13109.clone(), V::I(((p_i_13110).i() + 1i64)), p_lv_13111.clone(), V::B((((p_acc_13112).b() && (((&o_ListKinds())).contains(((&*l_r_13121)).f(14)))) && o_ItemMark(((&*l_r_13121)).f(36), (&V::I(((p_lv_13111).i() - 1i64))), ((&*l_r_13121)).f(14)))),)) } else { Err((p_rows_13109.clone(), V::I(((p_i_13110).i() + 1i64)), p_lv_13111.clone(), p_acc_13112.clone(),)) }) }) } }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_RangesFrom(p_tk_9014: &V, p_i_9015: &V, p_acc_9016: &V) -> V { let mut st = (p_tk_9014.clone(), p_i_9015.clone(), p_acc_9016.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_tk_9014, p_i_9015, p_acc_9016,) = &st; (if ((p_i_9015).i() > ((p_tk_9014).len() as i64)) { Ok(p_acc_9016.clone()) } else { Err((p_tk_9014.clone(), V::I(((p_i_9015).i() + 1i64)), (p_acc_9016).cat((&V::seq(((1i64)..=(((((p_tk_9014).at((p_i_9015).i())).f(27)).i() - (((p_tk_9014).at((p_i_9015).i())).f(6)).i()))).map(V::I).map(|p_j_9040| { let p_j_9040 = &p_j_9040; V::I(((((p_tk_9014).at((p_i_9015).i())).f(6)).i() + ((p_j_9040).i() - 1i64))) }).collect()))),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_MatchAt(p_s_793: &V, p_i_794: &V, p_pat_795: &V) -> bool { ((((p_i_794).i() + (((p_pat_795).len() as i64) - 1i64)) <= ((p_s_793).len() as i64)) && ((1i64)..=(((p_pat_795).len() as i64))).map(V::I).all_(|p_j_809| { let p_j_809 = &p_j_809; (*(p_s_793).at(((p_i_794).i() + ((p_j_809).i() - 1i64))) == *(p_pat_795).at((p_j_809).i())) })) }

pub fn o_AnchorNode(p_s_4911: &V, p_u_4912: &V) -> V { V::rec(vec![(62, V::S(47)), (88, p_s_4911.clone()), (89, p_u_4912.clone())]) }

pub fn o_StartsWith(p_s_824: &V, p_pat_825: &V) -> bool { o_MatchAt(p_s_824, (&V::I(1)), p_pat_825) }

pub fn o_ParaNode(p_b_4924: &V) -> V { V::rec(vec![(26, p_b_4924.clone()), (62, V::S(44))]) }

pub fn o_PlainInline(p_n_17129: &V) -> V { (if ((p_n_17129).f(62)).is_sym(47) { o_PlainLink((p_n_17129).f(88), (p_n_17129).f(89)) } else if ((p_n_17129).f(62)).is_sym(45) { o_PlainBold(p_n_17129) } else if ((p_n_17129).f(62)).is_sym(72) { ((&((&V::seq(vec![V::I(o_USCORE())]))).cat((p_n_17129).f(29)))).cat((&V::seq(vec![V::I(o_USCORE())]))) } else if ((p_n_17129).f(62)).is_sym(73) { ((&((&V::seq(vec![V::I(o_TILDE()), V::I(o_TILDE())]))).cat((p_n_17129).f(29)))).cat((&V::seq(vec![V::I(o_TILDE()), V::I(o_TILDE())]))) } else if ((p_n_17129).f(62)).is_sym(90) { (if (((p_n_17129).f(29)).len() == 0) { V::seq(vec![]) } else { ((&((&V::seq(vec![V::I(o_TICK())]))).cat((p_n_17129).f(29)))).cat((&V::seq(vec![V::I(o_TICK())]))) }) } else if ((p_n_17129).f(62)).is_sym(91) { ((&((&V::seq(vec![V::I(o_STAR())]))).cat((p_n_17129).f(29)))).cat((&V::seq(vec![V::I(o_STAR())]))) } else { (p_n_17129).f(29).clone() }) }

pub fn o_EndsWith(p_s_831: &V, p_pat_832: &V) -> bool { ((((p_s_831).len() as i64) >= ((p_pat_832).len() as i64)) && o_MatchAt(p_s_831, (&V::I(((((p_s_831).len() as i64) - ((p_pat_832).len() as i64)) + 1i64))), p_pat_832)) }

pub fn o_HeadNode(p_l_4933: &V, p_b_4934: &V) -> V { V::rec(vec![(26, p_b_4934.clone()), (62, V::S(46)), (92, p_l_4933.clone())]) }

pub fn o_PlainInlines(p_b_17226: &V) -> V { o_Concat((&V::seq(((1i64)..=(((p_b_17226).len() as i64))).map(V::I).map(|p_i_17231| { let p_i_17231 = &p_i_17231; o_PlainInline((p_b_17226).at((p_i_17231).i())) }).collect()))) }

pub fn o_PlainListFrom(p_l_17244: &V, p_i_17245: &V, p_acc_17246: &V) -> V { let mut st = (p_l_17244.clone(), p_i_17245.clone(), p_acc_17246.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_l_17244, p_i_17245, p_acc_17246,) = &st; (if ((p_i_17245).i() > (((p_l_17244).f(26)).len() as i64)) { Ok(p_acc_17246.clone()) } else { { let l_it_17259 = Lz::new(|| -> V { ((p_l_17244).f(26)).at((p_i_17245).i()).clone() }); let l_w_17293 = Lz::new(|| -> V { ((&((&((&(p_acc_17246).cat((&(if ((p_i_17245).i() == 1) { V::seq(vec![]) } else { V::seq(vec![V::I(o_LF())]) }))))).cat((&o_Repeat((&V::I(o_SP())), (p_l_17244).f(92)))))).cat((&(if ((p_l_17244).f(93)).is_sym(87) { V::seq(vec![V::I(o_PLUS()), V::I(o_SP())]) } else { V::seq(vec![V::I(o_DASH()), V::I(o_SP())]) }))))).cat((&o_PlainInlines(((&*l_it_17259)).f(88)))) });  Err((p_l_17244.clone(), V::I(((p_i_17245).i() + 1i64)), (if ((((&*l_it_17259)).f(94)).len() == 0) { (*l_w_17293).clone() } else { o_PlainListFrom((((&*l_it_17259)).f(94)).at(1i64), (&V::I(1)), (&((&*l_w_17293)).push(V::I(o_LF())))) }),)) } }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Contains(p_s_850: &V, p_pat_851: &V) -> bool { ((1i64)..=(((p_s_850).len() as i64))).map(V::I).any_(|p_i_856| { let p_i_856 = &p_i_856; o_MatchAt(p_s_850, p_i_856, p_pat_851) }) }

pub fn o_ImageNode(p_a_4946: &V, p_s_4947: &V) -> V { V::rec(vec![(23, p_s_4947.clone()), (62, V::S(13)), (95, p_a_4946.clone())]) }

pub fn o_ImagesNode(p_b_4959: &V) -> V { V::rec(vec![(26, p_b_4959.clone()), (62, V::S(16))]) }

pub fn o_HasChar(p_s_863: &V, p_c_864: &V) -> bool { ((1i64)..=(((p_s_863).len() as i64))).map(V::I).any_(|p_i_869| { let p_i_869 = &p_i_869; (*(p_s_863).at((p_i_869).i()) == *p_c_864) }) }

pub fn o_ReplaceAcc(p_s_884: &V, p_i_885: &V, p_pat_886: &V, p_rep_887: &V, p_acc_888: &V) -> V { let mut st = (p_s_884.clone(), p_i_885.clone(), p_pat_886.clone(), p_rep_887.clone(), p_acc_888.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_s_884, p_i_885, p_pat_886, p_rep_887, p_acc_888,) = &st; (if ((p_i_885).i() > ((p_s_884).len() as i64)) { Ok(p_acc_888.clone()) } else { (if o_MatchAt(p_s_884, p_i_885, p_pat_886) { Err((p_s_884.clone(), V::I(((p_i_885).i() + ((p_pat_886).len() as i64))), p_pat_886.clone(), p_rep_887.clone(), (p_acc_888).cat(p_rep_887),)) } else { Err((p_s_884.clone(), V::I(((p_i_885).i() + 1i64)), p_pat_886.clone(), p_rep_887.clone(), (p_acc_888).push((p_s_884).at((p_i_885).i()).clone()),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_CodeNode(p_l_4968: &V, p_c_4969: &V) -> V { V::rec(vec![(62, V::S(48)), (63, p_l_4968.clone()), (64, p_c_4969.clone())]) }

pub fn o_ValidRange(p_src_9054: &V, p_t_9055: &V) -> bool { (((1i64 <= ((p_t_9055).f(6)).i()) && (((p_t_9055).f(6)).i() < ((p_t_9055).f(27)).i())) && (((p_t_9055).f(27)).i() <= (((p_src_9054).len() as i64) + 1i64))) }

pub fn o_ListNode(p_k_4981: &V, p_l_4982: &V, p_b_4983: &V) -> V { V::rec(vec![(26, p_b_4983.clone()), (62, V::S(96)), (92, p_l_4982.clone()), (93, p_k_4981.clone())]) }

pub fn o_ItemNode(p_s_4998: &V, p_n_4999: &V) -> V { V::rec(vec![(88, p_s_4998.clone()), (94, p_n_4999.clone())]) }

pub fn o_HighNode(p_h_5008: &V, p_i_5009: &V, p_b_5010: &V) -> V { V::rec(vec![(26, p_b_5010.clone()), (62, V::S(52)), (65, p_h_5008.clone()), (97, p_i_5009.clone())]) }

pub fn o_BreakNode() -> V { thread_local! { static C: V = V::rec(vec![(62, V::S(51))]); } C.with(|c| c.clone()) }

pub fn o_PlainList(p_l_17318: &V) -> V { o_PlainListFrom(p_l_17318, (&V::I(1)), (&V::seq(vec![]))) }

pub fn o_Replace(p_s_923: &V, p_pat_924: &V, p_rep_925: &V) -> V { (if ((1i64)..=(((p_s_923).len() as i64))).map(V::I).any_(|p_i_930| { let p_i_930 = &p_i_930; o_MatchAt(p_s_923, p_i_930, p_pat_924) }) { o_ReplaceAcc(p_s_923, (&V::I(1)), p_pat_924, p_rep_925, (&V::seq(vec![]))) } else { p_s_923.clone() }) }

pub fn o_EmbedNode(p_k_5030: &V, p_a_5031: &V) -> V { V::rec(vec![(62, V::S(50)), (93, p_k_5030.clone()), (98, p_a_5031.clone())]) }

pub fn o_D_C06(p_o_9079: &V) -> bool { { let l_off_9084 = Lz::new(|| -> V { o_Offsets((p_o_9079).f(23)) });  (((1i64)..=((((p_o_9079).f(0)).len() as i64))).map(V::I).all_(|p_i_9091| { let p_i_9091 = &p_i_9091; { let l_t_9097 = Lz::new(|| -> V { ((p_o_9079).f(0)).at((p_i_9091).i()).clone() });  ((o_ValidRange((p_o_9079).f(23), (&*l_t_9097)) && (*((&*l_t_9097)).f(29) == *((&*l_off_9084)).at((((&*l_t_9097)).f(6)).i()))) && (*((&*l_t_9097)).f(28) == *((&*l_off_9084)).at((((&*l_t_9097)).f(27)).i()))) } }) && (*(&o_RangesFrom((p_o_9079).f(0), (&V::I(1)), (&V::seq(vec![])))) == *(&o_Kept((p_o_9079).f(23)))) && ((p_o_9079).f(99)).b()) } }

pub fn o_P_C06(p_o_9142: &V) -> bool { o_D_C06(p_o_9142) }

pub fn o_Esc(p_s_945: &V, p_pat_946: &V) -> V { o_Replace(p_s_945, p_pat_946, (&((&V::seq(vec![V::I(o_BSL())]))).cat(p_pat_946))) }

pub fn o_PlainHighPara(p_p_17324: &V) -> V { { let l_w_17329 = Lz::new(|| -> V { o_PlainInlines((p_p_17324).f(26)) });  (if (((&*l_w_17329)).len() == 0) { V::seq(vec![V::I(o_LF())]) } else { (*l_w_17329).clone() }) } }

pub fn o_CollNode(p_h_5043: &V, p_b_5044: &V) -> V { V::rec(vec![(26, p_b_5044.clone()), (62, V::S(54)), (65, p_h_5043.clone())]) }

pub fn o_EscChar(p_s_955: &V, p_c_956: &V) -> V { o_Replace(p_s_955, (&V::seq(vec![p_c_956.clone()])), (&V::seq(vec![V::I(o_BSL()), p_c_956.clone()]))) }

pub fn o_D_C14(p_o_13208: &V) -> bool { { let l_rows_13211 = Lz::new(|| -> V { o_Rows(p_o_13208) }); let l_po_13216 = Lz::new(|| -> V { o_Places((p_o_13208).f(0)) });  ((o_C14From((&*l_rows_13211), (&V::I(1)), (&V::I(0)), (&V::B(true)))).b() && ((1i64)..=((((&*l_rows_13211)).len() as i64))).map(V::I).all_(|p_i_13226| { let p_i_13226 = &p_i_13226; (!(((((&*l_rows_13211)).at((p_i_13226).i())).f(4)).is_sym(20) && ((((&*l_rows_13211)).at((p_i_13226).i())).f(2)).is_sym(3)) || o_LineStart(p_o_13208, (&*l_po_13216), (((&*l_rows_13211)).at((p_i_13226).i())).f(6))) })) } }

pub fn o_TrimEnd(p_s_968: &V) -> V { let mut st = (p_s_968.clone(),); loop { let r: Result<V, (V,)> = { let (p_s_968,) = &st; (if ((((p_s_968).len() as i64) > 0i64) && (((((p_s_968).at(((p_s_968).len() as i64))).i() == o_LF()) || (((p_s_968).at(((p_s_968).len() as i64))).i() == o_CR())))) { Err(((p_s_968).sub(1i64, (((p_s_968).len() as i64) - 1i64)),)) } else { Ok(p_s_968.clone()) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_DocNode(p_m_5056: &V, p_b_5057: &V) -> V { V::rec(vec![(25, p_m_5056.clone()), (26, p_b_5057.clone())]) }

pub fn o_X_C14(p_o_13255: &V) -> bool { o_Same(p_o_13255, (&V::S(100))) }

pub fn o_P_C14(p_o_13260: &V) -> bool { (o_X_C14(p_o_13260) && o_D_C14(p_o_13260)) }

pub fn o_TrimStart(p_s_995: &V) -> V { let mut st = (p_s_995.clone(),); loop { let r: Result<V, (V,)> = { let (p_s_995,) = &st; (if ((((p_s_995).len() as i64) > 0i64) && (((((p_s_995).at(1i64)).i() == o_LF()) || (((p_s_995).at(1i64)).i() == o_CR())))) { Err(((p_s_995).sub(2i64, ((p_s_995).len() as i64)),)) } else { Ok(p_s_995.clone()) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Frame(p_f_5066: &V, p_lv_5067: &V) -> V { V::rec(vec![(26, V::seq(vec![])), (40, p_f_5066.clone()), (101, p_lv_5067.clone()), (102, V::seq(vec![])), (103, V::seq(vec![])), (104, V::seq(vec![])), (105, V::seq(vec![]))]) }

pub fn o_BuildInit() -> V { thread_local! { static C: V = V::rec(vec![(107, V::seq(vec![o_Frame((&V::S(106)), (&V::I(0)))])), (108, V::B(false))]); } C.with(|c| c.clone()) }

pub fn o_Top(p_st_5102: &V) -> V { (p_st_5102).at(((p_st_5102).len() as i64)).clone() }

pub fn o_RunChar(p_k_9146: &V) -> i64 { (if (p_k_9146).is_sym(109) { o_TILDE() } else if (p_k_9146).is_sym(110) { o_STAR() } else if (p_k_9146).is_sym(58) { o_RBRACE() } else if (p_k_9146).is_sym(111) { o_LBRACE() } else if (p_k_9146).is_sym(32) { o_DASH() } else if (p_k_9146).is_sym(60) { o_HASH() } else if (p_k_9146).is_sym(112) { o_GT() } else if (p_k_9146).is_sym(113) { o_BANG() } else if (p_k_9146).is_sym(66) { o_TICK() } else if (p_k_9146).is_sym(114) { o_PLUS() } else if (p_k_9146).is_sym(42) { o_SP() } else { 0i64 }) }

pub fn o_Trim(p_s_1016: &V) -> V { o_TrimStart((&o_TrimEnd(p_s_1016))) }

pub fn o_SetTop(p_st_5108: &V, p_f_5109: &V) -> V { { let x52 = { let b53 = p_st_5108; let i55 = ((p_st_5108).len() as i64); let b54 = b53.at(i55); let n = p_f_5109.clone(); b53.with_at(i55, n) };  x52 } }

pub fn o_Repeat(p_c_1025: &V, p_n_1026: &V) -> V { (if ((p_n_1026).i() <= 0i64) { V::seq(vec![]) } else { ((&o_Repeat(p_c_1025, (&V::I(((p_n_1026).i() - 1i64)))))).push(p_c_1025.clone()) }) }

pub fn o_PlainHighlight(p_n_17339: &V) -> V { ((&((&((&((&((&((&V::seq(vec![V::I(o_BANG()), V::I(o_BANG())]))).cat((&(if (((p_n_17339).f(65)).len() == 0) { V::seq(vec![]) } else { ((&V::seq(vec![V::I(o_SP())]))).cat(((p_n_17339).f(65)).at(1i64)) }))))).cat((&V::seq(vec![V::I(o_LF())]))))).cat((&(if (((p_n_17339).f(97)).len() == 0) { V::seq(vec![]) } else { ((&((&V::seq(vec![V::I(o_BANG()), V::I(o_SP())]))).cat(((p_n_17339).f(97)).at(1i64)))).cat((&V::seq(vec![V::I(o_LF())]))) }))))).cat((&o_Join((&V::seq(((1i64)..=((((p_n_17339).f(26)).len() as i64))).map(V::I).map(|p_i_17388| { let p_i_17388 = &p_i_17388; o_PlainHighPara(((p_n_17339).f(26)).at((p_i_17388).i())) }).collect())), (&o_LF2())))))).cat((&(if (((p_n_17339).f(26)).len() == 0) { V::seq(vec![]) } else { V::seq(vec![V::I(o_LF())]) }))))).cat((&V::seq(vec![V::I(o_BANG()), V::I(o_BANG())]))) }

pub fn o_Pop(p_st_5118: &V) -> V { (p_st_5118).sub(1i64, (((p_st_5118).len() as i64) - 1i64)) }

pub fn o_PlainBlock(p_n_17431: &V) -> V { (if ((p_n_17431).f(62)).is_sym(44) { o_PlainInlines((p_n_17431).f(26)) } else if ((p_n_17431).f(62)).is_sym(46) { ((&((&o_Repeat((&V::I(o_HASH())), (p_n_17431).f(92)))).cat((&V::seq(vec![V::I(o_SP())]))))).cat((&o_PlainInlines((p_n_17431).f(26)))) } else if ((p_n_17431).f(62)).is_sym(13) { ((&V::seq(vec![V::I(o_BANG())]))).cat((&o_PlainLink((p_n_17431).f(95), (p_n_17431).f(23)))) } else if ((p_n_17431).f(62)).is_sym(16) { o_Join((&V::seq(((1i64)..=((((p_n_17431).f(26)).len() as i64))).map(V::I).map(|p_i_17488| { let p_i_17488 = &p_i_17488; o_PlainBlock(((p_n_17431).f(26)).at((p_i_17488).i())) }).collect())), (&V::seq(vec![V::I(o_LF())]))) } else if ((p_n_17431).f(62)).is_sym(48) { ((&((&((&((&V::seq(vec![V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK())]))).cat((p_n_17431).f(63)))).cat((&V::seq(vec![V::I(o_LF())]))))).cat((p_n_17431).f(64)))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK())]))) } else if ((p_n_17431).f(62)).is_sym(96) { o_PlainList(p_n_17431) } else if ((p_n_17431).f(62)).is_sym(52) { o_PlainHighlight(p_n_17431) } else if ((p_n_17431).f(62)).is_sym(51) { o_Repeat((&V::I(o_DASH())), (&V::I(5))) } else if ((p_n_17431).f(62)).is_sym(50) { ((&((&((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_LBRACE())]))).cat((p_n_17431).f(93)))).cat((&V::seq(vec![V::I(o_PIPE())]))))).cat((p_n_17431).f(98)))).cat((&V::seq(vec![V::I(o_RBRACE()), V::I(o_RBRACE())]))) } else { ((&((&((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_PCT()), V::I(o_SP())]))).cat((p_n_17431).f(65)))).cat((&V::seq(vec![V::I(o_LF())]))))).cat((&o_PlainBody((p_n_17431).f(26)))))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_PCT()), V::I(o_RBRACE())]))) }) }

pub fn o_ConcatAcc(p_ss_1044: &V, p_i_1045: &V, p_acc_1046: &V) -> V { let mut st = (p_ss_1044.clone(), p_i_1045.clone(), p_acc_1046.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_ss_1044, p_i_1045, p_acc_1046,) = &st; (if ((p_i_1045).i() > ((p_ss_1044).len() as i64)) { Ok(p_acc_1046.clone()) } else { Err((p_ss_1044.clone(), V::I(((p_i_1045).i() + 1i64)), (p_acc_1046).cat((p_ss_1044).at((p_i_1045).i())),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_IsListFrame(p_f_5127: &V) -> bool { (((p_f_5127).f(40)).is_sym(115) || ((p_f_5127).f(40)).is_sym(87)) }

pub fn o_PlainBody(p_b_17417: &V) -> V { o_Join((&V::seq(((1i64)..=(((p_b_17417).len() as i64))).map(V::I).map(|p_i_17422| { let p_i_17422 = &p_i_17422; o_PlainBlock((p_b_17417).at((p_i_17422).i())) }).collect())), (&o_LF2())) }

pub fn o_SingleChar(p_k_9206: &V) -> i64 { (if (p_k_9206).is_sym(7) { o_LSQ() } else if (p_k_9206).is_sym(8) { o_RSQ() } else if (p_k_9206).is_sym(9) { o_LPAR() } else if (p_k_9206).is_sym(11) { o_RPAR() } else if (p_k_9206).is_sym(116) { o_USCORE() } else if (p_k_9206).is_sym(57) { o_PIPE() } else { 0i64 }) }

pub fn o_ListDepth(p_st_5140: &V) -> i64 { (((1i64)..=(((p_st_5140).len() as i64))).map(V::I).filter(|p_i_5145| { o_IsListFrame((p_st_5140).at((p_i_5145).i())) }).count() as i64) }

pub fn o_CountHash(p_s_5157: &V, p_i_5158: &V) -> i64 { let mut st = (p_s_5157.clone(), p_i_5158.clone(),); loop { let r: Result<i64, (V, V,)> = { let (p_s_5157, p_i_5158,) = &st; (if ((o_At(p_s_5157, p_i_5158)).i() == o_HASH()) { Err((p_s_5157.clone(), V::I(((p_i_5158).i() + 1i64)),)) } else { Ok(((p_i_5158).i() - 1i64)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_RunMarks() -> V { thread_local! { static C: V = V::set(vec![V::I(o_TILDE()), V::I(o_STAR()), V::I(o_RBRACE()), V::I(o_LBRACE()), V::I(o_DASH()), V::I(o_HASH()), V::I(o_GT()), V::I(o_BANG()), V::I(o_TICK()), V::I(o_PLUS())]); } C.with(|c| c.clone()) }

pub fn o_Concat(p_ss_1063: &V) -> V { o_ConcatAcc(p_ss_1063, (&V::I(1)), (&V::seq(vec![]))) }

pub fn o_SingleMarks() -> V { thread_local! { static C: V = V::set(vec![V::I(o_LSQ()), V::I(o_RSQ()), V::I(o_LPAR()), V::I(o_RPAR()), V::I(o_USCORE()), V::I(o_PIPE())]); } C.with(|c| c.clone()) }

pub fn o_JoinAcc(p_ss_1075: &V, p_i_1076: &V, p_sep_1077: &V, p_acc_1078: &V) -> V { let mut st = (p_ss_1075.clone(), p_i_1076.clone(), p_sep_1077.clone(), p_acc_1078.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_ss_1075, p_i_1076, p_sep_1077, p_acc_1078,) = &st; (if ((p_i_1076).i() > ((p_ss_1075).len() as i64)) { Ok(p_acc_1078.clone()) } else { Err((p_ss_1075.clone(), V::I(((p_i_1076).i() + 1i64)), p_sep_1077.clone(), (if ((p_i_1076).i() == 1) { (p_ss_1075).at(1i64).clone() } else { ((&(p_acc_1078).cat(p_sep_1077))).cat((p_ss_1075).at((p_i_1076).i())) }),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_MarkAt(p_src_9261: &V, p_i_9262: &V) -> bool { ((((((&o_RunMarks())).contains((p_src_9261).at((p_i_9262).i()))) || (((&o_SingleMarks())).contains((p_src_9261).at((p_i_9262).i())))) || (((p_src_9261).at((p_i_9262).i())).i() == o_BSL())) || ((o_LineBreakLen(p_src_9261, p_i_9262) > 0i64) || o_IsPair(p_src_9261, p_i_9262))) }

pub fn o_StartLevel(p_st_5173: &V, p_e_5174: &V) -> i64 { (if ((p_e_5174).f(4)).is_sym(46) { o_CountHash(((p_e_5174).f(35)).f(36), (&V::I(1))) } else { (if (((p_e_5174).f(4)).is_sym(115) || ((p_e_5174).f(4)).is_sym(87)) { o_ListDepth(p_st_5173) } else { 0i64 }) }) }

pub fn o_Join(p_ss_1105: &V, p_sep_1106: &V) -> V { o_JoinAcc(p_ss_1105, (&V::I(1)), p_sep_1106, (&V::seq(vec![]))) }

pub fn o_LeafFrames() -> V { thread_local! { static C: V = V::set(vec![V::S(72), V::S(73), V::S(90), V::S(91), V::S(5), V::S(10), V::S(49), V::S(53), V::S(21), V::S(48)]); } C.with(|c| c.clone()) }

pub fn o_IsPrefixOf(p_a_1113: &V, p_b_1114: &V) -> bool { ((((p_a_1113).len() as i64) <= ((p_b_1114).len() as i64)) && ((1i64)..=(((p_a_1113).len() as i64))).map(V::I).all_(|p_i_1124| { let p_i_1124 = &p_i_1124; (*(p_a_1113).at((p_i_1124).i()) == *(p_b_1114).at((p_i_1124).i())) })) }

pub fn o_TakeValue(p_f_5216: &V, p_w_5217: &V) -> V { (if ((((p_f_5216).f(40)).is_sym(46) || ((p_f_5216).f(40)).is_sym(44) || ((p_f_5216).f(40)).is_sym(45))) { { let x56 = { let b57 = p_f_5216; let b58 = b57.f(26); let n = (b58).push(o_Txt(p_w_5217)); b57.with_f(26, n) };  x56 } } else { (if ((p_f_5216).f(40)).is_sym(50) { { let x59 = { let b60 = p_f_5216; let b61 = b60.f(26); let n = (b61).push(p_w_5217.clone()); b60.with_f(26, n) };  x59 } } else { (if (((&o_LeafFrames())).contains((p_f_5216).f(40))) { { let x62 = { let b63 = p_f_5216; let b64 = b63.f(102); let n = (b64).cat(p_w_5217); b63.with_f(102, n) };  x62 } } else { p_f_5216.clone() }) }) }) }

pub fn o_Tok(p_k_1140: &V, p_s_1141: &V, p_e_1142: &V, p_a_1143: &V, p_z_1144: &V, p_c_1145: &V, p_r_1146: &V, p_x_1147: &V) -> V { V::rec(vec![(1, p_k_1140.clone()), (6, p_a_1143.clone()), (19, p_c_1145.clone()), (27, p_z_1144.clone()), (28, p_e_1142.clone()), (29, p_s_1141.clone()), (35, p_x_1147.clone()), (56, p_s_1141.clone()), (117, p_r_1146.clone())]) }

pub fn o_TrimLastText(p_b_5266: &V) -> V { (if ((!((p_b_5266).len() == 0)) && (((p_b_5266).at(((p_b_5266).len() as i64))).f(62)).is_sym(85)) { { let l_s_5286 = Lz::new(|| -> V { o_TrimEnd(((p_b_5266).at(((p_b_5266).len() as i64))).f(29)) });  (if (((&*l_s_5286)).len() == 0) { (p_b_5266).sub(1i64, (((p_b_5266).len() as i64) - 1i64)) } else { { let x65 = { let b66 = p_b_5266; let i68 = ((p_b_5266).len() as i64); let b67 = b66.at(i68); let n = o_Txt((&*l_s_5286)); b66.with_at(i68, n) };  x65 } }) } } else { p_b_5266.clone() }) }

pub fn o_AddTo(p_p_5310: &V, p_x_5311: &V) -> V { { let x69 = { let b70 = p_p_5310; let b71 = b70.f(26); let n = (b71).push(p_x_5311.clone()); b70.with_f(26, n) };  x69 } }

pub fn o_RunKind(p_ch_1177: &V) -> V { (if ((p_ch_1177).i() == o_TILDE()) { V::S(109) } else if ((p_ch_1177).i() == o_STAR()) { V::S(110) } else if ((p_ch_1177).i() == o_RBRACE()) { V::S(58) } else if ((p_ch_1177).i() == o_LBRACE()) { V::S(111) } else if ((p_ch_1177).i() == o_DASH()) { V::S(32) } else if ((p_ch_1177).i() == o_HASH()) { V::S(60) } else if ((p_ch_1177).i() == o_GT()) { V::S(112) } else if ((p_ch_1177).i() == o_BANG()) { V::S(113) } else if ((p_ch_1177).i() == o_TICK()) { V::S(66) } else if ((p_ch_1177).i() == o_PLUS()) { V::S(114) } else if ((p_ch_1177).i() == o_SP()) { V::S(42) } else { V::S(118) }) }

pub fn o_AddIf(p_p_5321: &V, p_hosts_5322: &V, p_x_5323: &V) -> V { (if ((p_hosts_5322).contains((p_p_5321).f(40))) { o_AddTo(p_p_5321, p_x_5323) } else { p_p_5321.clone() }) }

pub fn o_PlainDoc(p_d_17599: &V) -> V { ((&(if (((p_d_17599).f(25)).len() == 0) { V::seq(vec![]) } else { ((&((&((&V::seq(vec![V::I(o_DASH()), V::I(o_DASH()), V::I(o_DASH()), V::I(o_LF())]))).cat(((p_d_17599).f(25)).at(1i64)))).cat((&(if o_EndsWith(((p_d_17599).f(25)).at(1i64), (&V::seq(vec![V::I(o_LF())]))) { V::seq(vec![]) } else { V::seq(vec![V::I(o_LF())]) }))))).cat((&V::seq(vec![V::I(o_DASH()), V::I(o_DASH()), V::I(o_DASH()), V::I(o_LF()), V::I(o_LF())]))) }))).cat((&o_PlainBody((p_d_17599).f(26)))) }

pub fn o_SingleKind(p_ch_1237: &V) -> V { (if ((p_ch_1237).i() == o_LSQ()) { V::S(7) } else if ((p_ch_1237).i() == o_RSQ()) { V::S(8) } else if ((p_ch_1237).i() == o_LPAR()) { V::S(9) } else if ((p_ch_1237).i() == o_RPAR()) { V::S(11) } else if ((p_ch_1237).i() == o_USCORE()) { V::S(116) } else if ((p_ch_1237).i() == o_PIPE()) { V::S(57) } else { V::S(118) }) }

pub fn o_D_C15(p_o_13267: &V) -> bool { { let l_rows_13270 = Lz::new(|| -> V { o_Rows(p_o_13267) }); let l_po_13275 = Lz::new(|| -> V { o_Places((p_o_13267).f(0)) }); let l_Bangs_13327 = |p_a_13276: &V, p_n_13277: &V| -> bool { ((1i64)..=((((&*l_po_13275)).len() as i64))).map(V::I).any_(|p_t_13282| { let p_t_13282 = &p_t_13282; ((((*((&*l_po_13275)).at((p_t_13282).i()) == *p_a_13276) && ((((p_o_13267).f(0)).at((p_t_13282).i())).f(1)).is_sym(113)) && ((((((p_o_13267).f(0)).at((p_t_13282).i())).f(28)).i() - ((((p_o_13267).f(0)).at((p_t_13282).i())).f(29)).i()) == (p_n_13277).i())) && (((((p_o_13267).f(0)).at((p_t_13282).i())).f(19)).i() == 0)) }) }; let l_OneLine_13368 = |p_r_13328: &V| -> bool { (!((1i64)..=((((&*l_po_13275)).len() as i64))).map(V::I).any_(|p_t_13333| { let p_t_13333 = &p_t_13333; ((((((&*l_po_13275)).at((p_t_13333).i())).i() >= ((p_r_13328).f(6)).i()) && ((((&*l_po_13275)).at((p_t_13333).i())).i() < (((p_r_13328).f(6)).i() + (((p_r_13328).f(36)).len() as i64)))) && ((((((p_o_13267).f(0)).at((p_t_13333).i())).f(1)).is_sym(43) || ((((p_o_13267).f(0)).at((p_t_13333).i())).f(1)).is_sym(59)))) })) };  ((1i64)..=((((&*l_rows_13270)).len() as i64))).map(V::I).all_(|p_i_13373| { let p_i_13373 = &p_i_13373; { let l_r_13377 = Lz::new(|| -> V { ((&*l_rows_13270)).at((p_i_13373).i()).clone() });  (if (((&*l_r_13377)).f(4)).is_sym(52) { ((((&*l_r_13377)).f(14)).is_sym(15) && l_Bangs_13327(((&*l_r_13377)).f(6), (&V::I(2)))) } else if ((((&*l_r_13377)).f(2)).is_sym(3) && (((&*l_r_13377)).f(4)).is_sym(53)) { (l_Bangs_13327(((&*l_r_13377)).f(6), (&V::I(1))) && l_OneLine_13368(((&*l_rows_13270)).at(((p_i_13373).i() + 1i64)))) } else if (((((&*l_r_13377)).f(2)).is_sym(3) && (((&*l_r_13377)).f(4)).is_sym(49)) && (((&*l_r_13377)).f(14)).is_sym(52)) { l_OneLine_13368(((&*l_rows_13270)).at(((p_i_13373).i() + 1i64))) } else if ((((&*l_r_13377)).f(2)).is_sym(30) && (((&*l_r_13377)).f(14)).is_sym(52)) { ((1i64)..=((((&*l_po_13275)).len() as i64))).map(V::I).any_(|p_t_13458| { let p_t_13458 = &p_t_13458; (((*((&*l_po_13275)).at((p_t_13458).i()) == *((&*l_r_13377)).f(6)) && ((((p_o_13267).f(0)).at((p_t_13458).i())).f(1)).is_sym(59)) && ((((((p_o_13267).f(0)).at((p_t_13458).i())).f(27)).i() - ((((p_o_13267).f(0)).at((p_t_13458).i())).f(6)).i()) == ((((&*l_r_13377)).f(36)).len() as i64))) }) } else if ((((&*l_r_13377)).f(14)).is_sym(44) && (((&*l_r_13377)).f(81)).is_sym(52)) { (!((1i64)..=((((&*l_po_13275)).len() as i64))).map(V::I).any_(|p_t_13514| { let p_t_13514 = &p_t_13514; ((((((&*l_po_13275)).at((p_t_13514).i())).i() >= (((&*l_r_13377)).f(6)).i()) && ((((&*l_po_13275)).at((p_t_13514).i())).i() < ((((&*l_r_13377)).f(6)).i() + ((((&*l_r_13377)).f(36)).len() as i64)))) && (((((p_o_13267).f(0)).at((p_t_13514).i())).f(1)).is_sym(59) || l_Bangs_13327(((&*l_po_13275)).at((p_t_13514).i()), (&V::I(2))))) })) } else { true }) } }) } }

pub fn o_X_C15(p_o_13561: &V) -> bool { o_Same(p_o_13561, (&V::S(119))) }

pub fn o_P_C15(p_o_13566: &V) -> bool { (o_X_C15(p_o_13566) && o_D_C15(p_o_13566)) }

pub fn o_LexInit() -> V { thread_local! { static C: V = V::rec(vec![(33, V::B(false)), (56, V::I(0)), (120, V::I(1)), (121, V::I(0)), (122, V::I(0)), (123, V::seq(vec![])), (124, V::seq(vec![])), (125, V::seq(vec![]))]); } C.with(|c| c.clone()) }

pub fn o_D_C26(p_o_17644: &V) -> bool { ((*(p_o_17644).f(24) == *(&o_BuiltDoc((p_o_17644).f(126)))) && (*(&o_Unescaped((p_o_17644).f(125))) == *(&o_PlainDoc((p_o_17644).f(24)))) && ((((p_o_17644).f(127)).len() as i64) == ((((p_o_17644).f(24)).f(26)).len() as i64)) && ((1i64)..=((((p_o_17644).f(127)).len() as i64))).map(V::I).all_(|p_i_17679| { let p_i_17679 = &p_i_17679; (*(&o_Unescaped(((p_o_17644).f(127)).at((p_i_17679).i()))) == *(&o_PlainBlock((((p_o_17644).f(24)).f(26)).at((p_i_17679).i())))) })) }

pub fn o_Push(p_lx_1298: &V, p_t_1299: &V) -> V { { let x72 = { let b73 = p_lx_1298; let b74 = b73.f(125); let n = (b74).cat((p_lx_1298).f(124)); b73.with_f(125, n) }; let x75 = { let b76 = (&x72); let b77 = b76.f(124); let n = V::seq(vec![p_t_1299.clone()]); b76.with_f(124, n) };  x75 } }

pub fn o_P_C26(p_o_17698: &V) -> bool { o_D_C26(p_o_17698) }

pub fn o_ModelBuilt(p_d_17702: &V) -> V { { let l_b_17705 = Lz::new(|| -> V { o_BuiltDoc(p_d_17702) });  V::rec(vec![(24, (*l_b_17705).clone()), (125, o_Show((&*l_b_17705))), (126, p_d_17702.clone()), (127, V::seq(((1i64)..=(((((&*l_b_17705)).f(26)).len() as i64))).map(V::I).map(|p_i_17723| { let p_i_17723 = &p_i_17723; o_ShowBlock((((&*l_b_17705)).f(26)).at((p_i_17723).i())) }).collect()))]) } }

pub fn o_Flush(p_lx_1316: &V) -> V { (if (((p_lx_1316).f(123)).len() == 0) { p_lx_1316.clone() } else { { let l_l_1328 = Lz::new(|| -> V { ((p_lx_1316).f(123)).at(1i64).clone() });  o_Push((&{ let x78 = { let b79 = p_lx_1316; let b80 = b79.f(123); let n = V::seq(vec![]); b79.with_f(123, n) };  x78 }), (&o_Tok((&V::S(34)), ((&*l_l_1328)).f(29), (p_lx_1316).f(56), ((&*l_l_1328)).f(6), (p_lx_1316).f(120), ((&*l_l_1328)).f(19), ((&*l_l_1328)).f(117), ((&*l_l_1328)).f(35)))) } }) }

pub fn o_RunEnd(p_src_1367: &V, p_i_1368: &V, p_ch_1369: &V) -> V { let mut st = (p_src_1367.clone(), p_i_1368.clone(), p_ch_1369.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_src_1367, p_i_1368, p_ch_1369,) = &st; (if (*(&o_At(p_src_1367, p_i_1368)) == *p_ch_1369) { Err((p_src_1367.clone(), V::I(((p_i_1368).i() + 1i64)), p_ch_1369.clone(),)) } else { Ok(p_i_1368.clone()) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Settled(p_o_13573: &V, p_rows_13574: &V, p_po_13575: &V, p_k_13576: &V, p_e_13577: &V) -> bool { ((1i64)..=((((p_o_13573).f(0)).len() as i64))).map(V::I).all_(|p_t_13584| { let p_t_13584 = &p_t_13584; (!((*(((p_o_13573).f(0)).at((p_t_13584).i())).f(1) == *p_k_13576) && (((((p_o_13573).f(0)).at((p_t_13584).i())).f(19)).i() == 0)) || ((1i64)..=(((p_rows_13574).len() as i64))).map(V::I).any_(|p_i_13608| { let p_i_13608 = &p_i_13608; ((((*((p_rows_13574).at((p_i_13608).i())).f(2) == *p_e_13577) && (((p_rows_13574).at((p_i_13608).i())).f(4)).is_sym(54)) && (*((p_rows_13574).at((p_i_13608).i())).f(6) == *(p_po_13575).at((p_t_13584).i()))) || ((((((p_rows_13574).at((p_i_13608).i())).f(2)).is_sym(30) && (((((p_rows_13574).at((p_i_13608).i())).f(14)).is_sym(48) || (((p_rows_13574).at((p_i_13608).i())).f(14)).is_sym(21)))) && (((p_po_13575).at((p_t_13584).i())).i() >= (((p_rows_13574).at((p_i_13608).i())).f(6)).i())) && (((p_po_13575).at((p_t_13584).i())).i() < ((((p_rows_13574).at((p_i_13608).i())).f(6)).i() + ((((p_rows_13574).at((p_i_13608).i())).f(36)).len() as i64))))) })) }) }

pub fn o_AllClosed(p_o_13683: &V, p_rows_13684: &V, p_po_13685: &V) -> bool { o_Settled(p_o_13683, p_rows_13684, p_po_13685, (&V::S(41)), (&V::S(3))) }

pub fn o_Shifted(p_t_17735: &V, p_at_17736: &V, p_by_17737: &V, p_c_17738: &V, p_r_17739: &V) -> V { { let x81 = { let b82 = p_t_17735; let b83 = b82.f(6); let n = V::I(((b83).i() + (p_at_17736).i())); b82.with_f(6, n) }; let x84 = { let b85 = (&x81); let b86 = b85.f(27); let n = V::I(((b86).i() + (p_at_17736).i())); b85.with_f(27, n) }; let x87 = { let b88 = (&x84); let b89 = b88.f(29); let n = V::I(((b89).i() + (p_by_17737).i())); b88.with_f(29, n) }; let x90 = { let b91 = (&x87); let b92 = b91.f(28); let n = V::I(((b92).i() + (p_by_17737).i())); b91.with_f(28, n) }; let x93 = { let b94 = (&x90); let b95 = b94.f(56); let n = V::I(((b95).i() + (p_by_17737).i())); b94.with_f(56, n) }; let x96 = { let b97 = (&x93); let b98 = b97.f(19); let n = (if (((p_t_17735).f(117)).i() == 0) { V::I(((b98).i() + (p_c_17738).i())) } else { b98.clone() }); b97.with_f(19, n) }; let x99 = { let b100 = (&x96); let b101 = b100.f(117); let n = V::I(((b101).i() + (p_r_17739).i())); b100.with_f(117, n) };  x99 } }

pub fn o_LineBreakLen(p_src_1383: &V, p_i_1384: &V) -> i64 { (if ((o_At(p_src_1383, p_i_1384)).i() == o_LF()) { 1i64 } else { (if (((o_At(p_src_1383, p_i_1384)).i() == o_CR()) && ((o_At(p_src_1383, (&V::I(((p_i_1384).i() + 1i64))))).i() == o_LF())) { 2i64 } else { 0i64 }) }) }

pub fn o_KindOk(p_o_9291: &V, p_esc_9292: &V, p_i_9293: &V) -> bool { { let l_t_9299 = Lz::new(|| -> V { ((p_o_9291).f(0)).at((p_i_9293).i()).clone() }); let l_n_9307 = Lz::new(|| -> i64 { ((((&*l_t_9299)).f(27)).i() - (((&*l_t_9299)).f(6)).i()) }); let l_next_9330 = Lz::new(|| -> bool { ((((p_i_9293).i() + 1i64) <= (((p_o_9291).f(0)).len() as i64)) && (*(((p_o_9291).f(0)).at(((p_i_9293).i() + 1i64))).f(6) == *((&*l_t_9299)).f(27))) });  (if (((&*l_t_9299)).f(1)).is_sym(34) { ((((((&*l_t_9299)).f(6)).i())..=(((((&*l_t_9299)).f(27)).i() - 1i64))).map(V::I).all_(|p_j_9345| { let p_j_9345 = &p_j_9345; (((*p_j_9345 == *((&*l_t_9299)).f(6)) && ((p_esc_9292).at((p_j_9345).i())).b()) || ((!((p_esc_9292).at((p_j_9345).i())).b()) && (!o_MarkAt((p_o_9291).f(23), p_j_9345)))) }) && (!(!((p_esc_9292).at((((&*l_t_9299)).f(6)).i())).b()) || (!((((p_o_9291).f(23)).at((((&*l_t_9299)).f(6)).i())).i() == o_SP()))) && (!(*l_next_9330) || (!((((p_o_9291).f(0)).at(((p_i_9293).i() + 1i64))).f(1)).is_sym(34)))) } else { ((!((p_esc_9292).at((((&*l_t_9299)).f(6)).i())).b()) && (if (!(o_RunChar(((&*l_t_9299)).f(1)) == 0)) { ((((((&*l_t_9299)).f(6)).i())..=(((((&*l_t_9299)).f(27)).i() - 1i64))).map(V::I).all_(|p_j_9420| { let p_j_9420 = &p_j_9420; ((((p_o_9291).f(23)).at((p_j_9420).i())).i() == o_RunChar(((&*l_t_9299)).f(1))) }) && (!o_IsPair((p_o_9291).f(23), ((&*l_t_9299)).f(6))) && (!((o_At((p_o_9291).f(23), ((&*l_t_9299)).f(27))).i() == o_RunChar(((&*l_t_9299)).f(1))))) } else if (!(o_SingleChar(((&*l_t_9299)).f(1)) == 0)) { (((*l_n_9307) == 1) && ((((p_o_9291).f(23)).at((((&*l_t_9299)).f(6)).i())).i() == o_SingleChar(((&*l_t_9299)).f(1)))) } else if (((&*l_t_9299)).f(1)).is_sym(41) { ((((*l_n_9307) == 2) && ((((p_o_9291).f(23)).at((((&*l_t_9299)).f(6)).i())).i() == o_LBRACE())) && ((((p_o_9291).f(23)).at(((((&*l_t_9299)).f(6)).i() + 1i64))).i() == o_PCT())) } else if (((&*l_t_9299)).f(1)).is_sym(55) { ((((*l_n_9307) == 2) && ((((p_o_9291).f(23)).at((((&*l_t_9299)).f(6)).i())).i() == o_PCT())) && ((((p_o_9291).f(23)).at(((((&*l_t_9299)).f(6)).i() + 1i64))).i() == o_RBRACE())) } else if (((&*l_t_9299)).f(1)).is_sym(43) { (((*l_n_9307) == o_LineBreakLen((p_o_9291).f(23), ((&*l_t_9299)).f(6))) && (!(*l_next_9330) || (!(((((p_o_9291).f(0)).at(((p_i_9293).i() + 1i64))).f(1)).is_sym(43) || ((((p_o_9291).f(0)).at(((p_i_9293).i() + 1i64))).f(1)).is_sym(59))))) } else if (((&*l_t_9299)).f(1)).is_sym(59) { { let l_w_9582 = Lz::new(|| -> i64 { o_LineBreakLen((p_o_9291).f(23), ((&*l_t_9299)).f(6)) });  ((((*l_w_9582) > 0i64) && ((*l_n_9307) > (*l_w_9582))) && ((*l_n_9307) == ((*l_w_9582) + o_LineBreakLen((p_o_9291).f(23), (&V::I(((((&*l_t_9299)).f(6)).i() + (*l_w_9582)))))))) } } else { false })) }) } }

pub fn o_HasKind(p_tk_13693: &V, p_k_13694: &V) -> bool { ((1i64)..=(((p_tk_13693).len() as i64))).map(V::I).any_(|p_i_13699| { let p_i_13699 = &p_i_13699; (*((p_tk_13693).at((p_i_13699).i())).f(1) == *p_k_13694) }) }

pub fn o_Breaks(p_k_17792: &V) -> i64 { (if (p_k_17792).is_sym(43) { 1i64 } else if (p_k_17792).is_sym(59) { 2i64 } else { 0i64 }) }

pub fn o_D_C07(p_o_9613: &V) -> bool { { let l_esc_9618 = Lz::new(|| -> V { o_Escaped((p_o_9613).f(23)) });  ((1i64)..=((((p_o_9613).f(0)).len() as i64))).map(V::I).all_(|p_i_9625| { let p_i_9625 = &p_i_9625; (o_ValidRange((p_o_9613).f(23), ((p_o_9613).f(0)).at((p_i_9625).i())) && o_KindOk(p_o_9613, (&*l_esc_9618), p_i_9625)) }) } }

pub fn o_Closed(p_src_13709: &V) -> bool { { let l_tk_13712 = Lz::new(|| -> V { o_Lex(p_src_13709) }); let l_o_13725 = Lz::new(|| -> V { V::rec(vec![(0, (*l_tk_13712).clone()), (17, o_ParseTokens(p_src_13709, (&*l_tk_13712))), (23, p_src_13709.clone())]) });  (!(o_HasKind((&*l_tk_13712), (&V::S(41))) || o_HasKind((&*l_tk_13712), (&V::S(55)))) || { let l_rows_13735 = Lz::new(|| -> V { o_Rows((&*l_o_13725)) }); let l_po_13738 = Lz::new(|| -> V { o_Places((&*l_tk_13712)) });  (o_AllClosed((&*l_o_13725), (&*l_rows_13735), (&*l_po_13738)) && o_Settled((&*l_o_13725), (&*l_rows_13735), (&*l_po_13738), (&V::S(55)), (&V::S(12)))) }) } }

pub fn o_Rest(p_t_17807: &V, p_q_17808: &V) -> V { { let l_c_17828 = Lz::new(|| -> i64 { (if (o_Breaks((p_t_17807).f(1)) > 0i64) { 0i64 } else { (((p_t_17807).f(19)).i() + (((p_t_17807).f(27)).i() - ((p_t_17807).f(6)).i())) }) }); let l_r_17837 = Lz::new(|| -> i64 { (((p_t_17807).f(117)).i() + o_Breaks((p_t_17807).f(1))) });  V::seq(((1i64)..=(((p_q_17808).len() as i64))).map(V::I).map(|p_j_17842| { let p_j_17842 = &p_j_17842; o_Shifted((p_q_17808).at((p_j_17842).i()), (&V::I((((p_t_17807).f(27)).i() - 1i64))), (p_t_17807).f(28), (&V::I((*l_c_17828))), (&V::I((*l_r_17837)))) }).collect()) } }

pub fn o_X_C07(p_o_9643: &V) -> bool { (*(&V::seq(((1i64)..=((((p_o_9643).f(0)).len() as i64))).map(V::I).map(|p_i_9650| { let p_i_9650 = &p_i_9650; V::seq(vec![(((p_o_9643).f(0)).at((p_i_9650).i())).f(1).clone(), (((p_o_9643).f(0)).at((p_i_9650).i())).f(6).clone(), (((p_o_9643).f(0)).at((p_i_9650).i())).f(27).clone()]) }).collect())) == *(&{ let l_m_9678 = Lz::new(|| -> V { o_Lex((p_o_9643).f(23)) });  V::seq(((1i64)..=((((&*l_m_9678)).len() as i64))).map(V::I).map(|p_i_9683| { let p_i_9683 = &p_i_9683; V::seq(vec![(((&*l_m_9678)).at((p_i_9683).i())).f(1).clone(), (((&*l_m_9678)).at((p_i_9683).i())).f(6).clone(), (((&*l_m_9678)).at((p_i_9683).i())).f(27).clone()]) }).collect()) })) }

pub fn o_P_C07(p_o_9704: &V) -> bool { (o_D_C07(p_o_9704) && o_X_C07(p_o_9704)) }

pub fn o_LexLineBreak(p_src_1409: &V, p_lx_1410: &V) -> V { { let l_w_1416 = Lz::new(|| -> i64 { o_LineBreakLen(p_src_1409, (p_lx_1410).f(120)) }); let l_f_1419 = Lz::new(|| -> V { o_Flush(p_lx_1410) }); let l_t_1445 = Lz::new(|| -> V { o_Tok((&V::S(43)), ((&*l_f_1419)).f(56), (&V::I(((((&*l_f_1419)).f(56)).i() + (*l_w_1416)))), ((&*l_f_1419)).f(120), (&V::I(((((&*l_f_1419)).f(120)).i() + (*l_w_1416)))), ((&*l_f_1419)).f(122), ((&*l_f_1419)).f(121), (&V::B(false))) }); let l_g_1493 = Lz::new(|| -> V { (if ((!((((&*l_f_1419)).f(124)).len() == 0)) && (((((&*l_f_1419)).f(124)).at(1i64)).f(1)).is_sym(43)) { { let x102 = { let b103 = (&*l_f_1419); let b104 = b103.f(124); let n = V::seq(vec![{ let x105 = { let b106 = (((&*l_f_1419)).f(124)).at(1i64); let b107 = b106.f(1); let n = V::S(59); b106.with_f(1, n) }; let x108 = { let b109 = (&x105); let b110 = b109.f(28); let n = ((&*l_t_1445)).f(28).clone(); b109.with_f(28, n) }; let x111 = { let b112 = (&x108); let b113 = b112.f(27); let n = ((&*l_t_1445)).f(27).clone(); b112.with_f(27, n) };  x111 }]); b103.with_f(124, n) };  x102 } } else { o_Push((&*l_f_1419), (&*l_t_1445)) }) });  { let x114 = { let b115 = (&*l_g_1493); let b116 = b115.f(120); let n = V::I(((b116).i() + (*l_w_1416))); b115.with_f(120, n) }; let x117 = { let b118 = (&x114); let b119 = b118.f(56); let n = V::I(((b119).i() + (*l_w_1416))); b118.with_f(56, n) }; let x120 = { let b121 = (&x117); let b122 = b121.f(121); let n = V::I(((b122).i() + 1i64)); b121.with_f(121, n) }; let x123 = { let b124 = (&x120); let b125 = b124.f(122); let n = V::I(0); b124.with_f(122, n) };  x123 } } }

pub fn o_PosFrom(p_src_9718: &V, p_i_9719: &V, p_row_9720: &V, p_col_9721: &V, p_acc_9722: &V) -> V { let mut st = (p_src_9718.clone(), p_i_9719.clone(), p_row_9720.clone(), p_col_9721.clone(), p_acc_9722.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_src_9718, p_i_9719, p_row_9720, p_col_9721, p_acc_9722,) = &st; (if ((p_i_9719).i() > ((p_src_9718).len() as i64)) { Ok(p_acc_9722.clone()) } else { (if (((p_src_9718).at((p_i_9719).i())).i() == o_BSL()) { (if ((p_i_9719).i() < ((p_src_9718).len() as i64)) { Err((p_src_9718.clone(), V::I(((p_i_9719).i() + 2i64)), p_row_9720.clone(), V::I(((p_col_9721).i() + 1i64)), (p_acc_9722).cat((&V::seq(vec![V::seq(vec![p_row_9720.clone(), p_col_9721.clone()]), V::seq(vec![p_row_9720.clone(), p_col_9721.clone()])]))),)) } else { Ok((p_acc_9722).push(V::seq(vec![p_row_9720.clone(), p_col_9721.clone()]))) }) } else { (if (o_LineBreakLen(p_src_9718, p_i_9719) == 2) { Err((p_src_9718.clone(), V::I(((p_i_9719).i() + 2i64)), V::I(((p_row_9720).i() + 1i64)), V::I(0), (p_acc_9722).cat((&V::seq(vec![V::seq(vec![p_row_9720.clone(), p_col_9721.clone()]), V::seq(vec![p_row_9720.clone(), p_col_9721.clone()])]))),)) } else { (if (o_LineBreakLen(p_src_9718, p_i_9719) == 1) { Err((p_src_9718.clone(), V::I(((p_i_9719).i() + 1i64)), V::I(((p_row_9720).i() + 1i64)), V::I(0), (p_acc_9722).push(V::seq(vec![p_row_9720.clone(), p_col_9721.clone()])),)) } else { Err((p_src_9718.clone(), V::I(((p_i_9719).i() + 1i64)), p_row_9720.clone(), V::I(((p_col_9721).i() + 1i64)), (p_acc_9722).push(V::seq(vec![p_row_9720.clone(), p_col_9721.clone()])),)) }) }) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_D_C27(p_o_17860: &V) -> bool { ((1i64)..=((((p_o_17860).f(128)).len() as i64))).map(V::I).all_(|p_j_17867| { let p_j_17867 = &p_j_17867; { let l_i_17875 = Lz::new(|| -> V { (((p_o_17860).f(128)).at((p_j_17867).i())).f(120).clone() });  ((*(((p_o_17860).f(128)).at((p_j_17867).i())).f(129) == *(&((p_o_17860).f(0)).sub(1i64, ((*l_i_17875).clone()).i()))) && (*(&o_Rest(((p_o_17860).f(0)).at(((*l_i_17875).clone()).i()), (((p_o_17860).f(128)).at((p_j_17867).i())).f(117))) == *(&((p_o_17860).f(0)).sub((((*l_i_17875).clone()).i() + 1i64), (((p_o_17860).f(0)).len() as i64))))) } }) }

pub fn o_P_C27(p_o_17919: &V) -> bool { o_D_C27(p_o_17919) }

pub fn o_LexMarker(p_lx_1520: &V, p_k_1521: &V, p_w_1522: &V) -> V { { let l_f_1525 = Lz::new(|| -> V { o_Flush(p_lx_1520) });  { let x126 = { let b127 = (&o_Push((&*l_f_1525), (&o_Tok(p_k_1521, ((&*l_f_1525)).f(56), (&V::I(((((&*l_f_1525)).f(56)).i() + (p_w_1522).i()))), ((&*l_f_1525)).f(120), (&V::I(((((&*l_f_1525)).f(120)).i() + (p_w_1522).i()))), ((&*l_f_1525)).f(122), ((&*l_f_1525)).f(121), (&V::B(false)))))); let b128 = b127.f(120); let n = V::I(((b128).i() + (p_w_1522).i())); b127.with_f(120, n) }; let x129 = { let b130 = (&x126); let b131 = b130.f(56); let n = V::I(((b131).i() + (p_w_1522).i())); b130.with_f(56, n) }; let x132 = { let b133 = (&x129); let b134 = b133.f(122); let n = V::I(((b134).i() + (p_w_1522).i())); b133.with_f(122, n) };  x132 } } }

pub fn o_ModelCuts(p_src_17923: &V, p_tk_17924: &V) -> V { V::rec(vec![(0, p_tk_17924.clone()), (23, p_src_17923.clone()), (128, V::seq(((1i64)..=(((p_tk_17924).len() as i64))).map(V::I).map(|p_i_17936| { let p_i_17936 = &p_i_17936; V::rec(vec![(117, o_Lex((&(p_src_17923).sub((((p_tk_17924).at((p_i_17936).i())).f(27)).i(), ((p_src_17923).len() as i64))))), (120, p_i_17936.clone()), (129, o_Lex((&(p_src_17923).sub(1i64, ((((p_tk_17924).at((p_i_17936).i())).f(27)).i() - 1i64)))))]) }).collect()))]) }

pub fn o_MovedEv(p_e_17970: &V, p_by_17971: &V) -> V { (if ((((p_e_17970).f(35)).f(39)).b() || ((((p_e_17970).f(35)).f(36)).len() == 0)) { p_e_17970.clone() } else { { let x135 = { let b136 = p_e_17970; let b137 = b136.f(35); let n = { let x138 = { let b139 = b137; let b140 = b139.f(29); let n = V::I(((b140).i() + (p_by_17971).i())); b139.with_f(29, n) }; let x141 = { let b142 = (&x138); let b143 = b142.f(28); let n = V::I(((b143).i() + (p_by_17971).i())); b142.with_f(28, n) };  x141 }; b136.with_f(35, n) };  x135 } }) }

pub fn o_LexEscape(p_src_1574: &V, p_lx_1575: &V) -> V { { let l_f_1578 = Lz::new(|| -> V { o_Flush(p_lx_1575) });  (if ((((&*l_f_1578)).f(120)).i() < ((p_src_1574).len() as i64)) { { let x144 = { let b145 = (&*l_f_1578); let b146 = b145.f(123); let n = V::seq(vec![V::rec(vec![(6, V::I(((((&*l_f_1578)).f(120)).i() + 1i64))), (19, ((&*l_f_1578)).f(122).clone()), (29, V::I(((((&*l_f_1578)).f(56)).i() + 1i64))), (35, V::B(true)), (117, ((&*l_f_1578)).f(121).clone())])]); b145.with_f(123, n) }; let x147 = { let b148 = (&x144); let b149 = b148.f(120); let n = V::I(((b149).i() + 2i64)); b148.with_f(120, n) }; let x150 = { let b151 = (&x147); let b152 = b151.f(56); let n = V::I((((b152).i() + 1i64) + o_U8((p_src_1574).at(((((&*l_f_1578)).f(120)).i() + 1i64))))); b151.with_f(56, n) }; let x153 = { let b154 = (&x150); let b155 = b154.f(122); let n = V::I(((b155).i() + 1i64)); b154.with_f(122, n) };  x153 } } else { { let x156 = { let b157 = (&*l_f_1578); let b158 = b157.f(120); let n = V::I(((b158).i() + 1i64)); b157.with_f(120, n) }; let x159 = { let b160 = (&x156); let b161 = b160.f(56); let n = V::I(((b161).i() + 1i64)); b160.with_f(56, n) };  x159 } }) } }

pub fn o_D_C08(p_o_9821: &V) -> bool { { let l_pos_9830 = Lz::new(|| -> V { o_PosFrom((p_o_9821).f(23), (&V::I(1)), (&V::I(0)), (&V::I(0)), (&V::seq(vec![]))) });  ((1i64)..=((((p_o_9821).f(0)).len() as i64))).map(V::I).all_(|p_i_9837| { let p_i_9837 = &p_i_9837; { let l_t_9843 = Lz::new(|| -> V { ((p_o_9821).f(0)).at((p_i_9837).i()).clone() });  (!o_ValidRange((p_o_9821).f(23), (&*l_t_9843)) || ((*((&*l_t_9843)).f(56) == *((&*l_t_9843)).f(29)) && (*(&V::seq(vec![((&*l_t_9843)).f(117).clone(), ((&*l_t_9843)).f(19).clone()])) == *((&*l_pos_9830)).at((((&*l_t_9843)).f(6)).i())))) } }) } }

pub fn o_D_C16(p_o_13754: &V) -> bool { { let l_rows_13757 = Lz::new(|| -> V { o_Rows(p_o_13754) }); let l_kept_13762 = Lz::new(|| -> V { o_Kept((p_o_13754).f(23)) }); let l_From_13806 = |p_a_13763: &V| -> V { (if ((p_a_13763).i() < (((&*l_kept_13762)).len() as i64)) { (if (((((&*l_kept_13762)).at(((p_a_13763).i() + 1i64))).i() > 1i64) && (((&o_Escaped((p_o_13754).f(23)))).at((((&*l_kept_13762)).at(((p_a_13763).i() + 1i64))).i())).b()) { V::I(((((&*l_kept_13762)).at(((p_a_13763).i() + 1i64))).i() - 1i64)) } else { ((&*l_kept_13762)).at(((p_a_13763).i() + 1i64)).clone() }) } else { V::I(((((p_o_13754).f(23)).len() as i64) + 1i64)) }) };  (((1i64)..=((((&*l_rows_13757)).len() as i64))).map(V::I).all_(|p_i_13811| { let p_i_13811 = &p_i_13811; (!((((&*l_rows_13757)).at((p_i_13811).i())).f(4)).is_sym(54) || (((((&*l_rows_13757)).at((p_i_13811).i())).f(14)).is_sym(15) && (!((((&*l_rows_13757)).at((p_i_13811).i())).f(2)).is_sym(3) || o_StartsWith((((&*l_rows_13757)).at((p_i_13811).i())).f(36), (&V::seq(vec![V::I(o_LBRACE()), V::I(o_PCT())])))) && (!((((&*l_rows_13757)).at((p_i_13811).i())).f(2)).is_sym(12) || o_StartsWith((((&*l_rows_13757)).at((p_i_13811).i())).f(36), (&V::seq(vec![V::I(o_PCT()), V::I(o_RBRACE())])))))) }) && (!(o_HasKind((p_o_13754).f(0), (&V::S(41))) && o_AllClosed(p_o_13754, (&*l_rows_13757), (&o_Places((p_o_13754).f(0))))) || ((1i64)..=((((&*l_rows_13757)).len() as i64))).map(V::I).all_(|p_i_13880| { let p_i_13880 = &p_i_13880; (!((((((&*l_rows_13757)).at((p_i_13880).i())).f(2)).is_sym(3) && ((((&*l_rows_13757)).at((p_i_13880).i())).f(4)).is_sym(15)) && ((((&*l_rows_13757)).at((p_i_13880).i())).f(14)).is_sym(54)) || { let l_z_13910 = Lz::new(|| -> V { o_CloseOf((p_o_13754).f(17), p_i_13880, (&V::I(0))) }); let l_body_13929 = Lz::new(|| -> V { ((p_o_13754).f(23)).sub((l_From_13806((((&*l_rows_13757)).at((p_i_13880).i())).f(6))).i(), ((l_From_13806((((&*l_rows_13757)).at(((*l_z_13910).clone()).i())).f(6))).i() - 1i64)) }); let l_me_13941 = Lz::new(|| -> V { o_DenoteAll((p_o_13754).f(17), (&o_KidsOf((p_o_13754).f(17), p_i_13880, (&o_BlockKinds()))), (&V::I(0))) });  (!((o_Grammatical((p_o_13754).f(17)) && (!o_StartsWith((&*l_body_13929), (&V::seq(vec![V::I(o_DASH()), V::I(o_DASH()), V::I(o_DASH())]))))) && o_Closed((&*l_body_13929))) || (*((&o_Tree((&*l_body_13929)))).f(26) == *(&*l_me_13941))) }) }))) } }

pub fn o_JoinedEv(p_a_18007: &V, p_ea_18008: &V, p_eb_18009: &V) -> V { { let l_n_18012 = Lz::new(|| -> V { o_U8Len(p_a_18007) }); let l_t_18037 = Lz::new(|| -> V { V::rec(vec![(2, V::S(30)), (4, V::S(118)), (35, V::rec(vec![(28, V::I((((*l_n_18012).clone()).i() + 2i64))), (29, (*l_n_18012).clone()), (36, o_LF2()), (39, V::B(false))]))]) });  ((&((&(p_ea_18008).sub(1i64, (((p_ea_18008).len() as i64) - 1i64)))).cat((&V::seq(vec![(*l_t_18037).clone()]))))).cat((&V::seq(((1i64)..=((((p_eb_18009).len() as i64) - 1i64))).map(V::I).map(|p_j_18054| { let p_j_18054 = &p_j_18054; o_MovedEv((p_eb_18009).at(((p_j_18054).i() + 1i64)), (&V::I((((*l_n_18012).clone()).i() + 2i64)))) }).collect()))) } }

pub fn o_P_C08(p_o_9875: &V) -> bool { o_D_C08(p_o_9875) }

pub fn o_AltFrom(p_src_9884: &V, p_i_9885: &V, p_acc_9886: &V) -> V { let mut st = (p_src_9884.clone(), p_i_9885.clone(), p_acc_9886.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_src_9884, p_i_9885, p_acc_9886,) = &st; (if ((p_i_9885).i() > ((p_src_9884).len() as i64)) { Ok(p_acc_9886.clone()) } else { (if ((((p_src_9884).at((p_i_9885).i())).i() == o_BSL()) && ((p_i_9885).i() < ((p_src_9884).len() as i64))) { Err((p_src_9884.clone(), V::I(((p_i_9885).i() + 2i64)), (p_acc_9886).cat((&V::seq(vec![V::I(o_BSL()), V::I(120)]))),)) } else { Err((p_src_9884.clone(), V::I(((p_i_9885).i() + 1i64)), (p_acc_9886).push((p_src_9884).at((p_i_9885).i()).clone()),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_D_C28(p_o_18068: &V) -> bool { (!o_C22Premise(p_o_18068) || (*(p_o_18068).f(130) == *(&o_JoinedEv((p_o_18068).f(6), (p_o_18068).f(131), (p_o_18068).f(132))))) }

pub fn o_X_C16(p_o_13971: &V) -> bool { (o_Same(p_o_13971, (&V::S(133))) && (!o_HasKind((p_o_13971).f(0), (&V::S(41))) || (*(&o_View(p_o_13971, (&V::S(134)))) == *(&o_View((&o_Model((p_o_13971).f(23))), (&V::S(134))))))) }

pub fn o_P_C28(p_o_18087: &V) -> bool { o_D_C28(p_o_18087) }

pub fn o_X1() -> V { thread_local! { static C: V = V::seq(vec![V::I(120)]); } C.with(|c| c.clone()) }

pub fn o_P_C16(p_o_13993: &V) -> bool { (o_X_C16(p_o_13993) && o_D_C16(p_o_13993)) }

pub fn o_PlacesOfLines() -> i64 { 12i64 }

pub fn o_LexOrdinary(p_src_1663: &V, p_lx_1664: &V) -> V { { let x162 = { let b163 = p_lx_1664; let b164 = b163.f(123); let n = (if ((b164).len() == 0) { V::seq(vec![V::rec(vec![(6, (p_lx_1664).f(120).clone()), (19, (p_lx_1664).f(122).clone()), (29, (p_lx_1664).f(56).clone()), (35, V::B(false)), (117, (p_lx_1664).f(121).clone())])]) } else { b164.clone() }); b163.with_f(123, n) }; let x165 = { let b166 = (&x162); let b167 = b166.f(120); let n = V::I(((b167).i() + 1i64)); b166.with_f(120, n) }; let x168 = { let b169 = (&x165); let b170 = b169.f(56); let n = V::I(((b170).i() + o_U8((p_src_1663).at(((p_lx_1664).f(120)).i())))); b169.with_f(56, n) }; let x171 = { let b172 = (&x168); let b173 = b172.f(122); let n = V::I(((b173).i() + 1i64)); b172.with_f(122, n) };  x171 } }

pub fn o_AltSrc(p_src_9924: &V) -> V { o_AltFrom(p_src_9924, (&V::I(1)), (&V::seq(vec![]))) }

pub fn o_Fold(p_f_5335: &V, p_p_5336: &V) -> V { (if ((p_f_5335).f(40)).is_sym(15) { (if ((p_p_5336).f(40)).is_sym(54) { { let x174 = { let b175 = p_p_5336; let b176 = b175.f(26); let n = (p_f_5335).f(26).clone(); b175.with_f(26, n) };  x174 } } else { (if ((p_p_5336).f(40)).is_sym(106) { { let x177 = { let b178 = p_p_5336; let b179 = b178.f(26); let n = (b179).cat((p_f_5335).f(26)); b178.with_f(26, n) };  x177 } } else { p_p_5336.clone() }) }) } else if ((p_f_5335).f(40)).is_sym(21) { (if ((p_p_5336).f(40)).is_sym(106) { { let x180 = { let b181 = p_p_5336; let b182 = b181.f(104); let n = V::seq(vec![o_Trim((p_f_5335).f(102))]); b181.with_f(104, n) };  x180 } } else { p_p_5336.clone() }) } else if ((p_f_5335).f(40)).is_sym(46) { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_HeadNode((p_f_5335).f(101), (p_f_5335).f(26)))) } else if ((p_f_5335).f(40)).is_sym(44) { (if ((p_p_5336).f(40)).is_sym(52) { o_AddTo(p_p_5336, (&o_ParaNode((&o_TrimLastText((p_f_5335).f(26)))))) } else { (if ((p_p_5336).f(40)).is_sym(20) { { let x183 = { let b184 = p_p_5336; let b185 = b184.f(26); let n = o_TrimLastText((p_f_5335).f(26)); b184.with_f(26, n) };  x183 } } else { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_ParaNode((p_f_5335).f(26)))) }) }) } else if ((p_f_5335).f(40)).is_sym(45) { o_AddIf(p_p_5336, (&V::set(vec![V::S(44)])), (&o_BoldNode((p_f_5335).f(26)))) } else if ((((p_f_5335).f(40)).is_sym(72) || ((p_f_5335).f(40)).is_sym(73))) { o_AddIf(p_p_5336, (&V::set(vec![V::S(44), V::S(45)])), (&o_LeafNode((p_f_5335).f(40), (p_f_5335).f(102)))) } else if ((((p_f_5335).f(40)).is_sym(90) || ((p_f_5335).f(40)).is_sym(91))) { o_AddIf(p_p_5336, (&V::set(vec![V::S(44)])), (&o_LeafNode((p_f_5335).f(40), (p_f_5335).f(102)))) } else if ((p_f_5335).f(40)).is_sym(5) { (if ((((p_p_5336).f(40)).is_sym(47) || ((p_p_5336).f(40)).is_sym(13))) { { let x186 = { let b187 = p_p_5336; let b188 = b187.f(102); let n = (p_f_5335).f(102).clone(); b187.with_f(102, n) };  x186 } } else { p_p_5336.clone() }) } else if ((p_f_5335).f(40)).is_sym(10) { (if ((((p_p_5336).f(40)).is_sym(47) || ((p_p_5336).f(40)).is_sym(13))) { { let x189 = { let b190 = p_p_5336; let b191 = b190.f(103); let n = (p_f_5335).f(102).clone(); b190.with_f(103, n) };  x189 } } else { p_p_5336.clone() }) } else if ((p_f_5335).f(40)).is_sym(47) { o_AddIf(p_p_5336, (&V::set(vec![V::S(44), V::S(46)])), (&o_AnchorNode((p_f_5335).f(102), (p_f_5335).f(103)))) } else if ((p_f_5335).f(40)).is_sym(13) { o_AddIf(p_p_5336, (&V::set(vec![V::S(16), V::S(15)])), (&o_ImageNode((p_f_5335).f(102), (p_f_5335).f(103)))) } else if ((p_f_5335).f(40)).is_sym(16) { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_ImagesNode((p_f_5335).f(26)))) } else if ((p_f_5335).f(40)).is_sym(48) { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_CodeNode((p_f_5335).f(103), (&o_TrimEnd((p_f_5335).f(102)))))) } else if ((p_f_5335).f(40)).is_sym(49) { (if ((p_p_5336).f(40)).is_sym(48) { { let x192 = { let b193 = p_p_5336; let b194 = b193.f(103); let n = (p_f_5335).f(102).clone(); b193.with_f(103, n) };  x192 } } else { (if ((p_p_5336).f(40)).is_sym(52) { { let x195 = { let b196 = p_p_5336; let b197 = b196.f(104); let n = V::seq(vec![(p_f_5335).f(102).clone()]); b196.with_f(104, n) };  x195 } } else { (if ((p_p_5336).f(40)).is_sym(54) { { let x198 = { let b199 = p_p_5336; let b200 = b199.f(102); let n = (p_f_5335).f(102).clone(); b199.with_f(102, n) };  x198 } } else { p_p_5336.clone() }) }) }) } else if ((p_f_5335).f(40)).is_sym(53) { (if ((p_p_5336).f(40)).is_sym(52) { { let x201 = { let b202 = p_p_5336; let b203 = b202.f(105); let n = V::seq(vec![(p_f_5335).f(102).clone()]); b202.with_f(105, n) };  x201 } } else { p_p_5336.clone() }) } else if ((p_f_5335).f(40)).is_sym(50) { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_EmbedNode((&(if ((((p_f_5335).f(26)).len() as i64) >= 1i64) { ((p_f_5335).f(26)).at(1i64).clone() } else { V::seq(vec![]) })), (&(if ((((p_f_5335).f(26)).len() as i64) >= 3i64) { ((p_f_5335).f(26)).at(3i64).clone() } else { V::seq(vec![]) }))))) } else if ((p_f_5335).f(40)).is_sym(51) { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_BreakNode())) } else if ((p_f_5335).f(40)).is_sym(52) { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_HighNode((p_f_5335).f(104), (p_f_5335).f(105), (p_f_5335).f(26)))) } else if ((p_f_5335).f(40)).is_sym(54) { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&o_CollNode((p_f_5335).f(102), (p_f_5335).f(26)))) } else if ((((p_f_5335).f(40)).is_sym(115) || ((p_f_5335).f(40)).is_sym(87))) { { let l_l_5797 = Lz::new(|| -> V { o_ListNode((p_f_5335).f(40), (p_f_5335).f(101), (p_f_5335).f(26)) });  (if ((p_p_5336).f(40)).is_sym(20) { { let x204 = { let b205 = p_p_5336; let b206 = b205.f(104); let n = V::seq(vec![(*l_l_5797).clone()]); b205.with_f(104, n) };  x204 } } else { o_AddIf(p_p_5336, (&V::set(vec![V::S(15)])), (&*l_l_5797)) }) } } else if ((p_f_5335).f(40)).is_sym(20) { o_AddIf(p_p_5336, (&V::set(vec![V::S(115), V::S(87)])), (&o_ItemNode((p_f_5335).f(26), (p_f_5335).f(104)))) } else { p_p_5336.clone() }) }

pub fn o_MetaMark(p_tk_14000: &V, p_i_14001: &V) -> bool { (((((p_tk_14000).at((p_i_14001).i())).f(1)).is_sym(32) && (((((p_tk_14000).at((p_i_14001).i())).f(28)).i() - (((p_tk_14000).at((p_i_14001).i())).f(29)).i()) == 3)) && ((((p_tk_14000).at((p_i_14001).i())).f(19)).i() == 0)) }

pub fn o_LexFinish(p_lx_1724: &V) -> V { { let l_f_1727 = Lz::new(|| -> V { o_Flush(p_lx_1724) });  { let x207 = { let b208 = (&*l_f_1727); let b209 = b208.f(125); let n = (b209).cat(((&*l_f_1727)).f(124)); b208.with_f(125, n) }; let x210 = { let b211 = (&x207); let b212 = b211.f(124); let n = V::seq(vec![]); b211.with_f(124, n) }; let x213 = { let b214 = (&x210); let b215 = b214.f(33); let n = V::B(true); b214.with_f(33, n) };  x213 } } }

pub fn o_FullyEscaped(p_t_9930: &V) -> V { o_Concat((&V::seq(((1i64)..=(((p_t_9930).len() as i64))).map(V::I).map(|p_i_9935| { let p_i_9935 = &p_i_9935; V::seq(vec![V::I(o_BSL()), (p_t_9930).at((p_i_9935).i()).clone()]) }).collect()))) }

pub fn o_IsPair(p_src_1748: &V, p_i_1749: &V) -> bool { ((((o_At(p_src_1748, p_i_1749)).i() == o_LBRACE()) && ((o_At(p_src_1748, (&V::I(((p_i_1749).i() + 1i64))))).i() == o_PCT())) || (((o_At(p_src_1748, p_i_1749)).i() == o_PCT()) && ((o_At(p_src_1748, (&V::I(((p_i_1749).i() + 1i64))))).i() == o_RBRACE()))) }

pub fn o_EvSkel(p_ev_9944: &V) -> V { V::seq(((1i64)..=(((p_ev_9944).len() as i64))).map(V::I).map(|p_i_9949| { let p_i_9949 = &p_i_9949; V::seq(vec![((p_ev_9944).at((p_i_9949).i())).f(2).clone(), ((p_ev_9944).at((p_i_9949).i())).f(4).clone(), (((p_ev_9944).at((p_i_9949).i())).f(35)).f(39).clone(), V::I((((((p_ev_9944).at((p_i_9949).i())).f(35)).f(36)).len() as i64))]) }).collect()) }

pub fn o_EvText(p_ev_9978: &V) -> V { o_Concat((&V::seq(((1i64)..=(((p_ev_9978).len() as i64))).map(V::I).map(|p_i_9983| { let p_i_9983 = &p_i_9983; (((p_ev_9978).at((p_i_9983).i())).f(35)).f(36).clone() }).collect()))) }

pub fn o_InShape(p_n_10000: &V) -> V { (if ((p_n_10000).f(62)).is_sym(45) { V::seq(vec![(p_n_10000).f(62).clone(), V::seq(((1i64)..=((((p_n_10000).f(26)).len() as i64))).map(V::I).map(|p_i_10015| { let p_i_10015 = &p_i_10015; o_InShape(((p_n_10000).f(26)).at((p_i_10015).i())) }).collect())]) } else if ((p_n_10000).f(62)).is_sym(47) { V::seq(vec![(p_n_10000).f(62).clone(), V::I((((p_n_10000).f(88)).len() as i64)), V::I((((p_n_10000).f(89)).len() as i64))]) } else { V::seq(vec![(p_n_10000).f(62).clone(), V::I((((p_n_10000).f(29)).len() as i64))]) }) }

pub fn o_BlShape(p_n_10126: &V) -> V { (if ((p_n_10126).f(62)).is_sym(44) { V::seq(vec![(p_n_10126).f(62).clone(), o_InsShape((p_n_10126).f(26))]) } else if ((p_n_10126).f(62)).is_sym(46) { V::seq(vec![(p_n_10126).f(62).clone(), (p_n_10126).f(92).clone(), o_InsShape((p_n_10126).f(26))]) } else if ((p_n_10126).f(62)).is_sym(13) { V::seq(vec![(p_n_10126).f(62).clone(), V::I((((p_n_10126).f(95)).len() as i64)), V::I((((p_n_10126).f(23)).len() as i64))]) } else if ((p_n_10126).f(62)).is_sym(16) { V::seq(vec![(p_n_10126).f(62).clone(), V::seq(((1i64)..=((((p_n_10126).f(26)).len() as i64))).map(V::I).map(|p_i_10190| { let p_i_10190 = &p_i_10190; o_BlShape(((p_n_10126).f(26)).at((p_i_10190).i())) }).collect())]) } else if ((p_n_10126).f(62)).is_sym(48) { V::seq(vec![(p_n_10126).f(62).clone(), V::I((((p_n_10126).f(63)).len() as i64)), V::I((((p_n_10126).f(64)).len() as i64))]) } else if ((p_n_10126).f(62)).is_sym(96) { V::seq(vec![(p_n_10126).f(62).clone(), o_ListShape(p_n_10126)]) } else if ((p_n_10126).f(62)).is_sym(52) { V::seq(vec![(p_n_10126).f(62).clone(), o_OptLen((p_n_10126).f(65)), o_OptLen((p_n_10126).f(97)), V::seq(((1i64)..=((((p_n_10126).f(26)).len() as i64))).map(V::I).map(|p_i_10252| { let p_i_10252 = &p_i_10252; o_BlShape(((p_n_10126).f(26)).at((p_i_10252).i())) }).collect())]) } else if ((p_n_10126).f(62)).is_sym(50) { V::seq(vec![(p_n_10126).f(62).clone(), V::I((((p_n_10126).f(93)).len() as i64)), V::I((((p_n_10126).f(98)).len() as i64))]) } else if ((p_n_10126).f(62)).is_sym(54) { V::seq(vec![(p_n_10126).f(62).clone(), V::I((((p_n_10126).f(65)).len() as i64)), V::seq(((1i64)..=((((p_n_10126).f(26)).len() as i64))).map(V::I).map(|p_i_10298| { let p_i_10298 = &p_i_10298; o_BlShape(((p_n_10126).f(26)).at((p_i_10298).i())) }).collect())]) } else { V::seq(vec![(p_n_10126).f(62).clone()]) }) }

pub fn o_D_C17(p_o_14032: &V) -> bool { { let l_there_14059 = Lz::new(|| -> bool { ((((((p_o_14032).f(0)).len() as i64) > 0i64) && o_MetaMark((p_o_14032).f(0), (&V::I(1)))) && ((2i64)..=((((p_o_14032).f(0)).len() as i64))).map(V::I).any_(|p_i_14051| { let p_i_14051 = &p_i_14051; o_MetaMark((p_o_14032).f(0), p_i_14051) })) });  (((!((((p_o_14032).f(24)).f(25)).len() == 0)) == (*l_there_14059)) && (!(*l_there_14059) || { let l_q_14097 = Lz::new(|| -> V { ((2i64)..=((((p_o_14032).f(0)).len() as i64))).map(V::I).find(|p_i_14076| { (o_MetaMark((p_o_14032).f(0), p_i_14076) && ((2i64)..=(((p_i_14076).i() - 1i64))).map(V::I).all_(|p_j_14087| { let p_j_14087 = &p_j_14087; (!o_MetaMark((p_o_14032).f(0), p_j_14087)) })) }).expect("oracle: CHOOSE") });  (*((p_o_14032).f(24)).f(25) == *(&V::seq(vec![o_Trim((&o_TokText(p_o_14032, (&V::I(2)), (&*l_q_14097), (&V::seq(vec![])))))]))) })) } }

pub fn o_LexKindAt(p_src_1778: &V, p_lx_1779: &V) -> V { (if (((p_lx_1779).f(120)).i() > ((p_src_1778).len() as i64)) { V::S(74) } else { { let l_ch_1792 = Lz::new(|| -> V { (p_src_1778).at(((p_lx_1779).f(120)).i()).clone() });  (if (o_LineBreakLen(p_src_1778, (p_lx_1779).f(120)) > 0i64) { V::S(135) } else { (if o_IsPair(p_src_1778, (p_lx_1779).f(120)) { V::S(136) } else { (if (((*l_ch_1792).clone()).i() == o_BSL()) { V::S(137) } else { (if ((!((&o_RunKind((&*l_ch_1792)))).is_sym(118)) && ((!(((*l_ch_1792).clone()).i() == o_SP())) || (((p_lx_1779).f(123)).len() == 0))) { V::S(138) } else { (if (!((&o_SingleKind((&*l_ch_1792)))).is_sym(118)) { V::S(139) } else { V::S(140) }) }) }) }) }) } }) }

pub fn o_X_C17(p_o_14116: &V) -> bool { (*(&o_View(p_o_14116, (&V::S(141)))) == *(&o_View((&o_Model((p_o_14116).f(23))), (&V::S(141))))) }

pub fn o_BuildStep(p_bs_5840: &V, p_e_5841: &V) -> V { (if ((p_bs_5840).f(108)).b() { p_bs_5840.clone() } else { (if ((p_e_5841).f(2)).is_sym(3) { { let x216 = { let b217 = p_bs_5840; let b218 = b217.f(107); let n = (b218).push(o_Frame((p_e_5841).f(4), (&V::I(o_StartLevel((p_bs_5840).f(107), p_e_5841))))); b217.with_f(107, n) };  x216 } } else if ((p_e_5841).f(2)).is_sym(30) { { let x219 = { let b220 = p_bs_5840; let b221 = b220.f(107); let n = o_SetTop(b221, (&o_TakeValue((&o_Top(b221)), ((p_e_5841).f(35)).f(36)))); b220.with_f(107, n) };  x219 } } else { { let l_f_5893 = Lz::new(|| -> V { o_Top((p_bs_5840).f(107)) });  (if (((((p_bs_5840).f(107)).len() as i64) == 1) || (!(*((&*l_f_5893)).f(40) == *(p_e_5841).f(4)))) { { let x222 = { let b223 = p_bs_5840; let b224 = b223.f(108); let n = V::B(true); b223.with_f(108, n) };  x222 } } else { { let l_r_5918 = Lz::new(|| -> V { o_Pop((p_bs_5840).f(107)) });  { let x225 = { let b226 = p_bs_5840; let b227 = b226.f(107); let n = o_SetTop((&*l_r_5918), (&o_Fold((&*l_f_5893), (&o_Top((&*l_r_5918)))))); b226.with_f(107, n) };  x225 } } }) } }) }) }

pub fn o_BuildFrom(p_ev_5942: &V, p_i_5943: &V, p_bs_5944: &V) -> V { let mut st = (p_ev_5942.clone(), p_i_5943.clone(), p_bs_5944.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_ev_5942, p_i_5943, p_bs_5944,) = &st; (if ((p_i_5943).i() > ((p_ev_5942).len() as i64)) { Ok(p_bs_5944.clone()) } else { Err((p_ev_5942.clone(), V::I(((p_i_5943).i() + 1i64)), o_BuildStep(p_bs_5944, (p_ev_5942).at((p_i_5943).i())),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_P_C17(p_o_14128: &V) -> bool { (o_X_C17(p_o_14128) && o_D_C17(p_o_14128)) }

pub fn o_P_C18(p_o_14135: &V) -> bool { ((*(p_o_14135).f(142) == *(p_o_14135).f(24)) && (*(p_o_14135).f(143) == *(p_o_14135).f(125))) }

pub fn o_WS() -> V { thread_local! { static C: V = V::set(vec![V::I(o_LF()), V::I(o_CR()), V::I(o_SP()), V::I(9)]); } C.with(|c| c.clone()) }

pub fn o_InsShape(p_b_10053: &V) -> V { V::seq(((1i64)..=(((p_b_10053).len() as i64))).map(V::I).map(|p_i_10058| { let p_i_10058 = &p_i_10058; o_InShape((p_b_10053).at((p_i_10058).i())) }).collect()) }

pub fn o_ListShape(p_l_10068: &V) -> V { V::seq(vec![(p_l_10068).f(93).clone(), (p_l_10068).f(92).clone(), V::seq(((1i64)..=((((p_l_10068).f(26)).len() as i64))).map(V::I).map(|p_i_10081| { let p_i_10081 = &p_i_10081; V::seq(vec![o_InsShape((((p_l_10068).f(26)).at((p_i_10081).i())).f(88)), (if (((((p_l_10068).f(26)).at((p_i_10081).i())).f(94)).len() == 0) { V::seq(vec![]) } else { o_ListShape(((((p_l_10068).f(26)).at((p_i_10081).i())).f(94)).at(1i64)) })]) }).collect())]) }

pub fn o_NoBlank(p_s_14158: &V) -> bool { ((1i64)..=(((p_s_14158).len() as i64))).map(V::I).all_(|p_i_14163| { let p_i_14163 = &p_i_14163; (!((o_LineBreakLen(p_s_14158, p_i_14163) > 0i64) && (o_LineBreakLen(p_s_14158, (&V::I(((p_i_14163).i() + o_LineBreakLen(p_s_14158, p_i_14163))))) > 0i64))) }) }

pub fn o_PlacedText(p_k_18096: &V, p_w_18097: &V) -> V { (if ((p_k_18096).i() == 1) { ((&V::seq(vec![V::I(o_DASH()), V::I(o_SP())]))).cat(p_w_18097) } else if ((p_k_18096).i() == 2) { ((&V::seq(vec![V::I(o_PLUS()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_PLUS()), V::I(o_SP())]))).cat(p_w_18097) } else if ((p_k_18096).i() == 3) { ((&V::seq(vec![V::I(o_DASH()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_SP()), V::I(o_PLUS()), V::I(o_SP())]))).cat(p_w_18097) } else if ((p_k_18096).i() == 4) { ((&((&V::seq(vec![V::I(o_BANG()), V::I(o_BANG()), V::I(o_LF())]))).cat(p_w_18097))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_BANG()), V::I(o_BANG())]))) } else if ((p_k_18096).i() == 5) { ((&((&V::seq(vec![V::I(o_BANG()), V::I(o_BANG()), V::I(o_LF()), V::I(120), V::I(o_LF()), V::I(o_LF())]))).cat(p_w_18097))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_BANG()), V::I(o_BANG())]))) } else if ((p_k_18096).i() == 6) { ((&V::seq(vec![V::I(120), V::I(o_LF())]))).cat(p_w_18097) } else if ((p_k_18096).i() == 7) { (p_w_18097).cat((&V::seq(vec![V::I(o_LF()), V::I(120)]))) } else if ((p_k_18096).i() == 8) { ((&V::seq(vec![V::I(120)]))).cat(p_w_18097) } else if ((p_k_18096).i() == 9) { ((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_PCT()), V::I(o_SP()), V::I(120), V::I(o_LF())]))).cat(p_w_18097))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_PCT()), V::I(o_RBRACE())]))) } else if ((p_k_18096).i() == 10) { ((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_PCT()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_BANG()), V::I(o_BANG()), V::I(o_LF())]))).cat(p_w_18097))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_BANG()), V::I(o_BANG()), V::I(o_LF()), V::I(o_PCT()), V::I(o_RBRACE())]))) } else if ((p_k_18096).i() == 11) { ((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_PCT()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_LBRACE()), V::I(o_PCT()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_DASH()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_SP()), V::I(o_DASH()), V::I(o_SP())]))).cat(p_w_18097))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_PCT()), V::I(o_RBRACE()), V::I(o_LF()), V::I(o_PCT()), V::I(o_RBRACE())]))) } else { ((&V::seq(vec![V::I(o_PLUS()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_SP()), V::I(o_DASH()), V::I(o_SP()), V::I(120), V::I(o_LF()), V::I(o_SP()), V::I(o_SP()), V::I(o_PLUS()), V::I(o_SP())]))).cat(p_w_18097) }) }

pub fn o_BuildResult(p_bs_5961: &V) -> V { (if (((p_bs_5961).f(108)).b() || (!((((p_bs_5961).f(107)).len() as i64) == 1))) { V::rec(vec![(22, V::B(false)), (86, o_DocNode((&V::seq(vec![])), (&V::seq(vec![]))))]) } else { V::rec(vec![(22, V::B(true)), (86, o_DocNode(((&o_Top((p_bs_5961).f(107)))).f(104), ((&o_Top((p_bs_5961).f(107)))).f(26)))]) }) }

pub fn o_Build(p_ev_6002: &V) -> V { o_BuildResult((&o_BuildFrom(p_ev_6002, (&V::I(1)), (&o_BuildInit())))) }

pub fn o_GoodText(p_s_14182: &V) -> bool { ((((((p_s_14182).len() as i64) > 0i64) && (!((&o_WS())).contains((p_s_14182).at(1i64)))) && (!((&o_WS())).contains((p_s_14182).at(((p_s_14182).len() as i64))))) && o_NoBlank(p_s_14182)) }

pub fn o_Tree(p_src_6009: &V) -> V { ((&o_Build((&o_Parse(p_src_6009))))).f(86).clone() }

pub fn o_LF2() -> V { thread_local! { static C: V = V::seq(vec![V::I(o_LF()), V::I(o_LF())]); } C.with(|c| c.clone()) }

pub fn o_CLOSER() -> V { thread_local! { static C: V = V::seq(vec![V::I(o_PCT()), V::I(o_RBRACE())]); } C.with(|c| c.clone()) }

pub fn o_LexStep(p_src_1840: &V, p_lx_1841: &V) -> V { { let l_a_1845 = Lz::new(|| -> V { o_LexKindAt(p_src_1840, p_lx_1841) });  (if ((&*l_a_1845)).is_sym(74) { o_LexFinish(p_lx_1841) } else if ((&*l_a_1845)).is_sym(135) { o_LexLineBreak(p_src_1840, p_lx_1841) } else if ((&*l_a_1845)).is_sym(136) { o_LexMarker(p_lx_1841, (&(if (((p_src_1840).at(((p_lx_1841).f(120)).i())).i() == o_LBRACE()) { V::S(41) } else { V::S(55) })), (&V::I(2))) } else if ((&*l_a_1845)).is_sym(137) { o_LexEscape(p_src_1840, p_lx_1841) } else if ((&*l_a_1845)).is_sym(138) { o_LexMarker(p_lx_1841, (&o_RunKind((p_src_1840).at(((p_lx_1841).f(120)).i()))), (&V::I(((o_RunEnd(p_src_1840, (p_lx_1841).f(120), (p_src_1840).at(((p_lx_1841).f(120)).i()))).i() - ((p_lx_1841).f(120)).i())))) } else if ((&*l_a_1845)).is_sym(139) { o_LexMarker(p_lx_1841, (&o_SingleKind((p_src_1840).at(((p_lx_1841).f(120)).i()))), (&V::I(1))) } else { o_LexOrdinary(p_src_1840, p_lx_1841) }) } }

pub fn o_GoodLine(p_s_14204: &V) -> bool { ((o_GoodText(p_s_14204) && (!o_HasChar(p_s_14204, (&V::I(o_LF()))))) && (!o_HasChar(p_s_14204, (&V::I(o_CR()))))) }

pub fn o_LexFrom(p_src_1933: &V, p_lx_1934: &V) -> V { let mut st = (p_src_1933.clone(), p_lx_1934.clone(),); loop { let r: Result<V, (V, V,)> = { let (p_src_1933, p_lx_1934,) = &st; (if ((p_lx_1934).f(33)).b() { Ok((p_lx_1934).f(125).clone()) } else { Err((p_src_1933.clone(), o_LexStep(p_src_1933, p_lx_1934),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_EscBlankAcc(p_s_6029: &V, p_i_6030: &V, p_acc_6031: &V) -> V { let mut st = (p_s_6029.clone(), p_i_6030.clone(), p_acc_6031.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_s_6029, p_i_6030, p_acc_6031,) = &st; (if ((p_i_6030).i() > ((p_s_6029).len() as i64)) { Ok(p_acc_6031.clone()) } else { (if ((((p_s_6029).at((p_i_6030).i())).i() == o_LF()) && (((o_At(p_s_6029, (&V::I(((p_i_6030).i() + 1i64))))).i() == o_LF()) || (((o_At(p_s_6029, (&V::I(((p_i_6030).i() + 1i64))))).i() == o_CR()) && ((o_At(p_s_6029, (&V::I(((p_i_6030).i() + 2i64))))).i() == o_LF())))) { Err((p_s_6029.clone(), V::I(((p_i_6030).i() + 1i64)), (p_acc_6031).cat((&V::seq(vec![V::I(o_BSL()), V::I(o_LF())]))),)) } else { Err((p_s_6029.clone(), V::I(((p_i_6030).i() + 1i64)), (p_acc_6031).push((p_s_6029).at((p_i_6030).i()).clone()),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_OptLen(p_x_10114: &V) -> V { (if ((p_x_10114).len() == 0) { V::seq(vec![]) } else { V::seq(vec![V::I((((p_x_10114).at(1i64)).len() as i64))]) }) }

pub fn o_GoodOptLine(p_o_14218: &V) -> bool { (((p_o_14218).len() == 0) || o_GoodLine((p_o_14218).at(1i64))) }

pub fn o_Lex(p_src_1947: &V) -> V { o_LexFrom(p_src_1947, (&o_LexInit())) }

pub fn o_InlinesJoined(p_m_18284: &V, p_n_18285: &V) -> V { (if ((((!((p_m_18284).len() == 0)) && (!((p_n_18285).len() == 0))) && (((p_m_18284).at(((p_m_18284).len() as i64))).f(62)).is_sym(85)) && (((p_n_18285).at(1i64)).f(62)).is_sym(85)) { ((&((&(p_m_18284).sub(1i64, (((p_m_18284).len() as i64) - 1i64)))).cat((&V::seq(vec![o_Txt((&(((p_m_18284).at(((p_m_18284).len() as i64))).f(29)).cat(((p_n_18285).at(1i64)).f(29))))]))))).cat((&(p_n_18285).sub(2i64, ((p_n_18285).len() as i64)))) } else { (p_m_18284).cat(p_n_18285) }) }

pub fn o_NoTwin(p_b_14228: &V) -> bool { ((1i64)..=((((p_b_14228).len() as i64) - 1i64))).map(V::I).all_(|p_i_14235| { let p_i_14235 = &p_i_14235; (!((((p_b_14228).at((p_i_14235).i())).f(62)).is_sym(85) && (((p_b_14228).at(((p_i_14235).i() + 1i64))).f(62)).is_sym(85))) }) }

pub fn o_Stop(p_t_1957: &V) -> V { V::rec(vec![(62, p_t_1957.clone()), (101, V::I(0)), (144, V::S(118))]) }

pub fn o_StopTerm() -> V { thread_local! { static C: V = o_Stop((&V::S(59))); } C.with(|c| c.clone()) }

pub fn o_StopColl() -> V { thread_local! { static C: V = o_Stop((&V::S(55))); } C.with(|c| c.clone()) }

pub fn o_StopHigh() -> V { thread_local! { static C: V = o_Stop((&V::S(145))); } C.with(|c| c.clone()) }

pub fn o_StopList(p_lv_1978: &V, p_kd_1979: &V) -> V { V::rec(vec![(62, V::S(146)), (101, p_lv_1978.clone()), (144, p_kd_1979.clone())]) }

pub fn o_MarkOf(p_n_14256: &V) -> V { (if ((((p_n_14256).f(62)).is_sym(45) || ((p_n_14256).f(62)).is_sym(91))) { V::S(147) } else { (if ((((p_n_14256).f(62)).is_sym(73) || ((p_n_14256).f(62)).is_sym(90))) { (p_n_14256).f(62).clone() } else { V::S(118) }) }) }

pub fn o_EscBlank(p_s_6088: &V) -> V { (if o_HasChar(p_s_6088, (&V::I(o_LF()))) { o_EscBlankAcc(p_s_6088, (&V::I(1)), (&V::seq(vec![]))) } else { p_s_6088.clone() }) }

pub fn o_Has(p_cx_1991: &V, p_p_1992: &V) -> bool { (((p_p_1992).i() >= 1i64) && ((p_p_1992).i() <= (((p_cx_1991).f(0)).len() as i64))) }

pub fn o_EscRaw(p_s_6099: &V) -> V { o_Esc((&o_EscBlank(p_s_6099)), (&o_CLOSER())) }

pub fn o_NoMerge(p_b_14279: &V) -> bool { ((1i64)..=((((p_b_14279).len() as i64) - 1i64))).map(V::I).all_(|p_i_14286| { let p_i_14286 = &p_i_14286; (((&o_MarkOf((p_b_14279).at((p_i_14286).i())))).is_sym(118) || (!(*(&o_MarkOf((p_b_14279).at((p_i_14286).i()))) == *(&o_MarkOf((p_b_14279).at(((p_i_14286).i() + 1i64))))))) }) }

pub fn o_IsK(p_cx_2004: &V, p_p_2005: &V, p_k_2006: &V) -> bool { (o_Has(p_cx_2004, p_p_2005) && (*(((p_cx_2004).f(0)).at((p_p_2005).i())).f(1) == *p_k_2006)) }

pub fn o_EscSpace(p_s_6105: &V) -> V { (if ((o_At(p_s_6105, (&V::I(1)))).i() == o_SP()) { ((&V::seq(vec![V::I(o_BSL())]))).cat(p_s_6105) } else { p_s_6105.clone() }) }

pub fn o_EscEndCR(p_s_6118: &V) -> V { (if ((((p_s_6118).len() as i64) > 0i64) && (((p_s_6118).at(((p_s_6118).len() as i64))).i() == o_CR())) { ((&(p_s_6118).sub(1i64, (((p_s_6118).len() as i64) - 1i64)))).cat((&V::seq(vec![V::I(o_BSL()), V::I(o_CR())]))) } else { p_s_6118.clone() }) }

pub fn o_IsKN(p_cx_2021: &V, p_p_2022: &V, p_k_2023: &V, p_n_2024: &V) -> bool { ((o_Has(p_cx_2021, p_p_2022) && (*(((p_cx_2021).f(0)).at((p_p_2022).i())).f(1) == *p_k_2023)) && ((((((p_cx_2021).f(0)).at((p_p_2022).i())).f(28)).i() - ((((p_cx_2021).f(0)).at((p_p_2022).i())).f(29)).i()) == (p_n_2024).i())) }

pub fn o_EscLine(p_s_6144: &V) -> V { o_EscEndCR((&o_EscSpace((&o_EscChar((&o_EscChar(p_s_6144, (&V::I(o_BSL())))), (&V::I(o_LF()))))))) }

pub fn o_Col0(p_cx_2057: &V, p_p_2058: &V) -> bool { (o_Has(p_cx_2057, p_p_2058) && (((((p_cx_2057).f(0)).at((p_p_2058).i())).f(19)).i() == 0)) }

pub fn o_GoodInline(p_n_14307: &V) -> bool { (if ((p_n_14307).f(62)).is_sym(47) { (o_GoodText((p_n_14307).f(88)) && o_GoodText((p_n_14307).f(89))) } else if ((p_n_14307).f(62)).is_sym(45) { ((((!(((p_n_14307).f(26)).len() == 0)) && o_NoTwin((p_n_14307).f(26))) && o_NoMerge((p_n_14307).f(26))) && ((1i64)..=((((p_n_14307).f(26)).len() as i64))).map(V::I).all_(|p_i_14349| { let p_i_14349 = &p_i_14349; o_GoodText((((p_n_14307).f(26)).at((p_i_14349).i())).f(29)) })) } else { o_GoodText((p_n_14307).f(29)) }) }

pub fn o_IsKN0(p_cx_2073: &V, p_p_2074: &V, p_k_2075: &V, p_n_2076: &V) -> bool { (o_IsKN(p_cx_2073, p_p_2074, p_k_2075, p_n_2076) && (((((p_cx_2073).f(0)).at((p_p_2074).i())).f(19)).i() == 0)) }

pub fn o_ShowText(p_s_6153: &V) -> V { { let l_a_6169 = Lz::new(|| -> V { o_EscChar((&o_EscChar((&o_EscChar((&o_EscChar((&o_EscChar((&o_EscChar((&o_EscChar(p_s_6153, (&V::I(o_BSL())))), (&V::I(o_STAR())))), (&V::I(o_USCORE())))), (&V::I(o_TILDE())))), (&V::I(o_TICK())))), (&V::I(o_LSQ())))), (&V::I(o_LBRACE()))) }); let l_b_6186 = Lz::new(|| -> V { o_Replace((&o_Replace((&*l_a_6169), (&o_LF2()), (&V::seq(vec![V::I(o_BSL()), V::I(o_LF()), V::I(o_BSL()), V::I(o_LF())])))), (&V::seq(vec![V::I(o_LF()), V::I(o_CR())])), (&V::seq(vec![V::I(o_LF()), V::I(o_BSL()), V::I(o_CR())]))) });  o_Esc((&*l_b_6186), (&o_CLOSER())) } }

pub fn o_GoodInlines(p_b_14368: &V) -> bool { ((((!((p_b_14368).len() == 0)) && o_NoTwin(p_b_14368)) && o_NoMerge(p_b_14368)) && ((1i64)..=(((p_b_14368).len() as i64))).map(V::I).all_(|p_i_14382| { let p_i_14382 = &p_i_14382; o_GoodInline((p_b_14368).at((p_i_14382).i())) })) }

pub fn o_GoodList(p_l_14394: &V, p_lv_14395: &V) -> bool { (((*(p_l_14394).f(92) == *p_lv_14395) && (!(((p_l_14394).f(26)).len() == 0))) && ((1i64)..=((((p_l_14394).f(26)).len() as i64))).map(V::I).all_(|p_i_14413| { let p_i_14413 = &p_i_14413; (o_GoodInlines((((p_l_14394).f(26)).at((p_i_14413).i())).f(88)) && ((((((p_l_14394).f(26)).at((p_i_14413).i())).f(94)).len() == 0) || o_GoodList(((((p_l_14394).f(26)).at((p_i_14413).i())).f(94)).at(1i64), (&V::I(((p_lv_14395).i() + 1i64)))))) })) }

pub fn o_MarkerKind(p_cx_2093: &V, p_p_2094: &V) -> V { (if o_IsKN(p_cx_2093, p_p_2094, (&V::S(32)), (&V::I(1))) { V::S(115) } else { (if o_IsKN(p_cx_2093, p_p_2094, (&V::S(114)), (&V::I(1))) { V::S(87) } else { V::S(118) }) }) }

pub fn o_ShowAnchor(p_n_6192: &V) -> V { ((&((&((&((&V::seq(vec![V::I(o_LSQ())]))).cat((&o_EscRaw((&o_EscChar((&o_EscChar((&o_EscChar((p_n_6192).f(88), (&V::I(o_BSL())))), (&V::I(o_LSQ())))), (&V::I(o_RSQ()))))))))).cat((&V::seq(vec![V::I(o_RSQ()), V::I(o_LPAR())]))))).cat((&o_EscRaw((&o_EscChar((&o_EscChar((&o_EscChar((p_n_6192).f(89), (&V::I(o_BSL())))), (&V::I(o_LPAR())))), (&V::I(o_RPAR()))))))))).cat((&V::seq(vec![V::I(o_RPAR())]))) }

pub fn o_PlacedBlock(p_k_18343: &V, p_n_18344: &V) -> V { { let l_x_18348 = Lz::new(|| -> V { V::seq(vec![o_Txt((&o_X1()))]) });  (if ((p_k_18343).i() == 1) { o_ListNode((&V::S(115)), (&V::I(0)), (&V::seq(vec![o_ItemNode(p_n_18344, (&V::seq(vec![])))]))) } else if ((p_k_18343).i() == 2) { o_ListNode((&V::S(87)), (&V::I(0)), (&V::seq(vec![o_ItemNode((&*l_x_18348), (&V::seq(vec![]))), o_ItemNode(p_n_18344, (&V::seq(vec![])))]))) } else if ((p_k_18343).i() == 3) { o_ListNode((&V::S(115)), (&V::I(0)), (&V::seq(vec![o_ItemNode((&*l_x_18348), (&V::seq(vec![o_ListNode((&V::S(87)), (&V::I(1)), (&V::seq(vec![o_ItemNode(p_n_18344, (&V::seq(vec![])))])))])))]))) } else if ((p_k_18343).i() == 4) { o_HighNode((&V::seq(vec![])), (&V::seq(vec![])), (&V::seq(vec![o_ParaNode(p_n_18344)]))) } else if ((p_k_18343).i() == 5) { o_HighNode((&V::seq(vec![])), (&V::seq(vec![])), (&V::seq(vec![o_ParaNode((&*l_x_18348)), o_ParaNode(p_n_18344)]))) } else if ((p_k_18343).i() == 6) { o_ParaNode((&o_InlinesJoined((&V::seq(vec![o_Txt((&V::seq(vec![V::I(120), V::I(o_LF())])))])), p_n_18344))) } else if ((p_k_18343).i() == 7) { o_ParaNode((&o_InlinesJoined(p_n_18344, (&V::seq(vec![o_Txt((&V::seq(vec![V::I(o_LF()), V::I(120)])))]))))) } else if ((p_k_18343).i() == 8) { o_ParaNode((&o_InlinesJoined((&*l_x_18348), p_n_18344))) } else if ((p_k_18343).i() == 9) { o_CollNode((&o_X1()), (&V::seq(vec![o_ParaNode(p_n_18344)]))) } else if ((p_k_18343).i() == 10) { o_CollNode((&o_X1()), (&V::seq(vec![o_HighNode((&V::seq(vec![])), (&V::seq(vec![])), (&V::seq(vec![o_ParaNode(p_n_18344)])))]))) } else if ((p_k_18343).i() == 11) { o_CollNode((&o_X1()), (&V::seq(vec![o_CollNode((&o_X1()), (&V::seq(vec![o_ListNode((&V::S(115)), (&V::I(0)), (&V::seq(vec![o_ItemNode((&*l_x_18348), (&V::seq(vec![o_ListNode((&V::S(115)), (&V::I(1)), (&V::seq(vec![o_ItemNode(p_n_18344, (&V::seq(vec![])))])))])))])))])))]))) } else { o_ListNode((&V::S(87)), (&V::I(0)), (&V::seq(vec![o_ItemNode((&*l_x_18348), (&V::seq(vec![o_ListNode((&V::S(115)), (&V::I(1)), (&V::seq(vec![o_ItemNode((&*l_x_18348), (&V::seq(vec![o_ListNode((&V::S(87)), (&V::I(2)), (&V::seq(vec![o_ItemNode(p_n_18344, (&V::seq(vec![])))])))])))])))])))]))) }) } }

pub fn o_Shape(p_d_10314: &V) -> V { V::seq(vec![o_OptLen((p_d_10314).f(25)), V::seq(((1i64)..=((((p_d_10314).f(26)).len() as i64))).map(V::I).map(|p_i_10325| { let p_i_10325 = &p_i_10325; o_BlShape(((p_d_10314).f(26)).at((p_i_10325).i())) }).collect())]) }

pub fn o_ListMarkerAt(p_cx_2111: &V, p_p_2112: &V, p_lv_2113: &V, p_kd_2114: &V) -> bool { (o_Col0(p_cx_2111, p_p_2112) && (!((p_lv_2113).i() > 0i64) || o_IsKN(p_cx_2111, p_p_2112, (&V::S(42)), p_lv_2113)) && { let l_q_2135 = Lz::new(|| -> V { (if ((p_lv_2113).i() == 0) { p_p_2112.clone() } else { V::I(((p_p_2112).i() + 1i64)) }) });  ((!((&o_MarkerKind(p_cx_2111, (&*l_q_2135)))).is_sym(118)) && (!(!(p_kd_2114).is_sym(118)) || (*(&o_MarkerKind(p_cx_2111, (&*l_q_2135))) == *p_kd_2114)) && o_IsKN(p_cx_2111, (&V::I((((*l_q_2135).clone()).i() + 1i64))), (&V::S(42)), (&V::I(1)))) }) }

pub fn o_ShowImage(p_n_6225: &V) -> V { ((&((&((&((&V::seq(vec![V::I(o_BANG()), V::I(o_LSQ())]))).cat((&o_EscRaw((&o_EscChar((&o_EscChar((p_n_6225).f(95), (&V::I(o_BSL())))), (&V::I(o_RSQ()))))))))).cat((&V::seq(vec![V::I(o_RSQ()), V::I(o_LPAR())]))))).cat((&o_EscRaw((&o_EscChar((&o_EscChar((&o_EscChar((p_n_6225).f(23), (&V::I(o_BSL())))), (&V::I(o_LPAR())))), (&V::I(o_RPAR()))))))))).cat((&V::seq(vec![V::I(o_RPAR())]))) }

pub fn o_GoodBlock(p_n_14451: &V) -> bool { (if ((p_n_14451).f(62)).is_sym(44) { o_GoodInlines((p_n_14451).f(26)) } else if ((p_n_14451).f(62)).is_sym(46) { ({ let t228 = ((p_n_14451).f(92)).i(); t228 >= 1i64 && t228 <= 6i64 } && o_GoodInlines((p_n_14451).f(26))) } else if ((p_n_14451).f(62)).is_sym(13) { (o_GoodText((p_n_14451).f(95)) && o_GoodText((p_n_14451).f(23))) } else if ((p_n_14451).f(62)).is_sym(16) { (((((p_n_14451).f(26)).len() as i64) >= 2i64) && ((1i64)..=((((p_n_14451).f(26)).len() as i64))).map(V::I).all_(|p_i_14512| { let p_i_14512 = &p_i_14512; o_GoodBlock(((p_n_14451).f(26)).at((p_i_14512).i())) })) } else if ((p_n_14451).f(62)).is_sym(48) { (o_GoodLine((p_n_14451).f(63)) && o_GoodText((p_n_14451).f(64))) } else if ((p_n_14451).f(62)).is_sym(96) { o_GoodList(p_n_14451, (&V::I(0))) } else if ((p_n_14451).f(62)).is_sym(52) { (((o_GoodOptLine((p_n_14451).f(65)) && o_GoodOptLine((p_n_14451).f(97))) && (!(((p_n_14451).f(26)).len() == 0))) && ((1i64)..=((((p_n_14451).f(26)).len() as i64))).map(V::I).all_(|p_i_14572| { let p_i_14572 = &p_i_14572; o_GoodInlines((((p_n_14451).f(26)).at((p_i_14572).i())).f(26)) })) } else if ((p_n_14451).f(62)).is_sym(50) { (o_GoodText((p_n_14451).f(93)) && o_GoodText((p_n_14451).f(98))) } else if ((p_n_14451).f(62)).is_sym(54) { ((o_GoodLine((p_n_14451).f(65)) && (!(((p_n_14451).f(26)).len() == 0))) && ((1i64)..=((((p_n_14451).f(26)).len() as i64))).map(V::I).all_(|p_i_14620| { let p_i_14620 = &p_i_14620; o_GoodBlock(((p_n_14451).f(26)).at((p_i_14620).i())) })) } else { true }) }

pub fn o_LineAlone(p_w_18517: &V) -> bool { (((!((p_w_18517).len() == 0)) && ((1i64)..=(((p_w_18517).len() as i64))).map(V::I).all_(|p_i_18525| { let p_i_18525 = &p_i_18525; (!((((p_w_18517).at((p_i_18525).i())).i() == o_LF()) || (((p_w_18517).at((p_i_18525).i())).i() == o_CR()))) })) && ((!((((p_w_18517).at(1i64)).i() == o_SP()) || (((p_w_18517).at(1i64)).i() == o_BANG()) || (((p_w_18517).at(1i64)).i() == o_PCT()) || (((p_w_18517).at(1i64)).i() == o_LBRACE()))) && (!(((p_w_18517).at(((p_w_18517).len() as i64))).i() == o_BSL())))) }

pub fn o_ShowItalic(p_s_6257: &V) -> V { ((&((&V::seq(vec![V::I(o_USCORE())]))).cat((&o_EscRaw((&o_EscChar((&o_EscChar(p_s_6257, (&V::I(o_BSL())))), (&V::I(o_USCORE()))))))))).cat((&V::seq(vec![V::I(o_USCORE())]))) }

pub fn o_ShowStrike(p_s_6271: &V) -> V { ((&((&V::seq(vec![V::I(o_TILDE()), V::I(o_TILDE())]))).cat((&o_EscRaw((&o_EscChar((&o_EscChar(p_s_6271, (&V::I(o_BSL())))), (&V::I(o_TILDE()))))))))).cat((&V::seq(vec![V::I(o_TILDE()), V::I(o_TILDE())]))) }

pub fn o_C29Premise(p_o_18553: &V) -> bool { (((o_LineAlone((p_o_18553).f(23)) && ((((p_o_18553).f(148)).f(25)).len() == 0)) && (((((p_o_18553).f(148)).f(26)).len() as i64) == 1)) && (((((p_o_18553).f(148)).f(26)).at(1i64)).f(62)).is_sym(44)) }

pub fn o_ShowEmph(p_s_6287: &V) -> V { ((&((&V::seq(vec![V::I(o_STAR())]))).cat((&o_EscRaw((&o_EscChar((&o_EscChar(p_s_6287, (&V::I(o_BSL())))), (&V::I(o_STAR()))))))))).cat((&V::seq(vec![V::I(o_STAR())]))) }

pub fn o_ShowCodeSpan(p_s_6301: &V) -> V { (if ((p_s_6301).len() == 0) { V::seq(vec![]) } else { ((&((&V::seq(vec![V::I(o_TICK())]))).cat((&o_EscRaw((&o_EscChar((&o_EscChar(p_s_6301, (&V::I(o_BSL())))), (&V::I(o_TICK()))))))))).cat((&V::seq(vec![V::I(o_TICK())]))) }) }

pub fn o_D_C29(p_o_18588: &V) -> bool { (!o_C29Premise(p_o_18588) || (((((p_o_18588).f(149)).len() as i64) == o_PlacesOfLines()) && ((1i64)..=(o_PlacesOfLines())).map(V::I).all_(|p_k_18600| { let p_k_18600 = &p_k_18600; (*((p_o_18588).f(149)).at((p_k_18600).i()) == *(&o_DocNode((&V::seq(vec![])), (&V::seq(vec![o_PlacedBlock(p_k_18600, ((((p_o_18588).f(148)).f(26)).at(1i64)).f(26))]))))) }))) }

pub fn o_P_C29(p_o_18625: &V) -> bool { o_D_C29(p_o_18625) }

pub fn o_StopMatches(p_cx_2161: &V, p_p_2162: &V, p_c_2163: &V) -> bool { (if ((p_c_2163).f(62)).is_sym(59) { o_IsK(p_cx_2161, p_p_2162, (&V::S(59))) } else if ((p_c_2163).f(62)).is_sym(55) { ((o_IsK(p_cx_2161, p_p_2162, (&V::S(55))) && o_Col0(p_cx_2161, p_p_2162)) || ((o_IsK(p_cx_2161, p_p_2162, (&V::S(43))) && o_IsK(p_cx_2161, (&V::I(((p_p_2162).i() + 1i64))), (&V::S(55)))) && o_Col0(p_cx_2161, (&V::I(((p_p_2162).i() + 1i64)))))) } else if ((p_c_2163).f(62)).is_sym(145) { o_IsKN0(p_cx_2161, p_p_2162, (&V::S(113)), (&V::I(2))) } else { (o_Col0(p_cx_2161, p_p_2162) && ((0i64)..=((((p_c_2163).f(101)).i() + 1i64))).map(V::I).any_(|p_l_2227| { let p_l_2227 = &p_l_2227; o_ListMarkerAt(p_cx_2161, p_p_2162, p_l_2227, (&(if (*p_l_2227 == *(p_c_2163).f(101)) { (p_c_2163).f(144).clone() } else { V::S(118) }))) })) }) }

pub fn o_ShowBoldPart(p_n_6320: &V) -> V { (if ((p_n_6320).f(62)).is_sym(72) { o_ShowItalic((p_n_6320).f(29)) } else if ((p_n_6320).f(62)).is_sym(73) { o_ShowStrike((p_n_6320).f(29)) } else { o_EscRaw((&o_EscChar((&o_EscChar((&o_EscChar((&o_EscChar((p_n_6320).f(29), (&V::I(o_BSL())))), (&V::I(o_STAR())))), (&V::I(o_USCORE())))), (&V::I(o_TILDE()))))) }) }

pub fn o_D_C09(p_o_10335: &V) -> bool { { let l_esc_10340 = Lz::new(|| -> V { o_Escaped((p_o_10335).f(23)) }); let l_lits_10367 = Lz::new(|| -> V { V::set(((&V::set(((1i64)..=((((p_o_10335).f(0)).len() as i64))).map(V::I).filter(|p_i_10347| { ((((p_o_10335).f(0)).at((p_i_10347).i())).f(1)).is_sym(34) }).collect()))).set_elems().into_iter().map(|p_i_10358| { let p_i_10358 = &p_i_10358; (((p_o_10335).f(0)).at((p_i_10358).i())).f(6).clone() }).collect()) });  ((*(&o_EvSkel((p_o_10335).f(17))) == *(&o_EvSkel((p_o_10335).f(150)))) && (!((!o_HasEscaped((p_o_10335).f(23), (&*l_esc_10340), (&V::I(o_LF())))) && (!o_HasEscaped((p_o_10335).f(23), (&*l_esc_10340), (&V::I(o_CR()))))) || (*(&o_Shape((p_o_10335).f(24))) == *(&o_Shape((p_o_10335).f(151))))) && ((1i64)..=((((p_o_10335).f(0)).len() as i64))).map(V::I).all_(|p_i_10408| { let p_i_10408 = &p_i_10408; (!o_ValidRange((p_o_10335).f(23), ((p_o_10335).f(0)).at((p_i_10408).i())) || (*(((p_o_10335).f(0)).at((p_i_10408).i())).f(35) == *((&*l_esc_10340)).at(((((p_o_10335).f(0)).at((p_i_10408).i())).f(6)).i()))) }) && ((1i64)..=((((p_o_10335).f(23)).len() as i64))).map(V::I).all_(|p_j_10443| { let p_j_10443 = &p_j_10443; (!(((&*l_esc_10340)).at((p_j_10443).i())).b() || (((&*l_lits_10367)).contains(p_j_10443))) })) } }

pub fn o_AtEnd(p_cx_2247: &V, p_p_2248: &V, p_st_2249: &V) -> bool { ((!o_Has(p_cx_2247, p_p_2248)) || ((1i64)..=(((p_st_2249).len() as i64))).map(V::I).any_(|p_i_2258| { let p_i_2258 = &p_i_2258; o_StopMatches(p_cx_2247, p_p_2248, (p_st_2249).at((p_i_2258).i())) })) }

pub fn o_ModelPlaces(p_src_18629: &V) -> V { V::rec(vec![(23, p_src_18629.clone()), (148, o_Tree(p_src_18629)), (149, (if o_LineAlone(p_src_18629) { V::seq(((1i64)..=(o_PlacesOfLines())).map(V::I).map(|p_k_18643| { let p_k_18643 = &p_k_18643; o_Tree((&o_PlacedText(p_k_18643, p_src_18629))) }).collect()) } else { V::seq(vec![]) }))]) }

pub fn o_AtBoundary(p_cx_2268: &V, p_p_2269: &V, p_st_2270: &V) -> bool { (o_AtEnd(p_cx_2268, p_p_2269, p_st_2270) || o_IsK(p_cx_2268, p_p_2269, (&V::S(59)))) }

pub fn o_D_C09f(p_o_10455: &V) -> bool { (!(!(((p_o_10455).f(152)).len() == 0)) || (*(p_o_10455).f(24) == *(&o_DocNode((&V::seq(vec![])), (&V::seq(vec![o_ParaNode((&V::seq(vec![o_Txt((p_o_10455).f(152))])))])))))) }

pub fn o_P_C09(p_o_10476: &V) -> bool { o_D_C09(p_o_10476) }

pub fn o_Find(p_cx_2289: &V, p_p_2290: &V, p_st_2291: &V, p_k_2292: &V, p_n_2293: &V, p_c0_2294: &V) -> V { let mut st = (p_cx_2289.clone(), p_p_2290.clone(), p_st_2291.clone(), p_k_2292.clone(), p_n_2293.clone(), p_c0_2294.clone(),); loop { let r: Result<V, (V, V, V, V, V, V,)> = { let (p_cx_2289, p_p_2290, p_st_2291, p_k_2292, p_n_2293, p_c0_2294,) = &st; (if o_AtEnd(p_cx_2289, p_p_2290, p_st_2291) { Ok(V::I(0)) } else { (if (((*(((p_cx_2289).f(0)).at((p_p_2290).i())).f(1) == *p_k_2292) && (((p_n_2293).i() == 0) || ((((((p_cx_2289).f(0)).at((p_p_2290).i())).f(28)).i() - ((((p_cx_2289).f(0)).at((p_p_2290).i())).f(29)).i()) == (p_n_2293).i()))) && (!(p_c0_2294).b() || (((((p_cx_2289).f(0)).at((p_p_2290).i())).f(19)).i() == 0))) { Ok(p_p_2290.clone()) } else { Err((p_cx_2289.clone(), V::I(((p_p_2290).i() + 1i64)), p_st_2291.clone(), p_k_2292.clone(), p_n_2293.clone(), p_c0_2294.clone(),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_MarkChars() -> V { thread_local! { static C: V = V::set(vec![V::I(o_LF()), V::I(o_CR()), V::I(o_SP()), V::I(o_BSL()), V::I(o_TILDE()), V::I(o_STAR()), V::I(o_LBRACE()), V::I(o_RBRACE()), V::I(o_PCT()), V::I(o_DASH()), V::I(o_HASH()), V::I(o_GT()), V::I(o_BANG()), V::I(o_TICK()), V::I(o_PLUS()), V::I(o_LSQ()), V::I(o_RSQ()), V::I(o_LPAR()), V::I(o_RPAR()), V::I(o_USCORE()), V::I(o_PIPE())]); } C.with(|c| c.clone()) }

pub fn o_P_C09f(p_o_10480: &V) -> bool { (!(*(p_o_10480).f(23) == *(&o_FullyEscaped((p_o_10480).f(152)))) || o_D_C09f(p_o_10480)) }

pub fn o_RowsFrom(p_ev_10500: &V, p_at_10501: &V, p_i_10502: &V, p_open_10503: &V, p_acc_10504: &V) -> V { let mut st = (p_ev_10500.clone(), p_at_10501.clone(), p_i_10502.clone(), p_open_10503.clone(), p_acc_10504.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_ev_10500, p_at_10501, p_i_10502, p_open_10503, p_acc_10504,) = &st; (if ((p_i_10502).i() > ((p_ev_10500).len() as i64)) { Ok(p_acc_10504.clone()) } else { { let l_e_10513 = Lz::new(|| -> V { (p_ev_10500).at((p_i_10502).i()).clone() }); let l_d_10516 = Lz::new(|| -> i64 { ((p_open_10503).len() as i64) }); let l_op_10534 = Lz::new(|| -> V { (if ((((&*l_e_10513)).f(2)).is_sym(12) && ((*l_d_10516) > 0i64)) { (p_open_10503).sub(1i64, ((*l_d_10516) - 1i64)) } else { p_open_10503.clone() }) }); let l_c_10537 = Lz::new(|| -> i64 { (((&*l_op_10534)).len() as i64) }); let l_r_10583 = Lz::new(|| -> V { V::rec(vec![(2, ((&*l_e_10513)).f(2).clone()), (4, ((&*l_e_10513)).f(4).clone()), (6, (p_at_10501).at((p_i_10502).i()).clone()), (14, (if ((*l_c_10537) > 0i64) { ((&*l_op_10534)).at((*l_c_10537)).clone() } else { V::S(118) })), (36, (((&*l_e_10513)).f(35)).f(36).clone()), (81, (if ((*l_c_10537) > 1i64) { ((&*l_op_10534)).at(((*l_c_10537) - 1i64)).clone() } else { V::S(118) }))]) });  Err((p_ev_10500.clone(), p_at_10501.clone(), V::I(((p_i_10502).i() + 1i64)), (if (((&*l_e_10513)).f(2)).is_sym(3) { ((&*l_op_10534)).push(((&*l_e_10513)).f(4).clone()) } else { (*l_op_10534).clone() }), (p_acc_10504).push((*l_r_10583).clone()),)) } }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_ShowBold(p_n_6356: &V) -> V { (if ((1i64)..=((((p_n_6356).f(26)).len() as i64))).map(V::I).all_(|p_i_6363| { let p_i_6363 = &p_i_6363; (((((p_n_6356).f(26)).at((p_i_6363).i())).f(62)).is_sym(85) && (((((p_n_6356).f(26)).at((p_i_6363).i())).f(29)).len() == 0)) }) { V::seq(vec![]) } else { ((&((&V::seq(vec![V::I(o_STAR()), V::I(o_STAR())]))).cat((&o_Concat((&V::seq(((1i64)..=((((p_n_6356).f(26)).len() as i64))).map(V::I).map(|p_i_6394| { let p_i_6394 = &p_i_6394; o_Esc((&o_ShowBoldPart(((p_n_6356).f(26)).at((p_i_6394).i()))), (&V::seq(vec![V::I(o_STAR()), V::I(o_STAR())]))) }).collect()))))))).cat((&V::seq(vec![V::I(o_STAR()), V::I(o_STAR())]))) }) }

pub fn o_Others() -> V { thread_local! { static C: V = V::seq(vec![V::I(120), V::I(48), V::I(9), V::I(160), V::I(233), V::I(128512), V::I(65), V::I(0), V::I(46), V::I(11), V::I(8232), V::I(133), V::I(44), V::I(65279), V::I(769), V::I(34), V::I(47), V::I(58), V::I(12), V::I(61), V::I(64), V::I(60), V::I(8203), V::I(12288), V::I(57), V::I(39), V::I(38), V::I(36), V::I(63), V::I(94), V::I(59), V::I(127), V::I(1114111), V::I(8211), V::I(215), V::I(40959)]); } C.with(|c| c.clone()) }

pub fn o_Other(p_c_18715: &V, p_k_18716: &V) -> V { (if (((&o_MarkChars())).contains(p_c_18715)) { p_c_18715.clone() } else { ((&o_Others())).at(((((p_c_18715).i() + (p_k_18716).i())).rem_euclid((((&o_Others())).len() as i64)) + 1i64)).clone() }) }

pub fn o_FindLineEnd(p_cx_2360: &V, p_p_2361: &V, p_st_2362: &V) -> V { let mut st = (p_cx_2360.clone(), p_p_2361.clone(), p_st_2362.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_cx_2360, p_p_2361, p_st_2362,) = &st; (if o_AtEnd(p_cx_2360, p_p_2361, p_st_2362) { Ok(V::I(0)) } else { (if (((((p_cx_2360).f(0)).at((p_p_2361).i())).f(1)).is_sym(43) || ((((p_cx_2360).f(0)).at((p_p_2361).i())).f(1)).is_sym(59)) { Ok(p_p_2361.clone()) } else { Err((p_cx_2360.clone(), V::I(((p_p_2361).i() + 1i64)), p_st_2362.clone(),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Swapped(p_c_18733: &V) -> V { (if ((p_c_18733).i() == o_DASH()) { V::I(o_PLUS()) } else { (if ((p_c_18733).i() == o_PLUS()) { V::I(o_DASH()) } else { p_c_18733.clone() }) }) }

pub fn o_GoodDoc(p_d_14633: &V) -> bool { (((((p_d_14633).f(25)).len() == 0) || o_GoodText(((p_d_14633).f(25)).at(1i64))) && ((1i64)..=((((p_d_14633).f(26)).len() as i64))).map(V::I).all_(|p_i_14652| { let p_i_14652 = &p_i_14652; o_GoodBlock(((p_d_14633).f(26)).at((p_i_14652).i())) })) }

pub fn o_ShowInline(p_n_6414: &V) -> V { (if ((p_n_6414).f(62)).is_sym(85) { o_ShowText((p_n_6414).f(29)) } else if ((p_n_6414).f(62)).is_sym(47) { o_ShowAnchor(p_n_6414) } else if ((p_n_6414).f(62)).is_sym(45) { o_ShowBold(p_n_6414) } else if ((p_n_6414).f(62)).is_sym(72) { o_ShowItalic((p_n_6414).f(29)) } else if ((p_n_6414).f(62)).is_sym(73) { o_ShowStrike((p_n_6414).f(29)) } else if ((p_n_6414).f(62)).is_sym(90) { o_ShowCodeSpan((p_n_6414).f(29)) } else { o_ShowEmph((p_n_6414).f(29)) }) }

pub fn o_MapText(p_f_18746: &V, p_s_18747: &V) -> V { V::seq(((1i64)..=(((p_s_18747).len() as i64))).map(V::I).map(|p_i_18752| { let p_i_18752 = &p_i_18752; (if ((p_f_18746).f(153)).b() { o_Swapped((p_s_18747).at((p_i_18752).i())) } else { o_Other((p_s_18747).at((p_i_18752).i()), (p_f_18746).f(1)) }) }).collect()) }

pub fn o_P_C19(p_o_14662: &V) -> bool { (!o_GoodDoc((p_o_14662).f(24)) || (*(p_o_14662).f(142) == *(p_o_14662).f(24))) }

pub fn o_ShowInlines(p_b_6478: &V) -> V { o_Concat((&V::seq(((1i64)..=(((p_b_6478).len() as i64))).map(V::I).map(|p_i_6483| { let p_i_6483 = &p_i_6483; o_ShowInline((p_b_6478).at((p_i_6483).i())) }).collect()))) }

pub fn o_JObj(p_kv_14676: &V) -> V { V::rec(vec![(154, V::S(2)), (155, p_kv_14676.clone())]) }

pub fn o_RunLen(p_s_6496: &V, p_i_6497: &V, p_c_6498: &V) -> i64 { let mut st = (p_s_6496.clone(), p_i_6497.clone(), p_c_6498.clone(),); loop { let r: Result<i64, (V, V, V,)> = { let (p_s_6496, p_i_6497, p_c_6498,) = &st; (if (*(&o_At(p_s_6496, p_i_6497)) == *p_c_6498) { Err((p_s_6496.clone(), V::I(((p_i_6497).i() + 1i64)), p_c_6498.clone(),)) } else { Ok(((p_i_6497).i() - 1i64)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_MapOpt(p_f_18770: &V, p_x_18771: &V) -> V { (if ((p_x_18771).len() == 0) { V::seq(vec![]) } else { V::seq(vec![o_MapText(p_f_18770, (p_x_18771).at(1i64))]) }) }

pub fn o_JArr(p_a_14685: &V) -> V { V::rec(vec![(6, p_a_14685.clone()), (154, V::S(6))]) }

pub fn o_NoContent() -> V { thread_local! { static C: V = V::rec(vec![(28, V::I(0)), (29, V::I(0)), (36, V::seq(vec![])), (39, V::B(false))]); } C.with(|c| c.clone()) }

pub fn o_JStr(p_s_14694: &V) -> V { V::rec(vec![(29, p_s_14694.clone()), (154, V::S(29))]) }

pub fn o_TokText(p_cx_2416: &V, p_a_2417: &V, p_b_2418: &V, p_acc_2419: &V) -> V { let mut st = (p_cx_2416.clone(), p_a_2417.clone(), p_b_2418.clone(), p_acc_2419.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_cx_2416, p_a_2417, p_b_2418, p_acc_2419,) = &st; (if ((p_a_2417).i() >= (p_b_2418).i()) { Ok(p_acc_2419.clone()) } else { Err((p_cx_2416.clone(), V::I(((p_a_2417).i() + 1i64)), p_b_2418.clone(), (p_acc_2419).cat((&((p_cx_2416).f(23)).sub(((((p_cx_2416).f(0)).at((p_a_2417).i())).f(6)).i(), (((((p_cx_2416).f(0)).at((p_a_2417).i())).f(27)).i() - 1i64)))),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_JTag(p_t_14703: &V) -> V { V::rec(vec![(62, p_t_14703.clone()), (154, V::S(62))]) }

pub fn o_Rows(p_o_10607: &V) -> V { o_RowsFrom((p_o_10607).f(17), ((&o_Walk(p_o_10607))).f(156), (&V::I(1)), (&V::seq(vec![])), (&V::seq(vec![]))) }

pub fn o_MapKind(p_f_18784: &V, p_n_18785: &V) -> V { (if (!((p_f_18784).f(153)).b()) { p_n_18785.clone() } else { (if (p_n_18785).is_sym(87) { V::S(115) } else if (p_n_18785).is_sym(115) { V::S(87) } else if (p_n_18785).is_sym(32) { V::S(114) } else if (p_n_18785).is_sym(114) { V::S(32) } else { p_n_18785.clone() }) }) }

pub fn o_JNum(p_n_14712: &V) -> V { V::rec(vec![(4, p_n_14712.clone()), (154, V::S(4))]) }

pub fn o_MapInline(p_f_18820: &V, p_n_18821: &V) -> V { (if ((p_n_18821).f(62)).is_sym(45) { { let x229 = { let b230 = p_n_18821; let b231 = b230.f(26); let n = V::seq(((1i64)..=((((p_n_18821).f(26)).len() as i64))).map(V::I).map(|p_i_18838| { let p_i_18838 = &p_i_18838; o_MapInline(p_f_18820, ((p_n_18821).f(26)).at((p_i_18838).i())) }).collect()); b230.with_f(26, n) };  x229 } } else if ((p_n_18821).f(62)).is_sym(47) { { let x232 = { let b233 = p_n_18821; let b234 = b233.f(88); let n = o_MapText(p_f_18820, b234); b233.with_f(88, n) }; let x235 = { let b236 = (&x232); let b237 = b236.f(89); let n = o_MapText(p_f_18820, b237); b236.with_f(89, n) };  x235 } } else { { let x238 = { let b239 = p_n_18821; let b240 = b239.f(29); let n = o_MapText(p_f_18820, b240); b239.with_f(29, n) };  x238 } }) }

pub fn o_HeadingMark(p_s_6514: &V) -> bool { { let l_n_6519 = Lz::new(|| -> i64 { o_RunLen(p_s_6514, (&V::I(1)), (&V::I(o_HASH()))) });  (((*l_n_6519) >= 1i64) && ((o_At(p_s_6514, (&V::I(((*l_n_6519) + 1i64))))).i() == o_SP())) } }

pub fn o_JNull() -> V { thread_local! { static C: V = V::rec(vec![(154, V::S(27))]); } C.with(|c| c.clone()) }

pub fn o_KV(p_k_14726: &V, p_v_14727: &V) -> V { V::rec(vec![(1, p_k_14726.clone()), (157, p_v_14727.clone())]) }

pub fn o_JOpt(p_x_14736: &V) -> V { (if ((p_x_14736).len() == 0) { o_JNull() } else { o_JStr((p_x_14736).at(1i64)) }) }

pub fn o_Tagged(p_t_14747: &V, p_v_14748: &V) -> V { o_JObj((&V::seq(vec![o_KV((&V::S(158)), (&o_JTag(p_t_14747))), o_KV((&V::S(159)), p_v_14748)]))) }

pub fn o_JAnchor(p_n_14759: &V) -> V { o_JObj((&V::seq(vec![o_KV((&V::S(88)), (&o_JStr((p_n_14759).f(88)))), o_KV((&V::S(89)), (&o_JStr((p_n_14759).f(89))))]))) }

pub fn o_LeadEsc(p_s_6533: &V) -> V { (if (((o_StartsWith(p_s_6533, (&V::seq(vec![V::I(o_DASH()), V::I(o_SP())]))) || o_StartsWith(p_s_6533, (&V::seq(vec![V::I(o_PLUS()), V::I(o_SP())])))) || o_HeadingMark(p_s_6533)) || ((o_StartsWith(p_s_6533, (&V::seq(vec![V::I(o_BANG()), V::I(o_BANG())]))) || o_StartsWith(p_s_6533, (&V::seq(vec![V::I(o_BANG()), V::I(o_LSQ())])))) || o_StartsWith(p_s_6533, (&V::seq(vec![V::I(o_DASH()), V::I(o_DASH()), V::I(o_DASH())])))) || (((o_At(p_s_6533, (&V::I(1)))).i() == o_LF()) || o_StartsWith(p_s_6533, (&V::seq(vec![V::I(o_CR()), V::I(o_LF())]))))) { ((&V::seq(vec![V::I(o_BSL())]))).cat(p_s_6533) } else { p_s_6533.clone() }) }

pub fn o_BackslashesBefore(p_s_6589: &V, p_i_6590: &V) -> i64 { (if ((o_At(p_s_6589, (&V::I(((p_i_6590).i() - 1i64))))).i() == o_BSL()) { (1i64 + o_BackslashesBefore(p_s_6589, (&V::I(((p_i_6590).i() - 1i64))))) } else { 0i64 }) }

pub fn o_JImage(p_n_14775: &V) -> V { o_JObj((&V::seq(vec![o_KV((&V::S(95)), (&o_JStr((p_n_14775).f(95)))), o_KV((&V::S(23)), (&o_JStr((p_n_14775).f(23))))]))) }

pub fn o_JInline(p_n_14807: &V) -> V { (if ((p_n_14807).f(62)).is_sym(47) { o_Tagged((&V::S(47)), (&o_JAnchor(p_n_14807))) } else if ((p_n_14807).f(62)).is_sym(45) { o_Tagged((&V::S(45)), (&o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JInlines((p_n_14807).f(26))))]))))) } else { o_Tagged((p_n_14807).f(62), (&o_JStr((p_n_14807).f(29)))) }) }

pub fn o_MapInlines(p_f_18878: &V, p_b_18879: &V) -> V { V::seq(((1i64)..=(((p_b_18879).len() as i64))).map(V::I).map(|p_i_18884| { let p_i_18884 = &p_i_18884; o_MapInline(p_f_18878, (p_b_18879).at((p_i_18884).i())) }).collect()) }

pub fn o_MapList(p_f_18896: &V, p_l_18897: &V) -> V { { let x241 = { let b242 = p_l_18897; let b243 = b242.f(93); let n = o_MapKind(p_f_18896, b243); b242.with_f(93, n) }; let x244 = { let b245 = (&x241); let b246 = b245.f(26); let n = V::seq(((1i64)..=((((p_l_18897).f(26)).len() as i64))).map(V::I).map(|p_i_18915| { let p_i_18915 = &p_i_18915; o_ItemNode((&o_MapInlines(p_f_18896, (((p_l_18897).f(26)).at((p_i_18915).i())).f(88))), (&(if (((((p_l_18897).f(26)).at((p_i_18915).i())).f(94)).len() == 0) { V::seq(vec![]) } else { V::seq(vec![o_MapList(p_f_18896, ((((p_l_18897).f(26)).at((p_i_18915).i())).f(94)).at(1i64))]) }))) }).collect()); b245.with_f(26, n) };  x244 } }

pub fn o_JInlines(p_b_14794: &V) -> V { o_JArr((&V::seq(((1i64)..=(((p_b_14794).len() as i64))).map(V::I).map(|p_i_14799| { let p_i_14799 = &p_i_14799; o_JInline((p_b_14794).at((p_i_14799).i())) }).collect()))) }

pub fn o_TailEsc(p_s_6607: &V) -> V { (if (((((p_s_6607).len() as i64) > 0i64) && (((((p_s_6607).at(((p_s_6607).len() as i64))).i() == o_LF()) || (((p_s_6607).at(((p_s_6607).len() as i64))).i() == o_CR())))) && ((o_BackslashesBefore(p_s_6607, (&V::I(((p_s_6607).len() as i64))))).rem_euclid(2i64) == 0)) { ((&(p_s_6607).sub(1i64, (((p_s_6607).len() as i64) - 1i64)))).cat((&V::seq(vec![V::I(o_BSL()), (p_s_6607).at(((p_s_6607).len() as i64)).clone()]))) } else { p_s_6607.clone() }) }

pub fn o_Content(p_cx_2453: &V, p_a_2454: &V, p_b_2455: &V) -> V { (if ((p_a_2454).i() >= (p_b_2455).i()) { o_NoContent() } else { (if ((((p_a_2454).i() + 1i64))..=(((p_b_2455).i() - 1i64))).map(V::I).any_(|p_i_2467| { let p_i_2467 = &p_i_2467; (!(*(((p_cx_2453).f(0)).at(((p_i_2467).i() - 1i64))).f(28) == *(((p_cx_2453).f(0)).at((p_i_2467).i())).f(29))) }) { V::rec(vec![(28, V::I(0)), (29, V::I(0)), (36, o_TokText(p_cx_2453, p_a_2454, p_b_2455, (&V::seq(vec![])))), (39, V::B(true))]) } else { V::rec(vec![(28, (((p_cx_2453).f(0)).at(((p_b_2455).i() - 1i64))).f(28).clone()), (29, (((p_cx_2453).f(0)).at((p_a_2454).i())).f(29).clone()), (36, ((p_cx_2453).f(23)).sub(((((p_cx_2453).f(0)).at((p_a_2454).i())).f(6)).i(), (((((p_cx_2453).f(0)).at(((p_b_2455).i() - 1i64))).f(27)).i() - 1i64))), (39, V::B(false))]) }) }) }

pub fn o_JBodyOf(p_b_14844: &V) -> V { o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JInlines(p_b_14844)))]))) }

pub fn o_EvS(p_n_2554: &V, p_x_2555: &V) -> V { V::rec(vec![(2, V::S(3)), (4, p_n_2554.clone()), (35, p_x_2555.clone())]) }

pub fn o_JList(p_l_14855: &V) -> V { o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JArr((&V::seq(((1i64)..=((((p_l_14855).f(26)).len() as i64))).map(V::I).map(|p_i_14863| { let p_i_14863 = &p_i_14863; o_JObj((&V::seq(vec![o_KV((&V::S(160)), (&(if (((((p_l_14855).f(26)).at((p_i_14863).i())).f(94)).len() == 0) { o_JNull() } else { o_JList(((((p_l_14855).f(26)).at((p_i_14863).i())).f(94)).at(1i64)) }))), o_KV((&V::S(88)), (&o_JInlines((((p_l_14855).f(26)).at((p_i_14863).i())).f(88))))]))) }).collect()))))), o_KV((&V::S(92)), (&o_JNum((p_l_14855).f(92)))), o_KV((&V::S(161)), (&o_JTag((&(if ((p_l_14855).f(93)).is_sym(87) { V::S(162) } else { V::S(163) })))))]))) }

pub fn o_MapBlock(p_f_18954: &V, p_n_18955: &V) -> V { (if ((((p_n_18955).f(62)).is_sym(44) || ((p_n_18955).f(62)).is_sym(46))) { { let x247 = { let b248 = p_n_18955; let b249 = b248.f(26); let n = o_MapInlines(p_f_18954, b249); b248.with_f(26, n) };  x247 } } else if ((p_n_18955).f(62)).is_sym(13) { { let x250 = { let b251 = p_n_18955; let b252 = b251.f(95); let n = o_MapText(p_f_18954, b252); b251.with_f(95, n) }; let x253 = { let b254 = (&x250); let b255 = b254.f(23); let n = o_MapText(p_f_18954, b255); b254.with_f(23, n) };  x253 } } else if ((p_n_18955).f(62)).is_sym(16) { { let x256 = { let b257 = p_n_18955; let b258 = b257.f(26); let n = V::seq(((1i64)..=((((p_n_18955).f(26)).len() as i64))).map(V::I).map(|p_i_19008| { let p_i_19008 = &p_i_19008; o_MapBlock(p_f_18954, ((p_n_18955).f(26)).at((p_i_19008).i())) }).collect()); b257.with_f(26, n) };  x256 } } else if ((p_n_18955).f(62)).is_sym(48) { { let x259 = { let b260 = p_n_18955; let b261 = b260.f(63); let n = o_MapText(p_f_18954, b261); b260.with_f(63, n) }; let x262 = { let b263 = (&x259); let b264 = b263.f(64); let n = o_MapText(p_f_18954, b264); b263.with_f(64, n) };  x262 } } else if ((p_n_18955).f(62)).is_sym(96) { o_MapList(p_f_18954, p_n_18955) } else if ((p_n_18955).f(62)).is_sym(52) { { let x265 = { let b266 = p_n_18955; let b267 = b266.f(65); let n = o_MapOpt(p_f_18954, b267); b266.with_f(65, n) }; let x268 = { let b269 = (&x265); let b270 = b269.f(97); let n = o_MapOpt(p_f_18954, b270); b269.with_f(97, n) }; let x271 = { let b272 = (&x268); let b273 = b272.f(26); let n = V::seq(((1i64)..=((((p_n_18955).f(26)).len() as i64))).map(V::I).map(|p_i_19075| { let p_i_19075 = &p_i_19075; o_MapBlock(p_f_18954, ((p_n_18955).f(26)).at((p_i_19075).i())) }).collect()); b272.with_f(26, n) };  x271 } } else if ((p_n_18955).f(62)).is_sym(50) { { let x274 = { let b275 = p_n_18955; let b276 = b275.f(93); let n = o_MapText(p_f_18954, b276); b275.with_f(93, n) }; let x277 = { let b278 = (&x274); let b279 = b278.f(98); let n = o_MapText(p_f_18954, b279); b278.with_f(98, n) };  x277 } } else if ((p_n_18955).f(62)).is_sym(54) { { let x280 = { let b281 = p_n_18955; let b282 = b281.f(65); let n = o_MapText(p_f_18954, b282); b281.with_f(65, n) }; let x283 = { let b284 = (&x280); let b285 = b284.f(26); let n = V::seq(((1i64)..=((((p_n_18955).f(26)).len() as i64))).map(V::I).map(|p_i_19127| { let p_i_19127 = &p_i_19127; o_MapBlock(p_f_18954, ((p_n_18955).f(26)).at((p_i_19127).i())) }).collect()); b284.with_f(26, n) };  x283 } } else { p_n_18955.clone() }) }

pub fn o_ShowHeadPart(p_n_6647: &V) -> V { (if ((p_n_6647).f(62)).is_sym(47) { o_ShowAnchor(p_n_6647) } else { o_EscChar((&o_EscChar((&o_EscRaw((&o_EscChar((p_n_6647).f(29), (&V::I(o_BSL())))))), (&V::I(o_HASH())))), (&V::I(o_LSQ()))) }) }

pub fn o_EvE(p_n_2567: &V, p_x_2568: &V) -> V { V::rec(vec![(2, V::S(12)), (4, p_n_2567.clone()), (35, p_x_2568.clone())]) }

pub fn o_EvV(p_x_2580: &V) -> V { V::rec(vec![(2, V::S(30)), (4, V::S(118)), (35, p_x_2580.clone())]) }

pub fn o_ShowHeading(p_n_6667: &V) -> V { ((&((&o_Repeat((&V::I(o_HASH())), (p_n_6667).f(92)))).cat((&V::seq(vec![V::I(o_SP())]))))).cat((&o_EscSpace((&o_Concat((&V::seq(((1i64)..=((((p_n_6667).f(26)).len() as i64))).map(V::I).map(|p_i_6682| { let p_i_6682 = &p_i_6682; o_ShowHeadPart(((p_n_6667).f(26)).at((p_i_6682).i())) }).collect()))))))) }

pub fn o_Fail() -> V { thread_local! { static C: V = V::rec(vec![(14, V::I(0)), (17, V::seq(vec![])), (22, V::B(false))]); } C.with(|c| c.clone()) }

pub fn o_Done(p_p_2603: &V, p_ev_2604: &V) -> V { V::rec(vec![(14, p_p_2603.clone()), (17, p_ev_2604.clone()), (22, V::B(true))]) }

pub fn o_TextEv(p_cx_2616: &V, p_from_2617: &V, p_p_2618: &V) -> V { (if ((p_from_2617).i() == 0) { V::seq(vec![]) } else { V::seq(vec![o_EvV((&o_Content(p_cx_2616, p_from_2617, p_p_2618)))]) }) }

pub fn o_JBlock(p_n_14924: &V) -> V { (if ((p_n_14924).f(62)).is_sym(44) { o_Tagged((p_n_14924).f(62), (&o_JBodyOf((p_n_14924).f(26)))) } else if ((p_n_14924).f(62)).is_sym(46) { o_Tagged((p_n_14924).f(62), (&o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JInlines((p_n_14924).f(26)))), o_KV((&V::S(92)), (&o_JNum((p_n_14924).f(92))))]))))) } else if ((p_n_14924).f(62)).is_sym(13) { o_Tagged((p_n_14924).f(62), (&o_JImage(p_n_14924))) } else if ((p_n_14924).f(62)).is_sym(16) { o_Tagged((p_n_14924).f(62), (&o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JArr((&V::seq(((1i64)..=((((p_n_14924).f(26)).len() as i64))).map(V::I).map(|p_i_14990| { let p_i_14990 = &p_i_14990; o_JImage(((p_n_14924).f(26)).at((p_i_14990).i())) }).collect())))))]))))) } else if ((p_n_14924).f(62)).is_sym(48) { o_Tagged((p_n_14924).f(62), (&o_JObj((&V::seq(vec![o_KV((&V::S(64)), (&o_JStr((p_n_14924).f(64)))), o_KV((&V::S(63)), (&o_JStr((p_n_14924).f(63))))]))))) } else if ((p_n_14924).f(62)).is_sym(96) { o_Tagged((p_n_14924).f(62), (&o_JList(p_n_14924))) } else if ((p_n_14924).f(62)).is_sym(52) { o_Tagged((p_n_14924).f(62), (&o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JArr((&V::seq(((1i64)..=((((p_n_14924).f(26)).len() as i64))).map(V::I).map(|p_i_15055| { let p_i_15055 = &p_i_15055; o_JBodyOf((((p_n_14924).f(26)).at((p_i_15055).i())).f(26)) }).collect()))))), o_KV((&V::S(97)), (&o_JOpt((p_n_14924).f(97)))), o_KV((&V::S(65)), (&o_JOpt((p_n_14924).f(65))))]))))) } else if ((p_n_14924).f(62)).is_sym(50) { o_Tagged((p_n_14924).f(62), (&o_JObj((&V::seq(vec![o_KV((&V::S(98)), (&o_JStr((p_n_14924).f(98)))), o_KV((&V::S(93)), (&o_JStr((p_n_14924).f(93))))]))))) } else if ((p_n_14924).f(62)).is_sym(54) { o_Tagged((p_n_14924).f(62), (&o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JArr((&V::seq(((1i64)..=((((p_n_14924).f(26)).len() as i64))).map(V::I).map(|p_i_15122| { let p_i_15122 = &p_i_15122; o_JBlock(((p_n_14924).f(26)).at((p_i_15122).i())) }).collect()))))), o_KV((&V::S(65)), (&o_JStr((p_n_14924).f(65))))]))))) } else { o_Tagged((p_n_14924).f(62), (&o_JObj((&V::seq(vec![]))))) }) }

pub fn o_ShowCode(p_n_6694: &V) -> V { ((&((&((&((&((&V::seq(vec![V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK())]))).cat((&o_EscEndCR((&o_EscChar((&o_EscChar((&o_EscChar((p_n_6694).f(63), (&V::I(o_BSL())))), (&V::I(o_TICK())))), (&V::I(o_LF()))))))))).cat((&V::seq(vec![V::I(o_LF())]))))).cat((&(if (((o_At((p_n_6694).f(64), (&V::I(1)))).i() == o_LF()) || o_StartsWith((p_n_6694).f(64), (&V::seq(vec![V::I(o_CR()), V::I(o_LF())])))) { V::seq(vec![V::I(o_BSL())]) } else { V::seq(vec![]) }))))).cat((&o_Esc((&o_EscChar((p_n_6694).f(64), (&V::I(o_BSL())))), (&V::seq(vec![V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK())]))))))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_TICK()), V::I(o_TICK()), V::I(o_TICK())]))) }

pub fn o_RawNode(p_cx_2631: &V, p_n_2632: &V, p_p_2633: &V, p_q_2634: &V) -> V { V::seq(vec![o_EvS(p_n_2632, (&o_Content(p_cx_2631, p_p_2633, (&V::I(((p_p_2633).i() + 1i64)))))), o_EvV((&o_Content(p_cx_2631, (&V::I(((p_p_2633).i() + 1i64))), p_q_2634))), o_EvE(p_n_2632, (&o_Content(p_cx_2631, p_q_2634, (&V::I(((p_q_2634).i() + 1i64))))))]) }

pub fn o_ShowEmbed(p_n_6751: &V) -> V { ((&((&((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_LBRACE())]))).cat((&o_EscRaw((&o_EscChar((&o_EscChar((&o_EscChar((p_n_6751).f(93), (&V::I(o_BSL())))), (&V::I(o_LBRACE())))), (&V::I(o_PIPE()))))))))).cat((&V::seq(vec![V::I(o_PIPE())]))))).cat((&o_EscBlank((&o_EscChar((&o_EscChar((&o_EscChar((&o_EscChar((p_n_6751).f(98), (&V::I(o_BSL())))), (&V::I(o_LBRACE())))), (&V::I(o_PCT())))), (&V::I(o_RBRACE()))))))))).cat((&V::seq(vec![V::I(o_RBRACE()), V::I(o_RBRACE())]))) }

pub fn o_Delimited(p_cx_2660: &V, p_p_2661: &V, p_st_2662: &V, p_n_2663: &V, p_k_2664: &V, p_w_2665: &V) -> V { (if (!o_IsKN(p_cx_2660, p_p_2661, p_k_2664, p_w_2665)) { o_Fail() } else { { let l_q_2682 = Lz::new(|| -> V { o_Find(p_cx_2660, (&V::I(((p_p_2661).i() + 1i64))), p_st_2662, p_k_2664, p_w_2665, (&V::B(false))) });  (if (((*l_q_2682).clone()).i() == 0) { o_Fail() } else { o_Done((&V::I((((*l_q_2682).clone()).i() + 1i64))), (&o_RawNode(p_cx_2660, p_n_2663, p_p_2661, (&*l_q_2682)))) }) } }) }

pub fn o_Strikethrough(p_cx_2700: &V, p_p_2701: &V, p_st_2702: &V) -> V { o_Delimited(p_cx_2700, p_p_2701, p_st_2702, (&V::S(73)), (&V::S(109)), (&V::I(2))) }

pub fn o_Italic(p_cx_2711: &V, p_p_2712: &V, p_st_2713: &V) -> V { o_Delimited(p_cx_2711, p_p_2712, p_st_2713, (&V::S(72)), (&V::S(116)), (&V::I(1))) }

pub fn o_ShowHighPara(p_p_6787: &V, p_first_6788: &V) -> V { { let l_s_6797 = Lz::new(|| -> V { o_Esc((&o_ShowInlines((p_p_6787).f(26))), (&V::seq(vec![V::I(o_BANG()), V::I(o_BANG())]))) });  (if (((&*l_s_6797)).len() == 0) { V::seq(vec![V::I(o_BSL()), V::I(o_LF())]) } else { (if ((p_first_6788).b() && o_StartsWith((&*l_s_6797), (&V::seq(vec![V::I(o_BANG()), V::I(o_SP())])))) { ((&V::seq(vec![V::I(o_BSL())]))).cat((&*l_s_6797)) } else { o_LeadEsc((&*l_s_6797)) }) }) } }

pub fn o_CodeSpan(p_cx_2722: &V, p_p_2723: &V, p_st_2724: &V) -> V { o_Delimited(p_cx_2722, p_p_2723, p_st_2724, (&V::S(90)), (&V::S(66)), (&V::I(1))) }

pub fn o_Emphasis(p_cx_2733: &V, p_p_2734: &V, p_st_2735: &V) -> V { o_Delimited(p_cx_2733, p_p_2734, p_st_2735, (&V::S(91)), (&V::S(110)), (&V::I(1))) }

pub fn o_BoldBody(p_cx_2751: &V, p_p_2752: &V, p_st_2753: &V, p_from_2754: &V, p_ev_2755: &V) -> V { let mut st = (p_cx_2751.clone(), p_p_2752.clone(), p_st_2753.clone(), p_from_2754.clone(), p_ev_2755.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_cx_2751, p_p_2752, p_st_2753, p_from_2754, p_ev_2755,) = &st; (if o_AtEnd(p_cx_2751, p_p_2752, p_st_2753) { Ok(o_Fail()) } else { (if o_IsKN(p_cx_2751, p_p_2752, (&V::S(110)), (&V::I(2))) { Ok(o_Done((&V::I(((p_p_2752).i() + 1i64))), (&((&(p_ev_2755).cat((&o_TextEv(p_cx_2751, p_from_2754, p_p_2752))))).cat((&V::seq(vec![o_EvE((&V::S(45)), (&o_Content(p_cx_2751, p_p_2752, (&V::I(((p_p_2752).i() + 1i64))))))])))))) } else { { let l_s_2790 = Lz::new(|| -> V { o_Strikethrough(p_cx_2751, p_p_2752, p_st_2753) }); let l_r_2800 = Lz::new(|| -> V { (if (((&*l_s_2790)).f(22)).b() { (*l_s_2790).clone() } else { o_Italic(p_cx_2751, p_p_2752, p_st_2753) }) });  (if (((&*l_r_2800)).f(22)).b() { Err((p_cx_2751.clone(), ((&*l_r_2800)).f(14).clone(), p_st_2753.clone(), V::I(0), ((&(p_ev_2755).cat((&o_TextEv(p_cx_2751, p_from_2754, p_p_2752))))).cat(((&*l_r_2800)).f(17)),)) } else { Err((p_cx_2751.clone(), V::I(((p_p_2752).i() + 1i64)), p_st_2753.clone(), (if ((p_from_2754).i() == 0) { p_p_2752.clone() } else { p_from_2754.clone() }), p_ev_2755.clone(),)) }) } }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Relevant(p_c_10620: &V, p_r_10621: &V) -> bool { (if (p_c_10620).is_sym(164) { ((((&o_InlineKinds())).contains((p_r_10621).f(4))) || (((p_r_10621).f(2)).is_sym(30) && (((&o_InlineKinds())).contains((p_r_10621).f(14))))) } else if (p_c_10620).is_sym(18) { (((((p_r_10621).f(4)).is_sym(47) || ((p_r_10621).f(4)).is_sym(13) || ((p_r_10621).f(4)).is_sym(16) || ((p_r_10621).f(4)).is_sym(5) || ((p_r_10621).f(4)).is_sym(10))) || (((p_r_10621).f(2)).is_sym(30) && ((((p_r_10621).f(14)).is_sym(5) || ((p_r_10621).f(14)).is_sym(10))))) } else if (p_c_10620).is_sym(61) { (((((p_r_10621).f(4)).is_sym(46) || ((p_r_10621).f(4)).is_sym(51) || ((p_r_10621).f(4)).is_sym(50))) || (((p_r_10621).f(2)).is_sym(30) && ((((p_r_10621).f(14)).is_sym(51) || ((p_r_10621).f(14)).is_sym(50))))) } else if (p_c_10620).is_sym(84) { (((((p_r_10621).f(4)).is_sym(48) || (((p_r_10621).f(2)).is_sym(30) && ((p_r_10621).f(14)).is_sym(48))) || (((p_r_10621).f(4)).is_sym(49) && ((p_r_10621).f(14)).is_sym(48))) || ((((p_r_10621).f(2)).is_sym(30) && ((p_r_10621).f(14)).is_sym(49)) && ((p_r_10621).f(81)).is_sym(48))) } else if (p_c_10620).is_sym(100) { (((((&o_ListKinds())).contains((p_r_10621).f(4))) || ((p_r_10621).f(4)).is_sym(20)) || (((p_r_10621).f(4)).is_sym(44) && ((p_r_10621).f(14)).is_sym(20))) } else if (p_c_10620).is_sym(119) { (((((((p_r_10621).f(4)).is_sym(52) || ((p_r_10621).f(4)).is_sym(53))) || (((p_r_10621).f(4)).is_sym(49) && ((p_r_10621).f(14)).is_sym(52))) || (((p_r_10621).f(2)).is_sym(30) && (((((p_r_10621).f(14)).is_sym(52) || ((p_r_10621).f(14)).is_sym(53))) || (((p_r_10621).f(14)).is_sym(49) && ((p_r_10621).f(81)).is_sym(52))))) || (((p_r_10621).f(4)).is_sym(44) && ((p_r_10621).f(14)).is_sym(52))) } else if (p_c_10620).is_sym(133) { ((((((p_r_10621).f(4)).is_sym(54) || ((p_r_10621).f(4)).is_sym(15))) || (((p_r_10621).f(4)).is_sym(49) && ((p_r_10621).f(14)).is_sym(54))) || ((((p_r_10621).f(2)).is_sym(30) && ((p_r_10621).f(14)).is_sym(49)) && ((p_r_10621).f(81)).is_sym(54))) } else if (p_c_10620).is_sym(134) { (((((((p_r_10621).f(4)).is_sym(54) || ((p_r_10621).f(4)).is_sym(15))) || ((p_r_10621).f(14)).is_sym(15)) || (((p_r_10621).f(4)).is_sym(49) && ((p_r_10621).f(14)).is_sym(54))) || ((((p_r_10621).f(2)).is_sym(30) && ((p_r_10621).f(14)).is_sym(49)) && ((p_r_10621).f(81)).is_sym(54))) } else if (p_c_10620).is_sym(141) { ((((((p_r_10621).f(4)).is_sym(21))) || (((p_r_10621).f(2)).is_sym(30) && ((p_r_10621).f(14)).is_sym(21))) || (((p_r_10621).f(4)).is_sym(15) && ((p_r_10621).f(14)).is_sym(118))) } else { true }) }

pub fn o_SelectRows(p_rows_10968: &V, p_i_10969: &V, p_c_10970: &V, p_acc_10971: &V) -> V { let mut st = (p_rows_10968.clone(), p_i_10969.clone(), p_c_10970.clone(), p_acc_10971.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_rows_10968, p_i_10969, p_c_10970, p_acc_10971,) = &st; (if ((p_i_10969).i() > ((p_rows_10968).len() as i64)) { Ok(p_acc_10971.clone()) } else { Err((p_rows_10968.clone(), V::I(((p_i_10969).i() + 1i64)), p_c_10970.clone(), (if o_Relevant(p_c_10970, (p_rows_10968).at((p_i_10969).i())) { (p_acc_10971).push((p_rows_10968).at((p_i_10969).i()).clone()) } else { p_acc_10971.clone() }),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_MapDoc(p_f_19140: &V, p_d_19141: &V) -> V { o_DocNode((&o_MapOpt(p_f_19140, (p_d_19141).f(25))), (&V::seq(((1i64)..=((((p_d_19141).f(26)).len() as i64))).map(V::I).map(|p_i_19153| { let p_i_19153 = &p_i_19153; o_MapBlock(p_f_19140, ((p_d_19141).f(26)).at((p_i_19153).i())) }).collect()))) }

pub fn o_ShowHighlight(p_n_6821: &V) -> V { ((&((&((&((&((&((&V::seq(vec![V::I(o_BANG()), V::I(o_BANG())]))).cat((&(if (((p_n_6821).f(65)).len() == 0) { V::seq(vec![]) } else { ((&V::seq(vec![V::I(o_SP())]))).cat((&o_EscLine(((p_n_6821).f(65)).at(1i64)))) }))))).cat((&V::seq(vec![V::I(o_LF())]))))).cat((&(if (((p_n_6821).f(97)).len() == 0) { V::seq(vec![]) } else { ((&((&V::seq(vec![V::I(o_BANG()), V::I(o_SP())]))).cat((&o_EscLine(((p_n_6821).f(97)).at(1i64)))))).cat((&V::seq(vec![V::I(o_LF())]))) }))))).cat((&o_Join((&V::seq(((1i64)..=((((p_n_6821).f(26)).len() as i64))).map(V::I).map(|p_i_6872| { let p_i_6872 = &p_i_6872; o_ShowHighPara(((p_n_6821).f(26)).at((p_i_6872).i()), (&V::B((((p_i_6872).i() == 1) && (((p_n_6821).f(97)).len() == 0))))) }).collect())), (&o_LF2())))))).cat((&(if (((p_n_6821).f(26)).len() == 0) { V::seq(vec![]) } else { V::seq(vec![V::I(o_LF())]) }))))).cat((&V::seq(vec![V::I(o_BANG()), V::I(o_BANG())]))) }

pub fn o_View(p_o_10996: &V, p_c_10997: &V) -> V { o_SelectRows((&o_Rows(p_o_10996)), (&V::I(1)), p_c_10997, (&V::seq(vec![]))) }

pub fn o_EscMarkers(p_s_6912: &V, p_i_6913: &V, p_acc_6914: &V) -> V { let mut st = (p_s_6912.clone(), p_i_6913.clone(), p_acc_6914.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_s_6912, p_i_6913, p_acc_6914,) = &st; (if ((p_i_6913).i() > ((p_s_6912).len() as i64)) { Ok(p_acc_6914.clone()) } else { (if (!(((p_s_6912).at((p_i_6913).i())).i() == o_LF())) { Err((p_s_6912.clone(), V::I(((p_i_6913).i() + 1i64)), (p_acc_6914).push((p_s_6912).at((p_i_6913).i()).clone()),)) } else { { let l_q_6943 = Lz::new(|| -> i64 { (o_RunLen(p_s_6912, (&V::I(((p_i_6913).i() + 1i64))), (&V::I(o_SP()))) + 1i64) });  (if (((((o_At(p_s_6912, (&V::I((*l_q_6943))))).i() == o_DASH()) || ((o_At(p_s_6912, (&V::I((*l_q_6943))))).i() == o_PLUS()))) && ((o_At(p_s_6912, (&V::I(((*l_q_6943) + 1i64))))).i() == o_SP())) { Err((p_s_6912.clone(), V::I(((*l_q_6943) + 1i64)), ((&(p_acc_6914).cat((&(p_s_6912).sub((p_i_6913).i(), ((*l_q_6943) - 1i64)))))).cat((&V::seq(vec![V::I(o_BSL()), (p_s_6912).at((*l_q_6943)).clone()]))),)) } else { Err((p_s_6912.clone(), V::I(((p_i_6913).i() + 1i64)), (p_acc_6914).push((p_s_6912).at((p_i_6913).i()).clone()),)) }) } }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_InNodes(p_b_11009: &V, p_i_11010: &V) -> V { (if ((p_i_11010).i() > ((p_b_11009).len() as i64)) { V::seq(vec![]) } else { ((&((&V::seq(vec![(p_b_11009).at((p_i_11010).i()).clone()]))).cat((&(if (((p_b_11009).at((p_i_11010).i())).f(62)).is_sym(45) { o_InNodes(((p_b_11009).at((p_i_11010).i())).f(26), (&V::I(1))) } else { V::seq(vec![]) }))))).cat((&o_InNodes(p_b_11009, (&V::I(((p_i_11010).i() + 1i64)))))) }) }

pub fn o_MapEv(p_f_19164: &V, p_ev_19165: &V) -> V { V::seq(((1i64)..=(((p_ev_19165).len() as i64))).map(V::I).map(|p_i_19170| { let p_i_19170 = &p_i_19170; V::seq(vec![((p_ev_19165).at((p_i_19170).i())).f(2).clone(), o_MapKind(p_f_19164, ((p_ev_19165).at((p_i_19170).i())).f(4)), (((p_ev_19165).at((p_i_19170).i())).f(35)).f(39).clone(), o_MapText(p_f_19164, (((p_ev_19165).at((p_i_19170).i())).f(35)).f(36))]) }).collect()) }

pub fn o_EvRows(p_ev_19202: &V) -> V { V::seq(((1i64)..=(((p_ev_19202).len() as i64))).map(V::I).map(|p_i_19207| { let p_i_19207 = &p_i_19207; V::seq(vec![((p_ev_19202).at((p_i_19207).i())).f(2).clone(), ((p_ev_19202).at((p_i_19207).i())).f(4).clone(), (((p_ev_19202).at((p_i_19207).i())).f(35)).f(39).clone(), (((p_ev_19202).at((p_i_19207).i())).f(35)).f(36).clone()]) }).collect()) }

pub fn o_ListNodes(p_l_11047: &V) -> V { ((&V::seq(vec![V::rec(vec![(4, V::I((((p_l_11047).f(26)).len() as i64))), (62, V::S(165)), (92, (p_l_11047).f(92).clone()), (93, (p_l_11047).f(93).clone())])]))).cat((&o_Concat((&V::seq(((1i64)..=((((p_l_11047).f(26)).len() as i64))).map(V::I).map(|p_i_11075| { let p_i_11075 = &p_i_11075; ((&((&V::seq(vec![V::rec(vec![(4, V::I((((((p_l_11047).f(26)).at((p_i_11075).i())).f(94)).len() as i64))), (62, V::S(166))])]))).cat((&o_InNodes((((p_l_11047).f(26)).at((p_i_11075).i())).f(88), (&V::I(1))))))).cat((&(if (((((p_l_11047).f(26)).at((p_i_11075).i())).f(94)).len() == 0) { V::seq(vec![]) } else { o_ListNodes(((((p_l_11047).f(26)).at((p_i_11075).i())).f(94)).at(1i64)) }))) }).collect()))))) }

pub fn o_Bold(p_cx_2838: &V, p_p_2839: &V, p_st_2840: &V) -> V { (if (!o_IsKN(p_cx_2838, p_p_2839, (&V::S(110)), (&V::I(2)))) { o_Fail() } else { o_BoldBody(p_cx_2838, (&V::I(((p_p_2839).i() + 1i64))), p_st_2840, (&V::I(0)), (&V::seq(vec![o_EvS((&V::S(45)), (&o_Content(p_cx_2838, p_p_2839, (&V::I(((p_p_2839).i() + 1i64))))))]))) }) }

pub fn o_JDoc(p_d_15150: &V) -> V { o_JObj((&V::seq(vec![o_KV((&V::S(26)), (&o_JArr((&V::seq(((1i64)..=((((p_d_15150).f(26)).len() as i64))).map(V::I).map(|p_i_15158| { let p_i_15158 = &p_i_15158; o_JBlock(((p_d_15150).f(26)).at((p_i_15158).i())) }).collect()))))), o_KV((&V::S(167)), (&o_JOpt((p_d_15150).f(25))))]))) }

pub fn o_MapTk(p_f_19235: &V, p_tk_19236: &V) -> V { V::seq(((1i64)..=(((p_tk_19236).len() as i64))).map(V::I).map(|p_i_19241| { let p_i_19241 = &p_i_19241; V::seq(vec![o_MapKind(p_f_19235, ((p_tk_19236).at((p_i_19241).i())).f(1)), ((p_tk_19236).at((p_i_19241).i())).f(6).clone(), ((p_tk_19236).at((p_i_19241).i())).f(27).clone(), ((p_tk_19236).at((p_i_19241).i())).f(19).clone(), ((p_tk_19236).at((p_i_19241).i())).f(117).clone(), ((p_tk_19236).at((p_i_19241).i())).f(35).clone()]) }).collect()) }

pub fn o_ShowList(p_n_7022: &V) -> V { { let l_m_7031 = Lz::new(|| -> i64 { (if ((p_n_7022).f(93)).is_sym(87) { o_PLUS() } else { o_DASH() }) });  o_Join((&V::seq(((1i64)..=((((p_n_7022).f(26)).len() as i64))).map(V::I).map(|p_i_7038| { let p_i_7038 = &p_i_7038; ((&((&o_Repeat((&V::I(o_SP())), (p_n_7022).f(92)))).cat((&V::seq(vec![V::I((*l_m_7031)), V::I(o_SP())]))))).cat((&o_ShowItem(((p_n_7022).f(26)).at((p_i_7038).i())))) }).collect())), (&V::seq(vec![V::I(o_LF())]))) } }

pub fn o_Title(p_cx_2866: &V, p_p_2867: &V, p_st_2868: &V) -> V { (if (!o_IsKN(p_cx_2866, p_p_2867, (&V::S(7)), (&V::I(1)))) { o_Fail() } else { { let l_q_2885 = Lz::new(|| -> V { o_Find(p_cx_2866, (&V::I(((p_p_2867).i() + 1i64))), p_st_2868, (&V::S(8)), (&V::I(1)), (&V::B(false))) });  (if (((*l_q_2885).clone()).i() == 0) { o_Fail() } else { o_Done((&V::I((((*l_q_2885).clone()).i() + 1i64))), (&o_RawNode(p_cx_2866, (&V::S(5)), p_p_2867, (&*l_q_2885)))) }) } }) }

pub fn o_CloseParen(p_cx_2910: &V, p_p_2911: &V, p_st_2912: &V, p_depth_2913: &V, p_last_2914: &V) -> V { let mut st = (p_cx_2910.clone(), p_p_2911.clone(), p_st_2912.clone(), p_depth_2913.clone(), p_last_2914.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_cx_2910, p_p_2911, p_st_2912, p_depth_2913, p_last_2914,) = &st; (if o_AtEnd(p_cx_2910, p_p_2911, p_st_2912) { Ok(p_last_2914.clone()) } else { (if ((((p_cx_2910).f(0)).at((p_p_2911).i())).f(1)).is_sym(9) { Err((p_cx_2910.clone(), V::I(((p_p_2911).i() + 1i64)), p_st_2912.clone(), V::I(((p_depth_2913).i() + 1i64)), p_last_2914.clone(),)) } else { (if ((((p_cx_2910).f(0)).at((p_p_2911).i())).f(1)).is_sym(11) { (if ((p_depth_2913).i() == 1) { Ok(p_p_2911.clone()) } else { Err((p_cx_2910.clone(), V::I(((p_p_2911).i() + 1i64)), p_st_2912.clone(), V::I(((p_depth_2913).i() - 1i64)), p_p_2911.clone(),)) }) } else { Err((p_cx_2910.clone(), V::I(((p_p_2911).i() + 1i64)), p_st_2912.clone(), p_depth_2913.clone(), p_last_2914.clone(),)) }) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_ShowItem(p_it_6995: &V) -> V { ((&o_EscSpace((&o_EscMarkers((&o_ShowInlines((p_it_6995).f(88))), (&V::I(1)), (&V::seq(vec![]))))))).cat((&(if (((p_it_6995).f(94)).len() == 0) { V::seq(vec![]) } else { ((&V::seq(vec![V::I(o_LF())]))).cat((&o_ShowList(((p_it_6995).f(94)).at(1i64)))) }))) }

pub fn o_TkRows(p_tk_19277: &V) -> V { V::seq(((1i64)..=(((p_tk_19277).len() as i64))).map(V::I).map(|p_i_19282| { let p_i_19282 = &p_i_19282; V::seq(vec![((p_tk_19277).at((p_i_19282).i())).f(1).clone(), ((p_tk_19277).at((p_i_19282).i())).f(6).clone(), ((p_tk_19277).at((p_i_19282).i())).f(27).clone(), ((p_tk_19277).at((p_i_19282).i())).f(19).clone(), ((p_tk_19277).at((p_i_19282).i())).f(117).clone(), ((p_tk_19277).at((p_i_19282).i())).f(35).clone()]) }).collect()) }

pub fn o_BlNodes(p_n_11129: &V) -> V { (if ((p_n_11129).f(62)).is_sym(44) { o_InNodes((p_n_11129).f(26), (&V::I(1))) } else if ((p_n_11129).f(62)).is_sym(46) { ((&V::seq(vec![V::rec(vec![(62, V::S(46)), (92, (p_n_11129).f(92).clone())])]))).cat((&o_InNodes((p_n_11129).f(26), (&V::I(1))))) } else if ((p_n_11129).f(62)).is_sym(96) { o_ListNodes(p_n_11129) } else if ((p_n_11129).f(62)).is_sym(52) { ((&V::seq(vec![V::rec(vec![(4, V::I((((p_n_11129).f(26)).len() as i64))), (62, V::S(52)), (65, (p_n_11129).f(65).clone()), (97, (p_n_11129).f(97).clone())])]))).cat((&o_Concat((&V::seq(((1i64)..=((((p_n_11129).f(26)).len() as i64))).map(V::I).map(|p_i_11203| { let p_i_11203 = &p_i_11203; o_InNodes((((p_n_11129).f(26)).at((p_i_11203).i())).f(26), (&V::I(1))) }).collect()))))) } else if ((p_n_11129).f(62)).is_sym(54) { ((&V::seq(vec![V::rec(vec![(62, V::S(54)), (65, (p_n_11129).f(65).clone()), (168, V::seq(((1i64)..=((((p_n_11129).f(26)).len() as i64))).map(V::I).map(|p_i_11237| { let p_i_11237 = &p_i_11237; (((p_n_11129).f(26)).at((p_i_11237).i())).f(62).clone() }).collect()))])]))).cat((&o_Concat((&V::seq(((1i64)..=((((p_n_11129).f(26)).len() as i64))).map(V::I).map(|p_i_11255| { let p_i_11255 = &p_i_11255; o_BlNodes(((p_n_11129).f(26)).at((p_i_11255).i())) }).collect()))))) } else { V::seq(vec![p_n_11129.clone()]) }) }

pub fn o_Renaming(p_src_19316: &V) -> V { V::rec(vec![(1, V::I(((p_src_19316).len() as i64))), (153, V::B(false))]) }

pub fn o_Renamed(p_src_19326: &V) -> V { o_MapText((&o_Renaming(p_src_19326)), p_src_19326) }

pub fn o_JEvent(p_e_15177: &V) -> V { o_JObj((&V::seq(vec![o_KV((&V::S(169)), (&(if (((p_e_15177).f(35)).f(39)).b() { o_Tagged((&V::S(170)), (&o_JStr(((p_e_15177).f(35)).f(36)))) } else { o_Tagged((&V::S(171)), (&o_JObj((&V::seq(vec![o_KV((&V::S(172)), (&o_JNum(((p_e_15177).f(35)).f(28)))), o_KV((&V::S(173)), (&o_JNum(((p_e_15177).f(35)).f(29))))]))))) }))), o_KV((&V::S(93)), (&(if ((p_e_15177).f(2)).is_sym(3) { o_Tagged((&V::S(174)), (&o_JTag((p_e_15177).f(4)))) } else if ((p_e_15177).f(2)).is_sym(12) { o_Tagged((&V::S(175)), (&o_JTag((p_e_15177).f(4)))) } else { o_JObj((&V::seq(vec![o_KV((&V::S(158)), (&o_JTag((&V::S(176)))))]))) })))]))) }

pub fn o_ShowBlock(p_n_7107: &V) -> V { (if ((p_n_7107).f(62)).is_sym(44) { o_ShowInlines((p_n_7107).f(26)) } else if ((p_n_7107).f(62)).is_sym(46) { o_ShowHeading(p_n_7107) } else if ((p_n_7107).f(62)).is_sym(13) { o_ShowImage(p_n_7107) } else if ((p_n_7107).f(62)).is_sym(16) { o_Join((&V::seq(((1i64)..=((((p_n_7107).f(26)).len() as i64))).map(V::I).map(|p_i_7145| { let p_i_7145 = &p_i_7145; o_ShowImage(((p_n_7107).f(26)).at((p_i_7145).i())) }).collect())), (&V::seq(vec![V::I(o_LF())]))) } else if ((p_n_7107).f(62)).is_sym(48) { o_ShowCode(p_n_7107) } else if ((p_n_7107).f(62)).is_sym(96) { o_ShowList(p_n_7107) } else if ((p_n_7107).f(62)).is_sym(52) { o_ShowHighlight(p_n_7107) } else if ((p_n_7107).f(62)).is_sym(51) { o_Repeat((&V::I(o_DASH())), (&V::I(5))) } else if ((p_n_7107).f(62)).is_sym(50) { o_ShowEmbed(p_n_7107) } else { ((&((&((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_PCT()), V::I(o_SP())]))).cat((&o_Esc((&o_EscLine((p_n_7107).f(65))), (&o_CLOSER())))))).cat((&V::seq(vec![V::I(o_LF())]))))).cat((&o_ShowBody((p_n_7107).f(26)))))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_PCT()), V::I(o_RBRACE())]))) }) }

pub fn o_JEvents(p_ev_15251: &V) -> V { o_JArr((&V::seq(((1i64)..=(((p_ev_15251).len() as i64))).map(V::I).map(|p_i_15256| { let p_i_15256 = &p_i_15256; o_JEvent((p_ev_15251).at((p_i_15256).i())) }).collect()))) }

pub fn o_P_C20(p_o_15264: &V) -> bool { ((((p_o_15264).f(177)).b() && (*(p_o_15264).f(178) == *(&o_JDoc((p_o_15264).f(24))))) && (*(p_o_15264).f(179) == *(&o_JEvents((p_o_15264).f(17))))) }

pub fn o_D_C30(p_o_19332: &V) -> bool { { let l_f_19337 = Lz::new(|| -> V { o_Renaming((p_o_19332).f(23)) });  ((*(p_o_19332).f(180) == *(&o_Renamed((p_o_19332).f(23)))) && (*(&o_TkRows((p_o_19332).f(181))) == *(&o_MapTk((&*l_f_19337), (p_o_19332).f(0)))) && (*(&o_EvRows((p_o_19332).f(182))) == *(&o_MapEv((&*l_f_19337), (p_o_19332).f(17)))) && (*(p_o_19332).f(183) == *(&o_MapDoc((&*l_f_19337), (p_o_19332).f(24)))) && (*(p_o_19332).f(184) == *(&o_MapText((&*l_f_19337), (p_o_19332).f(125))))) } }

pub fn o_P_C30(p_o_19387: &V) -> bool { o_D_C30(p_o_19387) }

pub fn o_Destination(p_cx_2974: &V, p_p_2975: &V, p_st_2976: &V) -> V { (if (!o_IsKN(p_cx_2974, p_p_2975, (&V::S(9)), (&V::I(1)))) { o_Fail() } else { { let l_q_2992 = Lz::new(|| -> V { o_CloseParen(p_cx_2974, (&V::I(((p_p_2975).i() + 1i64))), p_st_2976, (&V::I(1)), (&V::I(0))) });  (if (((*l_q_2992).clone()).i() == 0) { o_Fail() } else { o_Done((&V::I((((*l_q_2992).clone()).i() + 1i64))), (&o_RawNode(p_cx_2974, (&V::S(10)), p_p_2975, (&*l_q_2992)))) }) } }) }

pub fn o_ShowBody(p_b_7063: &V) -> V { o_Join((&V::seq(((1i64)..=(((p_b_7063).len() as i64))).map(V::I).map(|p_i_7068| { let p_i_7068 = &p_i_7068; { let l_s_7088 = Lz::new(|| -> V { (if (((p_b_7063).at((p_i_7068).i())).f(62)).is_sym(44) { o_LeadEsc((&o_ShowInlines(((p_b_7063).at((p_i_7068).i())).f(26)))) } else { o_ShowBlock((p_b_7063).at((p_i_7068).i())) }) });  (if (((((p_b_7063).at((p_i_7068).i())).f(62)).is_sym(44) || (((p_b_7063).at((p_i_7068).i())).f(62)).is_sym(46))) { o_TailEsc((&*l_s_7088)) } else { (*l_s_7088).clone() }) } }).collect())), (&o_LF2())) }

pub fn o_Contiguous(p_kept_15287: &V, p_a_15288: &V, p_n_15289: &V) -> bool { ((((p_a_15288).i() + 1i64))..=(((p_a_15288).i() + ((p_n_15289).i() - 1i64)))).map(V::I).all_(|p_j_15299| { let p_j_15299 = &p_j_15299; (((p_kept_15287).at(((p_j_15299).i() + 1i64))).i() == (((p_kept_15287).at((p_j_15299).i())).i() + 1i64)) }) }

pub fn o_TitleDestination(p_cx_3010: &V, p_p_3011: &V, p_st_3012: &V) -> V { { let l_t_3017 = Lz::new(|| -> V { o_Title(p_cx_3010, p_p_3011, p_st_3012) });  (if (!(((&*l_t_3017)).f(22)).b()) { o_Fail() } else { { let l_d_3029 = Lz::new(|| -> V { o_Destination(p_cx_3010, ((&*l_t_3017)).f(14), p_st_3012) });  (if (!(((&*l_d_3029)).f(22)).b()) { o_Fail() } else { o_Done(((&*l_d_3029)).f(14), (&(((&*l_t_3017)).f(17)).cat(((&*l_d_3029)).f(17)))) }) } }) } }

pub fn o_ModelRenamed(p_src_19391: &V, p_tk_19392: &V, p_ev_19393: &V, p_doc_19394: &V, p_out_19395: &V) -> V { { let l_r_19398 = Lz::new(|| -> V { o_Renamed(p_src_19391) }); let l_rtk_19401 = Lz::new(|| -> V { o_Lex((&*l_r_19398)) }); let l_rev_19405 = Lz::new(|| -> V { o_ParseTokens((&*l_r_19398), (&*l_rtk_19401)) }); let l_d_19410 = Lz::new(|| -> V { ((&o_Build((&*l_rev_19405)))).f(86).clone() });  V::rec(vec![(0, p_tk_19392.clone()), (17, p_ev_19393.clone()), (23, p_src_19391.clone()), (24, p_doc_19394.clone()), (125, p_out_19395.clone()), (180, (*l_r_19398).clone()), (181, (*l_rtk_19401).clone()), (182, (*l_rev_19405).clone()), (183, (*l_d_19410).clone()), (184, o_Show((&*l_d_19410)))]) } }

pub fn o_Anchor(p_cx_3051: &V, p_p_3052: &V, p_st_3053: &V) -> V { { let l_r_3058 = Lz::new(|| -> V { o_TitleDestination(p_cx_3051, p_p_3052, p_st_3053) });  (if (!(((&*l_r_3058)).f(22)).b()) { o_Fail() } else { o_Done(((&*l_r_3058)).f(14), (&((&((&V::seq(vec![o_EvS((&V::S(47)), (&o_NoContent()))]))).cat(((&*l_r_3058)).f(17)))).cat((&V::seq(vec![o_EvE((&V::S(47)), (&o_NoContent()))]))))) }) } }

pub fn o_D_C21(p_o_15313: &V) -> bool { { let l_w_15316 = Lz::new(|| -> V { o_Walk(p_o_15313) }); let l_kept_15321 = Lz::new(|| -> V { o_Kept((p_o_15313).f(23)) });  (((p_o_15313).f(38)).b() && (!(((&*l_w_15316)).f(22)).b() || ((1i64)..=((((p_o_15313).f(17)).len() as i64))).map(V::I).all_(|p_i_15334| { let p_i_15334 = &p_i_15334; { let l_n_15345 = Lz::new(|| -> i64 { ((((((p_o_15313).f(17)).at((p_i_15334).i())).f(35)).f(36)).len() as i64) });  ((((((p_o_15313).f(17)).at((p_i_15334).i())).f(35)).f(39)).b() == (((*l_n_15345) > 0i64) && (!o_Contiguous((&*l_kept_15321), (((&*l_w_15316)).f(156)).at((p_i_15334).i()), (&V::I((*l_n_15345))))))) } }))) } }

pub fn o_P_C21(p_o_15375: &V) -> bool { o_D_C21(p_o_15375) }

pub fn o_DocNodes(p_d_11270: &V) -> V { o_Concat((&V::seq(((1i64)..=((((p_d_11270).f(26)).len() as i64))).map(V::I).map(|p_i_11277| { let p_i_11277 = &p_i_11277; o_BlNodes(((p_d_11270).f(26)).at((p_i_11277).i())) }).collect()))) }

pub fn o_EscFence(p_s_7229: &V, p_i_7230: &V, p_acc_7231: &V) -> V { let mut st = (p_s_7229.clone(), p_i_7230.clone(), p_acc_7231.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_s_7229, p_i_7230, p_acc_7231,) = &st; (if ((p_i_7230).i() > ((p_s_7229).len() as i64)) { Ok(p_acc_7231.clone()) } else { (if ((((p_i_7230).i() == 1) || (((p_s_7229).at(((p_i_7230).i() - 1i64))).i() == o_LF())) && (o_RunLen(p_s_7229, p_i_7230, (&V::I(o_DASH()))) == ((p_i_7230).i() + 2i64))) { Err((p_s_7229.clone(), V::I(((p_i_7230).i() + 1i64)), (p_acc_7231).cat((&V::seq(vec![V::I(o_BSL()), V::I(o_DASH())]))),)) } else { Err((p_s_7229.clone(), V::I(((p_i_7230).i() + 1i64)), (p_acc_7231).push((p_s_7229).at((p_i_7230).i()).clone()),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_NodeKinds(p_c_11287: &V) -> V { (if (p_c_11287).is_sym(164) { o_InlineKinds() } else if (p_c_11287).is_sym(18) { V::set(vec![V::S(47), V::S(13), V::S(16)]) } else if (p_c_11287).is_sym(61) { V::set(vec![V::S(46), V::S(51), V::S(50)]) } else if (p_c_11287).is_sym(84) { V::set(vec![V::S(48)]) } else if (p_c_11287).is_sym(100) { V::set(vec![V::S(165), V::S(166)]) } else if (p_c_11287).is_sym(119) { V::set(vec![V::S(52)]) } else if (p_c_11287).is_sym(133) { V::set(vec![V::S(54)]) } else { V::set(vec![]) }) }

pub fn o_Inline(p_cx_3084: &V, p_p_3085: &V, p_st_3086: &V) -> V { (if o_IsKN(p_cx_3084, p_p_3085, (&V::S(109)), (&V::I(2))) { o_Strikethrough(p_cx_3084, p_p_3085, p_st_3086) } else if o_IsKN(p_cx_3084, p_p_3085, (&V::S(116)), (&V::I(1))) { o_Italic(p_cx_3084, p_p_3085, p_st_3086) } else if o_IsKN(p_cx_3084, p_p_3085, (&V::S(110)), (&V::I(2))) { o_Bold(p_cx_3084, p_p_3085, p_st_3086) } else if o_IsKN(p_cx_3084, p_p_3085, (&V::S(7)), (&V::I(1))) { o_Anchor(p_cx_3084, p_p_3085, p_st_3086) } else if o_IsKN(p_cx_3084, p_p_3085, (&V::S(66)), (&V::I(1))) { o_CodeSpan(p_cx_3084, p_p_3085, p_st_3086) } else if o_IsKN(p_cx_3084, p_p_3085, (&V::S(110)), (&V::I(1))) { o_Emphasis(p_cx_3084, p_p_3085, p_st_3086) } else { o_Fail() }) }

pub fn o_SelectNodes(p_ns_11344: &V, p_i_11345: &V, p_ks_11346: &V, p_acc_11347: &V) -> V { let mut st = (p_ns_11344.clone(), p_i_11345.clone(), p_ks_11346.clone(), p_acc_11347.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_ns_11344, p_i_11345, p_ks_11346, p_acc_11347,) = &st; (if ((p_i_11345).i() > ((p_ns_11344).len() as i64)) { Ok(p_acc_11347.clone()) } else { Err((p_ns_11344.clone(), V::I(((p_i_11345).i() + 1i64)), p_ks_11346.clone(), (if ((p_ks_11346).contains(((p_ns_11344).at((p_i_11345).i())).f(62))) { (p_acc_11347).push((p_ns_11344).at((p_i_11345).i()).clone()) } else { p_acc_11347.clone() }),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Reaching(p_tk_15379: &V, p_i_15380: &V) -> bool { (((((p_tk_15379).at((p_i_15380).i())).f(19)).i() == 0) && (((((p_tk_15379).at((p_i_15380).i())).f(1)).is_sym(66) && (((((p_tk_15379).at((p_i_15380).i())).f(28)).i() - (((p_tk_15379).at((p_i_15380).i())).f(29)).i()) == 3)) || ((((p_tk_15379).at((p_i_15380).i())).f(1)).is_sym(113) && (((((p_tk_15379).at((p_i_15380).i())).f(28)).i() - (((p_tk_15379).at((p_i_15380).i())).f(29)).i()) == 2)) || (((((p_tk_15379).at((p_i_15380).i())).f(1)).is_sym(41) || (((p_tk_15379).at((p_i_15380).i())).f(1)).is_sym(55))))) }

pub fn o_D_C31(p_o_19445: &V) -> bool { ((((((p_o_19445).f(185)).len() as i64) == (((p_o_19445).f(127)).len() as i64)) && ((((p_o_19445).f(186)).len() as i64) == (((p_o_19445).f(127)).len() as i64))) && ((1i64)..=((((p_o_19445).f(127)).len() as i64))).map(V::I).all_(|p_i_19471| { let p_i_19471 = &p_i_19471; ((*((p_o_19445).f(185)).at((p_i_19471).i()) == *(&o_DocNode((&V::seq(vec![])), (&V::seq(vec![((p_o_19445).f(127)).at((p_i_19471).i()).clone()]))))) && (*((p_o_19445).f(186)).at((p_i_19471).i()) == *(&o_DocNode((&V::seq(vec![])), (&V::seq(vec![o_CollNode((&o_X1()), (&V::seq(vec![((p_o_19445).f(127)).at((p_i_19471).i()).clone()])))])))))) }) && (*(p_o_19445).f(177) == *(&o_DocNode((&V::seq(vec![])), (&V::seq(((1i64)..=(((((p_o_19445).f(24)).f(26)).len() as i64))).map(V::I).map(|p_i_19517| { let p_i_19517 = &p_i_19517; (((p_o_19445).f(24)).f(26)).at((((((p_o_19445).f(24)).f(26)).len() as i64) + (1i64 - (p_i_19517).i()))).clone() }).collect())))))) }

pub fn o_InlineRun(p_cx_3158: &V, p_p_3159: &V, p_st_3160: &V, p_from_3161: &V, p_ev_3162: &V) -> V { let mut st = (p_cx_3158.clone(), p_p_3159.clone(), p_st_3160.clone(), p_from_3161.clone(), p_ev_3162.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_cx_3158, p_p_3159, p_st_3160, p_from_3161, p_ev_3162,) = &st; (if o_AtEnd(p_cx_3158, p_p_3159, p_st_3160) { Ok(o_Done(p_p_3159, (&(p_ev_3162).cat((&o_TextEv(p_cx_3158, p_from_3161, p_p_3159)))))) } else { { let l_r_3179 = Lz::new(|| -> V { o_Inline(p_cx_3158, p_p_3159, p_st_3160) });  (if (((&*l_r_3179)).f(22)).b() { Err((p_cx_3158.clone(), ((&*l_r_3179)).f(14).clone(), p_st_3160.clone(), V::I(0), ((&(p_ev_3162).cat((&o_TextEv(p_cx_3158, p_from_3161, p_p_3159))))).cat(((&*l_r_3179)).f(17)),)) } else { Err((p_cx_3158.clone(), V::I(((p_p_3159).i() + 1i64)), p_st_3160.clone(), (if ((p_from_3161).i() == 0) { p_p_3159.clone() } else { p_from_3161.clone() }), p_ev_3162.clone(),)) }) } }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_P_C31(p_o_19539: &V) -> bool { o_D_C31(p_o_19539) }

pub fn o_AllBlocks(p_b_19546: &V) -> V { o_Concat((&V::seq(((1i64)..=(((p_b_19546).len() as i64))).map(V::I).map(|p_i_19551| { let p_i_19551 = &p_i_19551; ((&V::seq(vec![(p_b_19546).at((p_i_19551).i()).clone()]))).cat((&(if (((p_b_19546).at((p_i_19551).i())).f(62)).is_sym(54) { o_AllBlocks(((p_b_19546).at((p_i_19551).i())).f(26)) } else { V::seq(vec![]) }))) }).collect()))) }

pub fn o_NodeView(p_d_11374: &V, p_c_11375: &V) -> V { o_SelectNodes((&o_DocNodes(p_d_11374)), (&V::I(1)), (&o_NodeKinds(p_c_11375)), (&V::seq(vec![]))) }

pub fn o_Again(p_b_19574: &V) -> V { o_Tree((&o_Show((&o_DocNode((&V::seq(vec![])), p_b_19574))))) }

pub fn o_Model(p_src_11384: &V) -> V { { let l_ev_11387 = Lz::new(|| -> V { o_Parse(p_src_11384) });  V::rec(vec![(17, (*l_ev_11387).clone()), (23, p_src_11384.clone()), (24, ((&o_Build((&*l_ev_11387)))).f(86).clone())]) } }

pub fn o_Show(p_d_7279: &V) -> V { ((&(if (((p_d_7279).f(25)).len() == 0) { V::seq(vec![]) } else { { let l_m_7296 = Lz::new(|| -> V { o_EscFence((&o_EscChar(((p_d_7279).f(25)).at(1i64), (&V::I(o_BSL())))), (&V::I(1)), (&V::seq(vec![]))) });  ((&((&((&V::seq(vec![V::I(o_DASH()), V::I(o_DASH()), V::I(o_DASH()), V::I(o_LF())]))).cat((&*l_m_7296)))).cat((&(if o_EndsWith((&*l_m_7296), (&V::seq(vec![V::I(o_LF())]))) { V::seq(vec![]) } else { V::seq(vec![V::I(o_LF())]) }))))).cat((&V::seq(vec![V::I(o_DASH()), V::I(o_DASH()), V::I(o_DASH()), V::I(o_LF()), V::I(o_LF())]))) } }))).cat((&o_ShowBody((p_d_7279).f(26)))) }

pub fn o_RoundTrips(p_d_7328: &V) -> bool { (*(&o_Tree((&o_Show(p_d_7328)))) == *p_d_7328) }

pub fn o_Same(p_o_11403: &V, p_c_11404: &V) -> bool { { let l_m_11409 = Lz::new(|| -> V { o_Model((p_o_11403).f(23)) });  ((*(&o_View(p_o_11403, p_c_11404)) == *(&o_View((&*l_m_11409), p_c_11404))) && (*(&o_NodeView((p_o_11403).f(24), p_c_11404)) == *(&o_NodeView(((&*l_m_11409)).f(24), p_c_11404)))) } }

pub fn o_Paragraph(p_cx_3216: &V, p_p_3217: &V, p_st_3218: &V) -> V { { let l_r_3228 = Lz::new(|| -> V { o_InlineRun(p_cx_3216, p_p_3217, p_st_3218, (&V::I(0)), (&V::seq(vec![o_EvS((&V::S(44)), (&o_NoContent()))]))) });  o_Done(((&*l_r_3228)).f(14), (&(((&*l_r_3228)).f(17)).push(o_EvE((&V::S(44)), (&o_NoContent()))))) } }

pub fn o_PlacesFrom(p_tk_11437: &V, p_i_11438: &V, p_p_11439: &V, p_acc_11440: &V) -> V { let mut st = (p_tk_11437.clone(), p_i_11438.clone(), p_p_11439.clone(), p_acc_11440.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_tk_11437, p_i_11438, p_p_11439, p_acc_11440,) = &st; (if ((p_i_11438).i() > ((p_tk_11437).len() as i64)) { Ok(p_acc_11440.clone()) } else { Err((p_tk_11437.clone(), V::I(((p_i_11438).i() + 1i64)), V::I(((p_p_11439).i() + ((((p_tk_11437).at((p_i_11438).i())).f(27)).i() - (((p_tk_11437).at((p_i_11438).i())).f(6)).i()))), (p_acc_11440).push(p_p_11439.clone()),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_HeadingRun(p_cx_3249: &V, p_p_3250: &V, p_st_3251: &V, p_from_3252: &V, p_ev_3253: &V) -> V { let mut st = (p_cx_3249.clone(), p_p_3250.clone(), p_st_3251.clone(), p_from_3252.clone(), p_ev_3253.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_cx_3249, p_p_3250, p_st_3251, p_from_3252, p_ev_3253,) = &st; (if o_AtEnd(p_cx_3249, p_p_3250, p_st_3251) { Ok(o_Done(p_p_3250, (&(p_ev_3253).cat((&o_TextEv(p_cx_3249, p_from_3252, p_p_3250)))))) } else { { let l_r_3270 = Lz::new(|| -> V { o_Anchor(p_cx_3249, p_p_3250, p_st_3251) });  (if (((&*l_r_3270)).f(22)).b() { Err((p_cx_3249.clone(), ((&*l_r_3270)).f(14).clone(), p_st_3251.clone(), V::I(0), ((&(p_ev_3253).cat((&o_TextEv(p_cx_3249, p_from_3252, p_p_3250))))).cat(((&*l_r_3270)).f(17)),)) } else { Err((p_cx_3249.clone(), V::I(((p_p_3250).i() + 1i64)), p_st_3251.clone(), (if ((p_from_3252).i() == 0) { p_p_3250.clone() } else { p_from_3252.clone() }), p_ev_3253.clone(),)) }) } }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_ModelEdited(p_d_19581: &V) -> V { { let l_parts_19586 = Lz::new(|| -> V { o_AllBlocks((p_d_19581).f(26)) });  V::rec(vec![(24, p_d_19581.clone()), (127, (*l_parts_19586).clone()), (177, o_Again((&V::seq(((1i64)..=((((p_d_19581).f(26)).len() as i64))).map(V::I).map(|p_i_19629| { let p_i_19629 = &p_i_19629; ((p_d_19581).f(26)).at(((((p_d_19581).f(26)).len() as i64) + (1i64 - (p_i_19629).i()))).clone() }).collect())))), (185, V::seq(((1i64)..=((((&*l_parts_19586)).len() as i64))).map(V::I).map(|p_i_19598| { let p_i_19598 = &p_i_19598; o_Again((&V::seq(vec![((&*l_parts_19586)).at((p_i_19598).i()).clone()]))) }).collect())), (186, V::seq(((1i64)..=((((&*l_parts_19586)).len() as i64))).map(V::I).map(|p_i_19611| { let p_i_19611 = &p_i_19611; o_Again((&V::seq(vec![o_CollNode((&o_X1()), (&V::seq(vec![((&*l_parts_19586)).at((p_i_19611).i()).clone()])))]))) }).collect()))]) } }

pub fn o_MoreFrom(p_src_19655: &V, p_j_19656: &V, p_i_19657: &V, p_n_19658: &V, p_acc_19659: &V) -> V { let mut st = (p_src_19655.clone(), p_j_19656.clone(), p_i_19657.clone(), p_n_19658.clone(), p_acc_19659.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_src_19655, p_j_19656, p_i_19657, p_n_19658, p_acc_19659,) = &st; (if ((p_i_19657).i() > ((p_src_19655).len() as i64)) { Ok(p_acc_19659.clone()) } else { (if ((((p_src_19655).at((p_i_19657).i())).i() == o_BSL()) && ((p_i_19657).i() < ((p_src_19655).len() as i64))) { Err((p_src_19655.clone(), p_j_19656.clone(), V::I(((p_i_19657).i() + 2i64)), p_n_19658.clone(), (p_acc_19659).cat((&V::seq(vec![V::I(o_BSL()), (p_src_19655).at(((p_i_19657).i() + 1i64)).clone()]))),)) } else { (if (((&o_MarkChars())).contains((p_src_19655).at((p_i_19657).i()))) { Err((p_src_19655.clone(), p_j_19656.clone(), V::I(((p_i_19657).i() + 1i64)), p_n_19658.clone(), (p_acc_19659).push((p_src_19655).at((p_i_19657).i()).clone()),)) } else { Err((p_src_19655.clone(), p_j_19656.clone(), V::I(((p_i_19657).i() + 1i64)), V::I(((p_n_19658).i() + 1i64)), (if (((p_n_19658).i()).rem_euclid((p_j_19656).i()) == 0) { (p_acc_19659).cat((&V::seq(vec![V::I(o_BSL()), (p_src_19655).at((p_i_19657).i()).clone()]))) } else { (p_acc_19659).push((p_src_19655).at((p_i_19657).i()).clone()) }),)) }) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Complete(p_a_15442: &V) -> bool { { let l_tk_15445 = Lz::new(|| -> V { o_Lex(p_a_15442) }); let l_ev_15449 = Lz::new(|| -> V { o_ParseTokens(p_a_15442, (&*l_tk_15445)) }); let l_o_15457 = Lz::new(|| -> V { V::rec(vec![(17, (*l_ev_15449).clone()), (23, p_a_15442.clone())]) }); let l_rows_15460 = Lz::new(|| -> V { o_Rows((&*l_o_15457)) }); let l_po_15463 = Lz::new(|| -> V { o_Places((&*l_tk_15445)) }); let l_In_15486 = |p_r_15464: &V, p_t_15465: &V| -> bool { (((((&*l_po_15463)).at((p_t_15465).i())).i() >= ((p_r_15464).f(6)).i()) && ((((&*l_po_15463)).at((p_t_15465).i())).i() < (((p_r_15464).f(6)).i() + (((p_r_15464).f(36)).len() as i64)))) };  (((1i64)..=((((&*l_tk_15445)).len() as i64))).map(V::I).all_(|p_t_15491| { let p_t_15491 = &p_t_15491; (!o_Reaching((&*l_tk_15445), p_t_15491) || ((1i64)..=((((&*l_rows_15460)).len() as i64))).map(V::I).any_(|p_i_15499| { let p_i_15499 = &p_i_15499; (l_In_15486(((&*l_rows_15460)).at((p_i_15499).i()), p_t_15491) && ((((((((&*l_rows_15460)).at((p_i_15499).i())).f(4)).is_sym(48) || ((((&*l_rows_15460)).at((p_i_15499).i())).f(4)).is_sym(52) || ((((&*l_rows_15460)).at((p_i_15499).i())).f(4)).is_sym(54))) && (*((&*l_po_15463)).at((p_t_15491).i()) == *(((&*l_rows_15460)).at((p_i_15499).i())).f(6))) || (((((&*l_rows_15460)).at((p_i_15499).i())).f(2)).is_sym(30) && ((((((&*l_rows_15460)).at((p_i_15499).i())).f(14)).is_sym(48) || ((((&*l_rows_15460)).at((p_i_15499).i())).f(14)).is_sym(21)))))) })) }) && (!(((((&*l_tk_15445)).len() as i64) > 0i64) && o_MetaMark((&*l_tk_15445), (&V::I(1)))) || ((((&*l_ev_15449)).at(1i64)).f(4)).is_sym(21))) } }

pub fn o_Places(p_tk_11468: &V) -> V { o_PlacesFrom(p_tk_11468, (&V::I(1)), (&V::I(0)), (&V::seq(vec![]))) }

pub fn o_Joinable(p_a_15566: &V) -> bool { ((((p_a_15566).len() as i64) == 0) || (!((((p_a_15566).at(((p_a_15566).len() as i64))).i() == o_LF()) || (((p_a_15566).at(((p_a_15566).len() as i64))).i() == o_CR()) || (((p_a_15566).at(((p_a_15566).len() as i64))).i() == o_BSL())))) }

pub fn o_ModelObs(p_src_7340: &V) -> V { { let l_tk_7343 = Lz::new(|| -> V { o_Lex(p_src_7340) }); let l_ev_7347 = Lz::new(|| -> V { o_ParseTokens(p_src_7340, (&*l_tk_7343)) }); let l_bd_7350 = Lz::new(|| -> V { o_Build((&*l_ev_7347)) }); let l_out_7355 = Lz::new(|| -> V { o_Show(((&*l_bd_7350)).f(86)) }); let l_doc2_7358 = Lz::new(|| -> V { o_Tree((&*l_out_7355)) });  V::rec(vec![(0, (*l_tk_7343).clone()), (17, (*l_ev_7347).clone()), (22, ((&*l_bd_7350)).f(22).clone()), (23, p_src_7340.clone()), (24, ((&*l_bd_7350)).f(86).clone()), (33, V::B(true)), (99, V::B(true)), (125, (*l_out_7355).clone()), (142, (*l_doc2_7358).clone()), (143, o_Show((&*l_doc2_7358)))]) } }

pub fn o_KeptAcc(p_src_7402: &V, p_i_7403: &V, p_acc_7404: &V) -> V { let mut st = (p_src_7402.clone(), p_i_7403.clone(), p_acc_7404.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_src_7402, p_i_7403, p_acc_7404,) = &st; (if ((p_i_7403).i() > ((p_src_7402).len() as i64)) { Ok(p_acc_7404.clone()) } else { (if (!(((p_src_7402).at((p_i_7403).i())).i() == o_BSL())) { Err((p_src_7402.clone(), V::I(((p_i_7403).i() + 1i64)), (p_acc_7404).push(p_i_7403.clone()),)) } else { (if ((p_i_7403).i() < ((p_src_7402).len() as i64)) { Err((p_src_7402.clone(), V::I(((p_i_7403).i() + 2i64)), (p_acc_7404).push(V::I(((p_i_7403).i() + 1i64))),)) } else { Ok(p_acc_7404.clone()) }) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_NoMeta(p_a_15582: &V) -> bool { { let l_tk_15585 = Lz::new(|| -> V { o_Lex(p_a_15582) });  (!(((((&*l_tk_15585)).len() as i64) > 0i64) && o_MetaMark((&*l_tk_15585), (&V::I(1))))) } }

pub fn o_JoinText(p_a_15597: &V, p_b_15598: &V) -> V { ((&(p_a_15597).cat((&o_LF2())))).cat(p_b_15598) }

pub fn o_CollText(p_a_15605: &V, p_b_15606: &V) -> V { ((&((&((&((&V::seq(vec![V::I(o_LBRACE()), V::I(o_PCT()), V::I(o_SP()), V::I(116), V::I(o_LF())]))).cat(p_a_15605))).cat((&o_LF2())))).cat(p_b_15606))).cat((&V::seq(vec![V::I(o_LF()), V::I(o_PCT()), V::I(o_RBRACE())]))) }

pub fn o_InlineMark(p_t_11475: &V) -> V { { let l_n_11483 = Lz::new(|| -> i64 { (((p_t_11475).f(28)).i() - ((p_t_11475).f(29)).i()) });  (if (((p_t_11475).f(1)).is_sym(109) && ((*l_n_11483) == 2)) { V::S(73) } else { (if ((p_t_11475).f(1)).is_sym(116) { V::S(72) } else { (if (((p_t_11475).f(1)).is_sym(110) && ((*l_n_11483) == 2)) { V::S(45) } else { (if (((p_t_11475).f(1)).is_sym(110) && ((*l_n_11483) == 1)) { V::S(91) } else { (if (((p_t_11475).f(1)).is_sym(66) && ((*l_n_11483) == 1)) { V::S(90) } else { V::S(118) }) }) }) }) }) } }

pub fn o_Kept(p_src_7441: &V) -> V { o_KeptAcc(p_src_7441, (&V::I(1)), (&V::seq(vec![]))) }

pub fn o_C22Premise(p_o_15625: &V) -> bool { ((o_Complete((p_o_15625).f(6)) && o_Joinable((p_o_15625).f(6))) && o_NoMeta((p_o_15625).f(56))) }

pub fn o_MarkLen(p_n_11538: &V) -> i64 { (if (((p_n_11538).is_sym(73) || (p_n_11538).is_sym(45))) { 2i64 } else { 1i64 }) }

pub fn o_Plain(p_src_7447: &V, p_kept_7448: &V) -> V { V::seq(((1i64)..=(((p_kept_7448).len() as i64))).map(V::I).map(|p_j_7453| { let p_j_7453 = &p_j_7453; (p_src_7447).at(((p_kept_7448).at((p_j_7453).i())).i()).clone() }).collect()) }

pub fn o_MoreEscapes(p_src_19738: &V, p_j_19739: &V) -> V { o_MoreFrom(p_src_19738, p_j_19739, (&V::I(1)), (&(if ((p_j_19739).i() == 3) { V::I(1) } else { V::I(0) })), (&V::seq(vec![]))) }

pub fn o_EscapedAcc(p_src_7466: &V, p_i_7467: &V, p_acc_7468: &V) -> V { let mut st = (p_src_7466.clone(), p_i_7467.clone(), p_acc_7468.clone(),); loop { let r: Result<V, (V, V, V,)> = { let (p_src_7466, p_i_7467, p_acc_7468,) = &st; (if ((p_i_7467).i() > ((p_src_7466).len() as i64)) { Ok(p_acc_7468.clone()) } else { (if ((((p_src_7466).at((p_i_7467).i())).i() == o_BSL()) && ((p_i_7467).i() < ((p_src_7466).len() as i64))) { Err((p_src_7466.clone(), V::I(((p_i_7467).i() + 2i64)), (p_acc_7468).cat((&V::seq(vec![V::B(false), V::B(true)]))),)) } else { Err((p_src_7466.clone(), V::I(((p_i_7467).i() + 1i64)), (p_acc_7468).push(V::B(false)),)) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_Heading(p_cx_3307: &V, p_p_3308: &V, p_st_3309: &V) -> V { (if (!(((o_IsK(p_cx_3307, p_p_3308, (&V::S(60))) && o_Col0(p_cx_3307, p_p_3308)) && ((((((p_cx_3307).f(0)).at((p_p_3308).i())).f(28)).i() - ((((p_cx_3307).f(0)).at((p_p_3308).i())).f(29)).i()) <= 6i64)) && o_IsKN(p_cx_3307, (&V::I(((p_p_3308).i() + 1i64))), (&V::S(42)), (&V::I(1))))) { o_Fail() } else { { let l_r_3362 = Lz::new(|| -> V { o_HeadingRun(p_cx_3307, (&V::I(((p_p_3308).i() + 2i64))), p_st_3309, (&V::I(0)), (&V::seq(vec![o_EvS((&V::S(46)), (&o_Content(p_cx_3307, p_p_3308, (&V::I(((p_p_3308).i() + 2i64))))))]))) });  o_Done(((&*l_r_3362)).f(14), (&(((&*l_r_3362)).f(17)).push(o_EvE((&V::S(46)), (&o_NoContent()))))) } }) }

pub fn o_ParaEnds(p_rows_11548: &V) -> V { V::set(((1i64)..=(((p_rows_11548).len() as i64))).map(V::I).filter(|p_i_11553| { ((((p_rows_11548).at((p_i_11553).i())).f(2)).is_sym(12) && (((p_rows_11548).at((p_i_11553).i())).f(4)).is_sym(44)) }).collect()) }

pub fn o_D_C32(p_o_19752: &V) -> bool { (((((p_o_19752).f(149)).len() as i64) == 3) && ((1i64)..=(3i64)).map(V::I).all_(|p_j_19762| { let p_j_19762 = &p_j_19762; (*((p_o_19752).f(149)).at((p_j_19762).i()) == *(p_o_19752).f(24)) })) }

pub fn o_C22Coll(p_o_15641: &V) -> bool { ((((((o_C22Premise(p_o_15641) && o_NoMeta((p_o_15641).f(6))) && (!(((p_o_15641).f(6)).len() == 0))) && (!(((((p_o_15641).f(6)).at(1i64)).i() == o_LF()) || ((((p_o_15641).f(6)).at(1i64)).i() == o_CR())))) && o_Complete((p_o_15641).f(56))) && o_Joinable((p_o_15641).f(56))) && (!(((p_o_15641).f(56)).len() == 0))) }

pub fn o_P_C32(p_o_19775: &V) -> bool { o_D_C32(p_o_19775) }

pub fn o_NextParaEnd(p_rows_11571: &V, p_i_11572: &V) -> V { ((&o_ParaEnds(p_rows_11571))).set_elems().into_iter().find(|p_j_11575| { (((p_j_11575).i() >= (p_i_11572).i()) && ((&o_ParaEnds(p_rows_11571))).set_elems().into_iter().all_(|p_k_11581| { let p_k_11581 = &p_k_11581; (!((p_k_11581).i() >= (p_i_11572).i()) || ((p_j_11575).i() <= (p_k_11581).i())) })) }).expect("oracle: CHOOSE") }

pub fn o_ThematicBreak(p_cx_3377: &V, p_p_3378: &V) -> V { (if (!o_IsKN0(p_cx_3377, p_p_3378, (&V::S(32)), (&V::I(5)))) { o_Fail() } else { o_Done((&V::I(((p_p_3378).i() + 1i64))), (&V::seq(vec![o_EvS((&V::S(51)), (&o_NoContent())), o_EvV((&o_Content(p_cx_3377, p_p_3378, (&V::I(((p_p_3378).i() + 1i64)))))), o_EvE((&V::S(51)), (&o_NoContent()))]))) }) }

pub fn o_Escaped(p_src_7504: &V) -> V { o_EscapedAcc(p_src_7504, (&V::I(1)), (&V::seq(vec![]))) }

pub fn o_InPara(p_r_11593: &V) -> bool { (((p_r_11593).f(14)).is_sym(44) || ((p_r_11593).f(81)).is_sym(44)) }

pub fn o_ModelMore(p_src_19779: &V, p_doc_19780: &V) -> V { V::rec(vec![(23, p_src_19779.clone()), (24, p_doc_19780.clone()), (149, V::seq(((1i64)..=(3i64)).map(V::I).map(|p_j_19791| { let p_j_19791 = &p_j_19791; o_Tree((&o_MoreEscapes(p_src_19779, p_j_19791))) }).collect()))]) }

pub fn o_Exchange() -> V { thread_local! { static C: V = V::rec(vec![(1, V::I(0)), (153, V::B(true))]); } C.with(|c| c.clone()) }

pub fn o_Exchanged(p_src_19808: &V) -> V { o_MapText((&o_Exchange()), p_src_19808) }

pub fn o_HasEscaped(p_src_7510: &V, p_esc_7511: &V, p_c_7512: &V) -> bool { ((1i64)..=(((p_src_7510).len() as i64))).map(V::I).any_(|p_i_7517| { let p_i_7517 = &p_i_7517; (((p_esc_7511).at((p_i_7517).i())).b() && (*(p_src_7510).at((p_i_7517).i()) == *p_c_7512)) }) }

pub fn o_WalkFrom(p_cx_7535: &V, p_i_7536: &V, p_k_7537: &V, p_acc_7538: &V) -> V { let mut st = (p_cx_7535.clone(), p_i_7536.clone(), p_k_7537.clone(), p_acc_7538.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_cx_7535, p_i_7536, p_k_7537, p_acc_7538,) = &st; (if ((p_i_7536).i() > (((p_cx_7535).f(17)).len() as i64)) { Ok({ let x286 = { let b287 = p_acc_7538; let b288 = b287.f(22); let n = V::B(((b288).b() && ((p_k_7537).i() == (((p_cx_7535).f(187)).len() as i64)))); b287.with_f(22, n) }; let x289 = { let b290 = (&x286); let b291 = b290.f(1); let n = p_k_7537.clone(); b290.with_f(1, n) };  x289 }) } else { { let l_e_7567 = Lz::new(|| -> V { ((p_cx_7535).f(17)).at((p_i_7536).i()).clone() }); let l_w_7573 = Lz::new(|| -> V { (((&*l_e_7567)).f(35)).f(36).clone() }); let l_n_7576 = Lz::new(|| -> i64 { (((&*l_w_7573)).len() as i64) }); let l_q_7615 = Lz::new(|| -> V { (if ((((((&*l_e_7567)).f(2)).is_sym(12) && (((&*l_e_7567)).f(4)).is_sym(54)) && ((p_i_7536).i() > 1i64)) && ((((p_cx_7535).f(17)).at(((p_i_7536).i() - 1i64))).f(4)).is_sym(15)) { V::I(((p_k_7537).i() + o_LineBreakLen((p_cx_7535).f(187), (&V::I(((p_k_7537).i() + 1i64)))))) } else { p_k_7537.clone() }) }); let l_good_7689 = Lz::new(|| -> bool { (((((*l_q_7615).clone()).i() + (*l_n_7576)) <= (((p_cx_7535).f(187)).len() as i64)) && ((1i64)..=((*l_n_7576))).map(V::I).all_(|p_j_7627| { let p_j_7627 = &p_j_7627; (*((p_cx_7535).f(187)).at((((*l_q_7615).clone()).i() + (p_j_7627).i())) == *((&*l_w_7573)).at((p_j_7627).i())) }) && (!(((*l_n_7576) > 0i64) && (!((((&*l_e_7567)).f(35)).f(39)).b())) || ((*(((&*l_e_7567)).f(35)).f(29) == *((p_cx_7535).f(188)).at((((p_cx_7535).f(189)).at((((*l_q_7615).clone()).i() + 1i64))).i())) && (*(((&*l_e_7567)).f(35)).f(28) == *((p_cx_7535).f(188)).at(((((p_cx_7535).f(189)).at((((*l_q_7615).clone()).i() + (*l_n_7576)))).i() + 1i64)))))) });  Err((p_cx_7535.clone(), V::I(((p_i_7536).i() + 1i64)), V::I((((*l_q_7615).clone()).i() + (*l_n_7576))), { let x292 = { let b293 = p_acc_7538; let b294 = b293.f(22); let n = V::B(((b294).b() && (*l_good_7689))); b293.with_f(22, n) }; let x295 = { let b296 = (&x292); let b297 = b296.f(156); let n = (b297).push((*l_q_7615).clone()); b296.with_f(156, n) };  x295 },)) } }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_P_C22(p_o_15682: &V) -> bool { ((!o_C22Premise(p_o_15682) || (*(p_o_15682).f(190) == *(&o_DocNode(((p_o_15682).f(191)).f(25), (&(((p_o_15682).f(191)).f(26)).cat(((p_o_15682).f(192)).f(26))))))) && (!o_C22Coll(p_o_15682) || (*(p_o_15682).f(193) == *(&o_DocNode((&V::seq(vec![])), (&V::seq(vec![o_CollNode((&V::seq(vec![V::I(116)])), (&(((p_o_15682).f(191)).f(26)).cat(((p_o_15682).f(192)).f(26))))]))))))) }

pub fn o_C33Premise(p_o_19813: &V) -> bool { ((1i64)..=((((p_o_19813).f(0)).len() as i64))).map(V::I).all_(|p_i_19820| { let p_i_19820 = &p_i_19820; (!((((((p_o_19813).f(0)).at((p_i_19820).i())).f(1)).is_sym(32) || ((((p_o_19813).f(0)).at((p_i_19820).i())).f(1)).is_sym(114))) || (!(((((((p_o_19813).f(0)).at((p_i_19820).i())).f(27)).i() - ((((p_o_19813).f(0)).at((p_i_19820).i())).f(6)).i()) == 3) || ((((((p_o_19813).f(0)).at((p_i_19820).i())).f(27)).i() - ((((p_o_19813).f(0)).at((p_i_19820).i())).f(6)).i()) == 5)))) }) }

pub fn o_ModelPair(p_a_15733: &V, p_b_15734: &V) -> V { V::rec(vec![(6, p_a_15733.clone()), (56, p_b_15734.clone()), (190, o_Tree((&o_JoinText(p_a_15733, p_b_15734)))), (191, o_Tree(p_a_15733)), (192, o_Tree(p_b_15734)), (193, o_Tree((&o_CollText(p_a_15733, p_b_15734))))]) }

pub fn o_CrLf(p_s_15763: &V) -> V { o_Replace(p_s_15763, (&V::seq(vec![V::I(o_LF())])), (&V::seq(vec![V::I(o_CR()), V::I(o_LF())]))) }

pub fn o_InCr(p_n_15775: &V) -> V { (if ((p_n_15775).f(62)).is_sym(47) { o_AnchorNode((&o_CrLf((p_n_15775).f(88))), (&o_CrLf((p_n_15775).f(89)))) } else if ((p_n_15775).f(62)).is_sym(45) { o_BoldNode((&V::seq(((1i64)..=((((p_n_15775).f(26)).len() as i64))).map(V::I).map(|p_i_15802| { let p_i_15802 = &p_i_15802; o_InCr(((p_n_15775).f(26)).at((p_i_15802).i())) }).collect()))) } else { o_LeafNode((p_n_15775).f(62), (&o_CrLf((p_n_15775).f(29)))) }) }

pub fn o_Image(p_cx_3406: &V, p_p_3407: &V, p_st_3408: &V) -> V { (if (!o_IsKN(p_cx_3406, p_p_3407, (&V::S(113)), (&V::I(1)))) { o_Fail() } else { { let l_r_3422 = Lz::new(|| -> V { o_TitleDestination(p_cx_3406, (&V::I(((p_p_3407).i() + 1i64))), p_st_3408) }); let l_s_3432 = Lz::new(|| -> V { V::seq(vec![o_EvS((&V::S(13)), (&o_Content(p_cx_3406, p_p_3407, (&V::I(((p_p_3407).i() + 1i64))))))]) });  (if (!(((&*l_r_3422)).f(22)).b()) { o_Fail() } else { (if o_IsK(p_cx_3406, ((&*l_r_3422)).f(14), (&V::S(43))) { o_Done((&V::I(((((&*l_r_3422)).f(14)).i() + 1i64))), (&((&((&*l_s_3432)).cat(((&*l_r_3422)).f(17)))).cat((&V::seq(vec![o_EvE((&V::S(13)), (&o_Content(p_cx_3406, ((&*l_r_3422)).f(14), (&V::I(((((&*l_r_3422)).f(14)).i() + 1i64))))))]))))) } else { (if o_AtEnd(p_cx_3406, ((&*l_r_3422)).f(14), p_st_3408) { o_Done(((&*l_r_3422)).f(14), (&((&((&*l_s_3432)).cat(((&*l_r_3422)).f(17)))).cat((&V::seq(vec![o_EvE((&V::S(13)), (&o_NoContent()))]))))) } else { o_Fail() }) }) }) } }) }

pub fn o_ImageRun(p_cx_3503: &V, p_p_3504: &V, p_st_3505: &V, p_n_3506: &V, p_ev_3507: &V) -> V { let mut st = (p_cx_3503.clone(), p_p_3504.clone(), p_st_3505.clone(), p_n_3506.clone(), p_ev_3507.clone(),); loop { let r: Result<V, (V, V, V, V, V,)> = { let (p_cx_3503, p_p_3504, p_st_3505, p_n_3506, p_ev_3507,) = &st; { let l_r_3512 = Lz::new(|| -> V { o_Image(p_cx_3503, p_p_3504, p_st_3505) });  (if (((&*l_r_3512)).f(22)).b() { Err((p_cx_3503.clone(), ((&*l_r_3512)).f(14).clone(), p_st_3505.clone(), V::I(((p_n_3506).i() + 1i64)), (p_ev_3507).cat(((&*l_r_3512)).f(17)),)) } else { Ok((if ((!o_AtEnd(p_cx_3503, p_p_3504, p_st_3505)) || ((p_n_3506).i() == 0)) { o_Fail() } else { (if ((p_n_3506).i() == 1) { o_Done(p_p_3504, p_ev_3507) } else { o_Done(p_p_3504, (&((&((&V::seq(vec![o_EvS((&V::S(16)), (&o_NoContent()))]))).cat(p_ev_3507))).cat((&V::seq(vec![o_EvE((&V::S(16)), (&o_NoContent()))]))))) }) })) }) } }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_D_C33(p_o_19854: &V) -> bool { (!o_C33Premise(p_o_19854) || ((*(p_o_19854).f(180) == *(&o_Exchanged((p_o_19854).f(23)))) && (*(&o_TkRows((p_o_19854).f(181))) == *(&o_MapTk((&o_Exchange()), (p_o_19854).f(0)))) && (*(&o_EvRows((p_o_19854).f(182))) == *(&o_MapEv((&o_Exchange()), (p_o_19854).f(17)))) && (*(p_o_19854).f(183) == *(&o_MapDoc((&o_Exchange()), (p_o_19854).f(24)))))) }

pub fn o_P_C33(p_o_19897: &V) -> bool { o_D_C33(p_o_19897) }

pub fn o_InsCr(p_b_15822: &V) -> V { V::seq(((1i64)..=(((p_b_15822).len() as i64))).map(V::I).map(|p_i_15827| { let p_i_15827 = &p_i_15827; o_InCr((p_b_15822).at((p_i_15827).i())) }).collect()) }

pub fn o_OptCr(p_x_15834: &V) -> V { (if ((p_x_15834).len() == 0) { p_x_15834.clone() } else { V::seq(vec![o_CrLf((p_x_15834).at(1i64))]) }) }

pub fn o_ListCr(p_l_15849: &V) -> V { o_ListNode((p_l_15849).f(93), (p_l_15849).f(92), (&V::seq(((1i64)..=((((p_l_15849).f(26)).len() as i64))).map(V::I).map(|p_i_15862| { let p_i_15862 = &p_i_15862; o_ItemNode((&o_InsCr((((p_l_15849).f(26)).at((p_i_15862).i())).f(88))), (&(if (((((p_l_15849).f(26)).at((p_i_15862).i())).f(94)).len() == 0) { V::seq(vec![]) } else { V::seq(vec![o_ListCr(((((p_l_15849).f(26)).at((p_i_15862).i())).f(94)).at(1i64))]) }))) }).collect()))) }

pub fn o_ModelExchanged(p_src_19901: &V, p_tk_19902: &V, p_ev_19903: &V, p_doc_19904: &V) -> V { { let l_r_19907 = Lz::new(|| -> V { o_Exchanged(p_src_19901) }); let l_rtk_19910 = Lz::new(|| -> V { o_Lex((&*l_r_19907)) }); let l_rev_19914 = Lz::new(|| -> V { o_ParseTokens((&*l_r_19907), (&*l_rtk_19910)) });  V::rec(vec![(0, p_tk_19902.clone()), (17, p_ev_19903.clone()), (23, p_src_19901.clone()), (24, p_doc_19904.clone()), (180, (*l_r_19907).clone()), (181, (*l_rtk_19910).clone()), (182, (*l_rev_19914).clone()), (183, ((&o_Build((&*l_rev_19914)))).f(86).clone())]) } }

pub fn o_Images(p_cx_3563: &V, p_p_3564: &V, p_st_3565: &V) -> V { o_ImageRun(p_cx_3563, p_p_3564, p_st_3565, (&V::I(0)), (&V::seq(vec![]))) }

pub fn o_CloseEnd(p_cx_3573: &V, p_q_3574: &V, p_st_3575: &V) -> i64 { (if o_IsK(p_cx_3573, (&V::I(((p_q_3574).i() + 1i64))), (&V::S(43))) { ((p_q_3574).i() + 2i64) } else { (if o_AtBoundary(p_cx_3573, (&V::I(((p_q_3574).i() + 1i64))), p_st_3575) { ((p_q_3574).i() + 1i64) } else { 0i64 }) }) }

pub fn o_BlCr(p_n_15899: &V) -> V { (if ((p_n_15899).f(62)).is_sym(44) { o_ParaNode((&o_InsCr((p_n_15899).f(26)))) } else if ((p_n_15899).f(62)).is_sym(46) { o_HeadNode((p_n_15899).f(92), (&o_InsCr((p_n_15899).f(26)))) } else if ((p_n_15899).f(62)).is_sym(13) { o_ImageNode((&o_CrLf((p_n_15899).f(95))), (&o_CrLf((p_n_15899).f(23)))) } else if ((p_n_15899).f(62)).is_sym(16) { o_ImagesNode((&V::seq(((1i64)..=((((p_n_15899).f(26)).len() as i64))).map(V::I).map(|p_i_15951| { let p_i_15951 = &p_i_15951; o_BlCr(((p_n_15899).f(26)).at((p_i_15951).i())) }).collect()))) } else if ((p_n_15899).f(62)).is_sym(48) { o_CodeNode((&o_CrLf((p_n_15899).f(63))), (&o_CrLf((p_n_15899).f(64)))) } else if ((p_n_15899).f(62)).is_sym(96) { o_ListCr(p_n_15899) } else if ((p_n_15899).f(62)).is_sym(52) { o_HighNode((&o_OptCr((p_n_15899).f(65))), (&o_OptCr((p_n_15899).f(97))), (&V::seq(((1i64)..=((((p_n_15899).f(26)).len() as i64))).map(V::I).map(|p_i_16003| { let p_i_16003 = &p_i_16003; o_BlCr(((p_n_15899).f(26)).at((p_i_16003).i())) }).collect()))) } else if ((p_n_15899).f(62)).is_sym(50) { o_EmbedNode((&o_CrLf((p_n_15899).f(93))), (&o_CrLf((p_n_15899).f(98)))) } else if ((p_n_15899).f(62)).is_sym(54) { o_CollNode((&o_CrLf((p_n_15899).f(65))), (&V::seq(((1i64)..=((((p_n_15899).f(26)).len() as i64))).map(V::I).map(|p_i_16043| { let p_i_16043 = &p_i_16043; o_BlCr(((p_n_15899).f(26)).at((p_i_16043).i())) }).collect()))) } else { p_n_15899.clone() }) }

pub fn o_Modifier(p_cx_3598: &V, p_p_3599: &V, p_st_3600: &V) -> V { (if o_Col0(p_cx_3598, p_p_3599) { o_Fail() } else { { let l_q_3609 = Lz::new(|| -> V { o_FindLineEnd(p_cx_3598, p_p_3599, p_st_3600) });  (if (((*l_q_3609).clone()).i() == 0) { o_Fail() } else { o_Done((&V::I((((*l_q_3609).clone()).i() + 1i64))), (&V::seq(vec![o_EvS((&V::S(49)), (&o_NoContent())), o_EvV((&o_Content(p_cx_3598, p_p_3599, (&*l_q_3609)))), o_EvE((&V::S(49)), (&o_Content(p_cx_3598, (&*l_q_3609), (&V::I((((*l_q_3609).clone()).i() + 1i64))))))]))) }) } }) }

pub fn o_Optional(p_r_3639: &V, p_p_3640: &V) -> V { (if ((p_r_3639).f(22)).b() { p_r_3639.clone() } else { o_Done(p_p_3640, (&V::seq(vec![]))) }) }

pub fn o_Walk(p_o_7714: &V) -> V { { let l_kept_7719 = Lz::new(|| -> V { o_Kept((p_o_7714).f(23)) });  o_WalkFrom((&V::rec(vec![(17, (p_o_7714).f(17).clone()), (187, o_Plain((p_o_7714).f(23), (&*l_kept_7719))), (188, o_Offsets((p_o_7714).f(23))), (189, (*l_kept_7719).clone())])), (&V::I(1)), (&V::I(0)), (&V::rec(vec![(1, V::I(0)), (22, V::B(true)), (156, V::seq(vec![]))]))) } }

pub fn o_D_C02(p_o_7757: &V) -> bool { (((&o_Walk(p_o_7757))).f(22)).b() }

pub fn o_P_C02(p_o_7763: &V) -> bool { o_D_C02(p_o_7763) }

pub fn o_P_C01(p_o_7767: &V) -> bool { ((p_o_7767).f(33)).b() }

pub fn o_IsS(p_ev_7772: &V, p_i_7773: &V, p_n_7774: &V) -> bool { (((((p_i_7773).i() >= 1i64) && ((p_i_7773).i() <= ((p_ev_7772).len() as i64))) && (((p_ev_7772).at((p_i_7773).i())).f(2)).is_sym(3)) && (*((p_ev_7772).at((p_i_7773).i())).f(4) == *p_n_7774)) }

pub fn o_IsE(p_ev_7800: &V, p_i_7801: &V, p_n_7802: &V) -> bool { (((((p_i_7801).i() >= 1i64) && ((p_i_7801).i() <= ((p_ev_7800).len() as i64))) && (((p_ev_7800).at((p_i_7801).i())).f(2)).is_sym(12)) && (*((p_ev_7800).at((p_i_7801).i())).f(4) == *p_n_7802)) }

pub fn o_Code(p_cx_3650: &V, p_p_3651: &V, p_st_3652: &V) -> V { (if (!o_IsKN0(p_cx_3650, p_p_3651, (&V::S(66)), (&V::I(3)))) { o_Fail() } else { { let l_bare_3666 = Lz::new(|| -> bool { o_IsK(p_cx_3650, (&V::I(((p_p_3651).i() + 1i64))), (&V::S(43))) }); let l_o_3675 = Lz::new(|| -> i64 { (if (*l_bare_3666) { ((p_p_3651).i() + 2i64) } else { ((p_p_3651).i() + 1i64) }) }); let l_m_3687 = Lz::new(|| -> V { (if (*l_bare_3666) { o_Done((&V::I((*l_o_3675))), (&V::seq(vec![]))) } else { o_Optional((&o_Modifier(p_cx_3650, (&V::I((*l_o_3675))), (&V::seq(vec![])))), (&V::I((*l_o_3675)))) }) }); let l_q_3697 = Lz::new(|| -> V { o_Find(p_cx_3650, ((&*l_m_3687)).f(14), (&V::seq(vec![])), (&V::S(66)), (&V::I(3)), (&V::B(true))) });  (if (((*l_q_3697).clone()).i() == 0) { o_Fail() } else { { let l_z_3706 = Lz::new(|| -> i64 { o_CloseEnd(p_cx_3650, (&*l_q_3697), p_st_3652) });  (if ((*l_z_3706) == 0) { o_Fail() } else { o_Done((&V::I((*l_z_3706))), (&((&((&V::seq(vec![o_EvS((&V::S(48)), (&o_Content(p_cx_3650, p_p_3651, (&V::I((*l_o_3675))))))]))).cat(((&*l_m_3687)).f(17)))).cat((&V::seq(vec![o_EvV((&o_Content(p_cx_3650, ((&*l_m_3687)).f(14), (&*l_q_3697)))), o_EvE((&V::S(48)), (&o_Content(p_cx_3650, (&*l_q_3697), (&V::I((*l_z_3706))))))]))))) }) } }) } }) }

pub fn o_IsV(p_ev_7828: &V, p_i_7829: &V) -> bool { ((((p_i_7829).i() >= 1i64) && ((p_i_7829).i() <= ((p_ev_7828).len() as i64))) && (((p_ev_7828).at((p_i_7829).i())).f(2)).is_sym(30)) }

pub fn o_RawKinds() -> V { thread_local! { static C: V = V::set(vec![V::S(5), V::S(10), V::S(72), V::S(73), V::S(90), V::S(91), V::S(21), V::S(51), V::S(49), V::S(53)]); } C.with(|c| c.clone()) }

pub fn o_InlineKinds() -> V { thread_local! { static C: V = V::set(vec![V::S(45), V::S(72), V::S(73), V::S(90), V::S(91)]); } C.with(|c| c.clone()) }

pub fn o_ListKinds() -> V { thread_local! { static C: V = V::set(vec![V::S(115), V::S(87)]); } C.with(|c| c.clone()) }

pub fn o_D_C10(p_o_11606: &V) -> bool { { let l_rows_11609 = Lz::new(|| -> V { o_Rows(p_o_11606) }); let l_po_11614 = Lz::new(|| -> V { o_Places((p_o_11606).f(0)) }); let l_N_11619 = Lz::new(|| -> i64 { (((p_o_11606).f(0)).len() as i64) }); let l_Marks_11648 = |p_n_11620: &V, p_a_11621: &V, p_z_11622: &V| -> V { V::set(((1i64)..=((*l_N_11619))).map(V::I).filter(|p_i_11626| { ((((((&*l_po_11614)).at((p_i_11626).i())).i() >= (p_a_11621).i()) && ((((&*l_po_11614)).at((p_i_11626).i())).i() < (p_z_11622).i())) && (*(&o_InlineMark(((p_o_11606).f(0)).at((p_i_11626).i()))) == *p_n_11620)) }).collect()) }; let l_Endpos_11657 = |p_i_11649: &V| -> V { (((&*l_rows_11609)).at((o_NextParaEnd((&*l_rows_11609), p_i_11649)).i())).f(6).clone() };  ((1i64)..=((((&*l_rows_11609)).len() as i64))).map(V::I).all_(|p_i_11662| { let p_i_11662 = &p_i_11662; { let l_r_11666 = Lz::new(|| -> V { ((&*l_rows_11609)).at((p_i_11662).i()).clone() });  (if ((((&*l_r_11666)).f(2)).is_sym(3) && (((((&*l_r_11666)).f(4)).is_sym(73) || (((&*l_r_11666)).f(4)).is_sym(72) || (((&*l_r_11666)).f(4)).is_sym(90) || (((&*l_r_11666)).f(4)).is_sym(91)))) { (((((&*l_r_11666)).f(14)).is_sym(44) || ((((&*l_r_11666)).f(14)).is_sym(45) && (((((&*l_r_11666)).f(4)).is_sym(73) || (((&*l_r_11666)).f(4)).is_sym(72))))) && (!(*(&l_Marks_11648(((&*l_r_11666)).f(4), ((&*l_r_11666)).f(6), (&V::I(((((&*l_r_11666)).f(6)).i() + 1i64))))) == *(&V::set(vec![])))) && (((p_i_11662).i() + 2i64) <= (((&*l_rows_11609)).len() as i64)) && { let l_z_11728 = Lz::new(|| -> V { (((&*l_rows_11609)).at(((p_i_11662).i() + 2i64))).f(6).clone() });  ((((((&*l_rows_11609)).at(((p_i_11662).i() + 2i64))).f(2)).is_sym(12) && (*(((&*l_rows_11609)).at(((p_i_11662).i() + 2i64))).f(4) == *((&*l_r_11666)).f(4))) && (!(*(&l_Marks_11648(((&*l_r_11666)).f(4), (&*l_z_11728), (&V::I((((*l_z_11728).clone()).i() + 1i64))))) == *(&V::set(vec![])))) && (*(&l_Marks_11648(((&*l_r_11666)).f(4), (&V::I(((((&*l_r_11666)).f(6)).i() + o_MarkLen(((&*l_r_11666)).f(4))))), (&*l_z_11728))) == *(&V::set(vec![]))) && (!((1i64)..=((*l_N_11619))).map(V::I).any_(|p_t_11778| { let p_t_11778 = &p_t_11778; ((((((&*l_po_11614)).at((p_t_11778).i())).i() >= (((&*l_r_11666)).f(6)).i()) && ((((&*l_po_11614)).at((p_t_11778).i())).i() < ((*l_z_11728).clone()).i())) && ((((p_o_11606).f(0)).at((p_t_11778).i())).f(1)).is_sym(59)) }))) }) } else if ((((&*l_r_11666)).f(2)).is_sym(3) && (((&*l_r_11666)).f(4)).is_sym(45)) { ((((&*l_r_11666)).f(14)).is_sym(44) && (!(*(&l_Marks_11648((&V::S(45)), ((&*l_r_11666)).f(6), (&V::I(((((&*l_r_11666)).f(6)).i() + 1i64))))) == *(&V::set(vec![]))))) } else if ((((&*l_r_11666)).f(2)).is_sym(12) && (((&*l_r_11666)).f(4)).is_sym(45)) { (!(*(&l_Marks_11648((&V::S(45)), ((&*l_r_11666)).f(6), (&V::I(((((&*l_r_11666)).f(6)).i() + 1i64))))) == *(&V::set(vec![])))) } else if ((((&*l_r_11666)).f(2)).is_sym(30) && (((&*l_r_11666)).f(14)).is_sym(44)) { [V::S(73), V::S(72), V::S(90), V::S(91)].into_iter().all_(|p_n_11878| { let p_n_11878 = &p_n_11878; ((&l_Marks_11648(p_n_11878, ((&*l_r_11666)).f(6), (&V::I(((((&*l_r_11666)).f(6)).i() + ((((&*l_r_11666)).f(36)).len() as i64))))))).set_elems().into_iter().all_(|p_t_11892| { let p_t_11892 = &p_t_11892; (*(&l_Marks_11648(p_n_11878, (&V::I(((((&*l_po_11614)).at((p_t_11892).i())).i() + 1i64))), (&l_Endpos_11657(p_i_11662)))) == *(&V::set(vec![]))) }) }) } else if ((((&*l_r_11666)).f(2)).is_sym(30) && (((&*l_r_11666)).f(14)).is_sym(45)) { ((*(&l_Marks_11648((&V::S(45)), ((&*l_r_11666)).f(6), (&V::I(((((&*l_r_11666)).f(6)).i() + ((((&*l_r_11666)).f(36)).len() as i64)))))) == *(&V::set(vec![]))) && [V::S(73), V::S(72)].into_iter().all_(|p_n_11936| { let p_n_11936 = &p_n_11936; ((&l_Marks_11648(p_n_11936, ((&*l_r_11666)).f(6), (&V::I(((((&*l_r_11666)).f(6)).i() + ((((&*l_r_11666)).f(36)).len() as i64))))))).set_elems().into_iter().all_(|p_t_11950| { let p_t_11950 = &p_t_11950; (*(&l_Marks_11648(p_n_11936, (&V::I(((((&*l_po_11614)).at((p_t_11950).i())).i() + 1i64))), (&l_Endpos_11657(p_i_11662)))) == *(&V::set(vec![]))) }) })) } else { true }) } }) } }

pub fn o_X_C10(p_o_11973: &V) -> bool { o_Same(p_o_11973, (&V::S(164))) }

pub fn o_BlockKinds() -> V { thread_local! { static C: V = V::set(vec![V::S(44), V::S(46), V::S(13), V::S(16), V::S(48), V::S(115), V::S(87), V::S(52), V::S(51), V::S(50), V::S(54)]); } C.with(|c| c.clone()) }

pub fn o_DocCr(p_d_16056: &V) -> V { o_DocNode((&o_OptCr((p_d_16056).f(25))), (&V::seq(((1i64)..=((((p_d_16056).f(26)).len() as i64))).map(V::I).map(|p_i_16067| { let p_i_16067 = &p_i_16067; o_BlCr(((p_d_16056).f(26)).at((p_i_16067).i())) }).collect()))) }

pub fn o_P_C10(p_o_11978: &V) -> bool { (o_X_C10(p_o_11978) && o_D_C10(p_o_11978)) }

pub fn o_DepthAt(p_tk_11991: &V, p_i_11992: &V, p_z_11993: &V, p_d_11994: &V) -> V { let mut st = (p_tk_11991.clone(), p_i_11992.clone(), p_z_11993.clone(), p_d_11994.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_tk_11991, p_i_11992, p_z_11993, p_d_11994,) = &st; (if (((p_i_11992).i() >= (p_z_11993).i()) || ((p_d_11994).i() == 0)) { Ok(p_d_11994.clone()) } else { Err((p_tk_11991.clone(), V::I(((p_i_11992).i() + 1i64)), p_z_11993.clone(), (if (((p_tk_11991).at((p_i_11992).i())).f(1)).is_sym(9) { V::I(((p_d_11994).i() + 1i64)) } else { (if (((p_tk_11991).at((p_i_11992).i())).f(1)).is_sym(11) { V::I(((p_d_11994).i() - 1i64)) } else { p_d_11994.clone() }) }),)) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_C23Premise(p_src_16077: &V) -> bool { ((!o_HasChar(p_src_16077, (&V::I(o_CR())))) && (!o_HasEscaped(p_src_16077, (&o_Escaped(p_src_16077)), (&V::I(o_LF()))))) }

pub fn o_P_C23(p_o_16090: &V) -> bool { (!o_C23Premise((p_o_16090).f(23)) || (*(p_o_16090).f(194) == *(&o_DocCr((p_o_16090).f(24))))) }

pub fn o_Members(p_n_7883: &V) -> V { (if (p_n_7883).is_sym(15) { o_BlockKinds() } else if (p_n_7883).is_sym(44) { V::set([V::S(47)].into_iter().chain(((&o_InlineKinds())).set_elems().into_iter()).collect()) } else if (p_n_7883).is_sym(45) { V::set(vec![V::S(72), V::S(73)]) } else if (p_n_7883).is_sym(46) { V::set(vec![V::S(47)]) } else if (p_n_7883).is_sym(16) { V::set(vec![V::S(13)]) } else if (p_n_7883).is_sym(52) { V::set(vec![V::S(44)]) } else if (((&o_ListKinds())).contains(p_n_7883)) { V::set(vec![V::S(20)]) } else { V::set(vec![]) }) }

pub fn o_Embed(p_cx_3745: &V, p_p_3746: &V, p_st_3747: &V) -> V { (if (!o_IsKN0(p_cx_3745, p_p_3746, (&V::S(111)), (&V::I(2)))) { o_Fail() } else { { let l_b_3764 = Lz::new(|| -> V { o_Find(p_cx_3745, (&V::I(((p_p_3746).i() + 1i64))), p_st_3747, (&V::S(57)), (&V::I(1)), (&V::B(false))) });  (if (((*l_b_3764).clone()).i() == 0) { o_Fail() } else { { let l_q_3778 = Lz::new(|| -> V { o_Find(p_cx_3745, (&V::I((((*l_b_3764).clone()).i() + 1i64))), p_st_3747, (&V::S(58)), (&V::I(2)), (&V::B(false))) });  (if (((*l_q_3778).clone()).i() == 0) { o_Fail() } else { { let l_z_3787 = Lz::new(|| -> i64 { o_CloseEnd(p_cx_3745, (&*l_q_3778), p_st_3747) });  (if ((*l_z_3787) == 0) { o_Fail() } else { o_Done((&V::I((*l_z_3787))), (&V::seq(vec![o_EvS((&V::S(50)), (&o_Content(p_cx_3745, p_p_3746, (&V::I(((p_p_3746).i() + 1i64)))))), o_EvV((&o_Content(p_cx_3745, (&V::I(((p_p_3746).i() + 1i64))), (&*l_b_3764)))), o_EvV((&o_Content(p_cx_3745, (&*l_b_3764), (&V::I((((*l_b_3764).clone()).i() + 1i64)))))), o_EvV((&o_Content(p_cx_3745, (&V::I((((*l_b_3764).clone()).i() + 1i64))), (&*l_q_3778)))), o_EvE((&V::S(50)), (&o_Content(p_cx_3745, (&*l_q_3778), (&V::I((*l_z_3787))))))]))) }) } }) } }) } }) }

pub fn o_NoEdgeBreak(p_s_16105: &V) -> bool { ((((p_s_16105).len() as i64) == 0) || ((!((((p_s_16105).at(1i64)).i() == o_LF()) || (((p_s_16105).at(1i64)).i() == o_CR()))) && (!((((p_s_16105).at(((p_s_16105).len() as i64))).i() == o_LF()) || (((p_s_16105).at(((p_s_16105).len() as i64))).i() == o_CR()))))) }

pub fn o_TextIn(p_n_7932: &V) -> bool { (((p_n_7932).is_sym(15) || (p_n_7932).is_sym(44) || (p_n_7932).is_sym(45) || (p_n_7932).is_sym(46) || (p_n_7932).is_sym(52))) }

pub fn o_G(p_ev_8103: &V, p_i_8104: &V) -> i64 { { let l_n_8110 = Lz::new(|| -> V { ((p_ev_8103).at((p_i_8104).i())).f(4).clone() }); let l_b_8114 = Lz::new(|| -> i64 { ((p_i_8104).i() + 1i64) });  (if (((&o_RawKinds())).contains((&*l_n_8110))) { o_GEnd(p_ev_8103, (&V::I(o_GText(p_ev_8103, (&V::I((*l_b_8114)))))), (&*l_n_8110)) } else if ((((&*l_n_8110)).is_sym(47))) { o_GEnd(p_ev_8103, (&V::I(o_GIf(p_ev_8103, (&V::I(o_GIf(p_ev_8103, (&V::I((*l_b_8114))), (&V::S(5))))), (&V::S(10))))), (&*l_n_8110)) } else if ((&*l_n_8110)).is_sym(13) { o_GEnd(p_ev_8103, (&V::I(o_GIf(p_ev_8103, (&V::I(o_GIf(p_ev_8103, (&V::I((*l_b_8114))), (&V::S(5))))), (&V::S(10))))), (&*l_n_8110)) } else if ((&*l_n_8110)).is_sym(20) { o_GEnd(p_ev_8103, (&o_GOpt(p_ev_8103, (&V::I(o_GIf(p_ev_8103, (&V::I((*l_b_8114))), (&V::S(44))))), (&o_ListKinds()))), (&*l_n_8110)) } else if ((&*l_n_8110)).is_sym(48) { o_GEnd(p_ev_8103, (&V::I(o_GText(p_ev_8103, (&o_GOpt(p_ev_8103, (&V::I((*l_b_8114))), (&V::set(vec![V::S(49)]))))))), (&*l_n_8110)) } else if ((&*l_n_8110)).is_sym(50) { o_GEnd(p_ev_8103, (&V::I(o_GText(p_ev_8103, (&V::I(o_GText(p_ev_8103, (&V::I(o_GText(p_ev_8103, (&V::I((*l_b_8114)))))))))))), (&*l_n_8110)) } else if ((&*l_n_8110)).is_sym(54) { o_GEnd(p_ev_8103, (&V::I(o_GIf(p_ev_8103, (&o_GOpt(p_ev_8103, (&V::I((*l_b_8114))), (&V::set(vec![V::S(49)])))), (&V::S(15))))), (&*l_n_8110)) } else if ((&*l_n_8110)).is_sym(52) { o_GMany(p_ev_8103, (&o_GOpt(p_ev_8103, (&o_GOpt(p_ev_8103, (&V::I((*l_b_8114))), (&V::set(vec![V::S(49)])))), (&V::set(vec![V::S(53)])))), (&*l_n_8110), (&V::I(0))) } else if ((&*l_n_8110)).is_sym(16) { o_GMany(p_ev_8103, (&V::I((*l_b_8114))), (&*l_n_8110), (&V::I(2))) } else if (((&o_ListKinds())).contains((&*l_n_8110))) { o_GMany(p_ev_8103, (&V::I((*l_b_8114))), (&*l_n_8110), (&V::I(1))) } else if ((((&*l_n_8110)).is_sym(15) || ((&*l_n_8110)).is_sym(44) || ((&*l_n_8110)).is_sym(45) || ((&*l_n_8110)).is_sym(46))) { o_GMany(p_ev_8103, (&V::I((*l_b_8114))), (&*l_n_8110), (&V::I(0))) } else { 0i64 }) } }

pub fn o_TokenAt(p_po_12033: &V, p_a_12034: &V) -> V { ((1i64)..=(((p_po_12033).len() as i64))).map(V::I).find(|p_i_12039| { (*(p_po_12033).at((p_i_12039).i()) == *p_a_12034) }).expect("oracle: CHOOSE") }

pub fn o_GMany(p_ev_8034: &V, p_i_8035: &V, p_n_8036: &V, p_m_8037: &V) -> i64 { let mut st = (p_ev_8034.clone(), p_i_8035.clone(), p_n_8036.clone(), p_m_8037.clone(),); loop { let r: Result<i64, (V, V, V, V,)> = { let (p_ev_8034, p_i_8035, p_n_8036, p_m_8037,) = &st; (if (((p_i_8035).i() == 0) || ((p_i_8035).i() > ((p_ev_8034).len() as i64))) { Ok(0i64) } else { (if (((p_ev_8034).at((p_i_8035).i())).f(2)).is_sym(30) { (if o_TextIn(p_n_8036) { Err((p_ev_8034.clone(), V::I(((p_i_8035).i() + 1i64)), p_n_8036.clone(), p_m_8037.clone(),)) } else { Ok(0i64) }) } else { (if (((p_ev_8034).at((p_i_8035).i())).f(2)).is_sym(3) { (if (((&o_Members(p_n_8036))).contains(((p_ev_8034).at((p_i_8035).i())).f(4))) { Err((p_ev_8034.clone(), V::I(o_G(p_ev_8034, p_i_8035)), p_n_8036.clone(), V::I(((p_m_8037).i() - 1i64)),)) } else { Ok(0i64) }) } else { Ok((if ((p_m_8037).i() <= 0i64) { o_GEnd(p_ev_8034, p_i_8035, p_n_8036) } else { 0i64 })) }) }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_GIf(p_ev_7952: &V, p_i_7953: &V, p_n_7954: &V) -> i64 { (if (((p_i_7953).i() > 0i64) && o_IsS(p_ev_7952, p_i_7953, p_n_7954)) { o_G(p_ev_7952, p_i_7953) } else { 0i64 }) }

pub fn o_Icon(p_cx_3838: &V, p_p_3839: &V, p_st_3840: &V) -> V { (if (!(o_IsKN0(p_cx_3838, p_p_3839, (&V::S(113)), (&V::I(1))) && o_IsKN(p_cx_3838, (&V::I(((p_p_3839).i() + 1i64))), (&V::S(42)), (&V::I(1))))) { o_Fail() } else { { let l_q_3868 = Lz::new(|| -> V { o_Find(p_cx_3838, (&V::I(((p_p_3839).i() + 2i64))), (&(p_st_3840).cat((&V::seq(vec![o_StopTerm()])))), (&V::S(43)), (&V::I(0)), (&V::B(false))) });  (if (((*l_q_3868).clone()).i() == 0) { o_Fail() } else { o_Done((&V::I((((*l_q_3868).clone()).i() + 1i64))), (&V::seq(vec![o_EvS((&V::S(53)), (&o_Content(p_cx_3838, p_p_3839, (&V::I(((p_p_3839).i() + 2i64)))))), o_EvV((&o_Content(p_cx_3838, (&V::I(((p_p_3839).i() + 2i64))), (&*l_q_3868)))), o_EvE((&V::S(53)), (&o_Content(p_cx_3838, (&*l_q_3868), (&V::I((((*l_q_3868).clone()).i() + 1i64))))))]))) }) } }) }

pub fn o_GOpt(p_ev_7969: &V, p_i_7970: &V, p_ns_7971: &V) -> V { (if (((((p_i_7970).i() > 0i64) && ((p_i_7970).i() <= ((p_ev_7969).len() as i64))) && (((p_ev_7969).at((p_i_7970).i())).f(2)).is_sym(3)) && ((p_ns_7971).contains(((p_ev_7969).at((p_i_7970).i())).f(4)))) { V::I(o_G(p_ev_7969, p_i_7970)) } else { p_i_7970.clone() }) }

pub fn o_HighlightRun(p_cx_3911: &V, p_p_3912: &V, p_st_3913: &V, p_ev_3914: &V) -> V { let mut st = (p_cx_3911.clone(), p_p_3912.clone(), p_st_3913.clone(), p_ev_3914.clone(),); loop { let r: Result<V, (V, V, V, V,)> = { let (p_cx_3911, p_p_3912, p_st_3913, p_ev_3914,) = &st; (if o_AtEnd(p_cx_3911, p_p_3912, p_st_3913) { Ok(o_Fail()) } else { (if o_IsKN0(p_cx_3911, p_p_3912, (&V::S(113)), (&V::I(2))) { Ok({ let l_z_3938 = Lz::new(|| -> i64 { (if o_IsK(p_cx_3911, (&V::I(((p_p_3912).i() + 1i64))), (&V::S(43))) { ((p_p_3912).i() + 2i64) } else { ((p_p_3912).i() + 1i64) }) });  o_Done((&V::I((*l_z_3938))), (&(p_ev_3914).push(o_EvE((&V::S(52)), (&o_Content(p_cx_3911, p_p_3912, (&V::I((*l_z_3938))))))))) }) } else { { let l_sep_3954 = Lz::new(|| -> bool { o_IsK(p_cx_3911, p_p_3912, (&V::S(59))) }); let l_q_3961 = Lz::new(|| -> V { (if (*l_sep_3954) { V::I(((p_p_3912).i() + 1i64)) } else { p_p_3912.clone() }) }); let l_s_3971 = Lz::new(|| -> V { (if (*l_sep_3954) { V::seq(vec![o_EvV((&o_Content(p_cx_3911, p_p_3912, (&*l_q_3961))))]) } else { V::seq(vec![]) }) }); let l_r_3980 = Lz::new(|| -> V { o_Paragraph(p_cx_3911, (&*l_q_3961), (&(p_st_3913).cat((&V::seq(vec![o_StopHigh(), o_StopTerm()]))))) });  Err((p_cx_3911.clone(), ((&*l_r_3980)).f(14).clone(), p_st_3913.clone(), ((&(p_ev_3914).cat((&*l_s_3971)))).cat(((&*l_r_3980)).f(17)),)) } }) }) }; match r { Ok(v) => return v, Err(n) => st = n } } }

pub fn o_RuleInlines(p_b_16128: &V) -> bool { (o_NoTwin(p_b_16128) && ((1i64)..=(((p_b_16128).len() as i64))).map(V::I).all_(|p_i_16135| { let p_i_16135 = &p_i_16135; ((!(((p_b_16128).at((p_i_16135).i())).f(62)).is_sym(85) || (!((((p_b_16128).at((p_i_16135).i())).f(29)).len() == 0))) && (!(((p_b_16128).at((p_i_16135).i())).f(62)).is_sym(45) || (o_NoTwin(((p_b_16128).at((p_i_16135).i())).f(26)) && ((1i64)..=(((((p_b_16128).at((p_i_16135).i())).f(26)).len() as i64))).map(V::I).all_(|p_j_16172| { let p_j_16172 = &p_j_16172; (!(((((p_b_16128).at((p_i_16135).i())).f(26)).at((p_j_16172).i())).f(62)).is_sym(85) || (!((((((p_b_16128).at((p_i_16135).i())).f(26)).at((p_j_16172).i())).f(29)).len() == 0))) })))) })) }

pub fn o_RuleList(p_l_16207: &V, p_lv_16208: &V) -> bool { (((*(p_l_16207).f(92) == *p_lv_16208) && (!(((p_l_16207).f(26)).len() == 0))) && ((1i64)..=((((p_l_16207).f(26)).len() as i64))).map(V::I).all_(|p_i_16226| { let p_i_16226 = &p_i_16226; (o_RuleInlines((((p_l_16207).f(26)).at((p_i_16226).i())).f(88)) && (!(!(((((p_l_16207).f(26)).at((p_i_16226).i())).f(94)).len() == 0)) || o_RuleList(((((p_l_16207).f(26)).at((p_i_16226).i())).f(94)).at(1i64), (&V::I(((p_lv_16208).i() + 1i64)))))) })) }

pub fn o_GEnd(p_ev_8002: &V, p_i_8003: &V, p_n_8004: &V) -> i64 { (if (((p_i_8003).i() > 0i64) && o_IsE(p_ev_8002, p_i_8003, p_n_8004)) { ((p_i_8003).i() + 1i64) } else { 0i64 }) }

pub fn o_GText(p_ev_8019: &V, p_i_8020: &V) -> i64 { (if (((p_i_8020).i() > 0i64) && o_IsV(p_ev_8019, p_i_8020)) { ((p_i_8020).i() + 1i64) } else { 0i64 }) }

pub fn o_RuleBlock(p_n_16265: &V, p_el_16266: &V) -> bool { (if ((p_n_16265).f(62)).is_sym(44) { ((!(((p_n_16265).f(26)).len() == 0)) && o_RuleInlines((p_n_16265).f(26))) } else if ((p_n_16265).f(62)).is_sym(46) { ({ let t298 = ((p_n_16265).f(92)).i(); t298 >= 1i64 && t298 <= 6i64 } && o_RuleInlines((p_n_16265).f(26))) } else if ((p_n_16265).f(62)).is_sym(16) { ((((p_n_16265).f(26)).len() as i64) >= 2i64) } else if ((p_n_16265).f(62)).is_sym(48) { ((!((((p_n_16265).f(64)).len() as i64) > 0i64) || (!(((((p_n_16265).f(64)).at((((p_n_16265).f(64)).len() as i64))).i() == o_LF()) || ((((p_n_16265).f(64)).at((((p_n_16265).f(64)).len() as i64))).i() == o_CR())))) && ((p_el_16266).b() || (!o_HasChar((p_n_16265).f(63), (&V::I(o_LF())))))) } else if ((p_n_16265).f(62)).is_sym(96) { o_RuleList(p_n_16265, (&V::I(0))) } else if ((p_n_16265).f(62)).is_sym(52) { ((((((p_n_16265).f(65)).len() == 0) || (p_el_16266).b()) || (!o_HasChar(((p_n_16265).f(65)).at(1i64), (&V::I(o_LF()))))) && (((((p_n_16265).f(97)).len() == 0) || (p_el_16266).b()) || (!o_HasChar(((p_n_16265).f(97)).at(1i64), (&V::I(o_LF()))))) && ((1i64)..=((((p_n_16265).f(26)).len() as i64))).map(V::I).all_(|p_i_16399| { let p_i_16399 = &p_i_16399; o_RuleInlines((((p_n_16265).f(26)).at((p_i_16399).i())).f(26)) })) } else if ((p_n_16265).f(62)).is_sym(54) { (((p_el_16266).b() || (!o_HasChar((p_n_16265).f(65), (&V::I(o_LF()))))) && ((1i64)..=((((p_n_16265).f(26)).len() as i64))).map(V::I).all_(|p_i_16430| { let p_i_16430 = &p_i_16430; o_RuleBlock(((p_n_16265).f(26)).at((p_i_16430).i()), p_el_16266) })) } else { true }) }

pub fn o_Highlight(p_cx_3997: &V, p_p_3998: &V, p_st_3999: &V) -> V { (if (!(o_IsKN0(p_cx_3997, p_p_3998, (&V::S(113)), (&V::I(2))) && (o_IsKN(p_cx_3997, (&V::I(((p_p_3998).i() + 1i64))), (&V::S(42)), (&V::I(1))) || o_IsK(p_cx_3997, (&V::I(((p_p_3998).i() + 1i64))), (&V::S(43)))))) { o_Fail() } else { { let l_m_4044 = Lz::new(|| -> V { (if o_IsK(p_cx_3997, (&V::I(((p_p_3998).i() + 1i64))), (&V::S(43))) { o_Done((&V::I(((p_p_3998).i() + 2i64))), (&V::seq(vec![]))) } else { o_Optional((&o_Modifier(p_cx_3997, (&V::I(((p_p_3998).i() + 2i64))), p_st_3999)), (&V::I(((p_p_3998).i() + 2i64)))) }) }); let l_i_4055 = Lz::new(|| -> V { o_Optional((&o_Icon(p_cx_3997, ((&*l_m_4044)).f(14), p_st_3999)), ((&*l_m_4044)).f(14)) });  (if (!o_Col0(p_cx_3997, ((&*l_i_4055)).f(14))) { o_Fail() } else { o_HighlightRun(p_cx_3997, ((&*l_i_4055)).f(14), p_st_3999, (&((&((&V::seq(vec![o_EvS((&V::S(52)), (&o_Content(p_cx_3997, p_p_3998, (&V::I(((p_p_3998).i() + 2i64))))))]))).cat(((&*l_m_4044)).f(17)))).cat(((&*l_i_4055)).f(17)))) }) } }) }

pub fn o_ListFrom(p_cx_4219: &V, p_p_4220: &V, p_st_4221: &V, p_lv_4222: &V) -> V { (if (!o_ListMarkerAt(p_cx_4219, p_p_4220, p_lv_4222, (&V::S(118)))) { o_Fail() } else { { let l_kd_4240 = Lz::new(|| -> V { o_MarkerKind(p_cx_4219, (&(if ((p_lv_4222).i() == 0) { p_p_4220.clone() } else { V::I(((p_p_4220).i() + 1i64)) }))) });  o_ListRun(p_cx_4219, p_p_4220, p_st_4221, p_lv_4222, (&*l_kd_4240), (&V::seq(vec![o_EvS((&*l_kd_4240), (&o_NoContent()))]))) } }) }

pub static SYMS: &[&str] = &["tk", "k", "o", "S", "n", "Title", "a", "LeftSquareBracket", "RightSquareBracket", "LeftParenthesis", "Destination", "RightParenthesis", "E", "Image", "p", "Document", "Images", "ev", "C11", "c", "ListItem", "Metadata", "ok", "src", "doc", "meta", "body", "z", "e", "s", "V", "open", "Minus", "fin", "Literal", "x", "w", "ps", "agree", "m", "f", "CollapsibleStart", "Space", "Eol", "Paragraph", "Bold", "Heading", "Anchor", "Code", "Modifier", "Embed", "ThematicBreak", "Highlight", "Icon", "Collapsible", "CollapsibleEnd", "b", "Pipe", "RightCurlyBrace", "Terminator", "Hash", "C12", "t", "lang", "code", "title", "Backtick", "list", "images", "break", "heading", "paragraph", "Italic", "Strikethrough", "finish", "close", "abandon", "separator", "reject", "embed", "highlight", "g", "iok", "idoc", "C13", "Text", "tree", "OrderedList", "text", "url", "CodeSpan", "Emphasis", "level", "kind", "nested", "alt", "List", "icon", "args", "after", "C14", "lv", "t1", "t2", "o1", "o2", "Yamd", "stack", "err", "Tilde", "Star", "LeftCurlyBrace", "GreaterThan", "Bang", "Plus", "UnorderedList", "Underscore", "r", "", "C15", "i", "row", "col", "lit", "pend", "out", "given", "parts", "cuts", "l", "ej", "ea", "eb", "C16", "C16all", "linebreak", "pair", "escape", "run", "single", "ordinary", "C17", "doc2", "out2", "kd", "HighlightEnd", "ListBoundary", "*", "dp", "docs", "aev", "adoc", "plain", "swap", "j", "kv", "at", "v", "type", "value", "nested_list", "list_type", "Ordered", "Unordered", "C10", "ListHead", "Item", "metadata", "kinds", "content", "Materialized", "Span", "end", "start", "Start", "End", "Value", "back", "jd", "je", "rsrc", "rtk", "rev", "rdoc", "rout", "alone", "inside", "pl", "off", "kept", "dj", "da", "db", "dc", "cdoc"];

pub const SPEC_HASH: &str = "20f30b9fa24530dedda61a5cbdde49b29db81d0a75d7f9d4cd2138a34c4f5ef3";

// generated by vf/catalog.py
#pragma once
namespace vf {
using L_S1 = vf::Plain<std::string>;
using L_S2 = vf::Plain<std::string, std::string>;
using L_S3 = vf::Plain<std::string, std::string, std::string>;
using L_S4 = vf::Plain<std::string, std::string, std::string, std::string>;
using L_S5 = vf::Plain<std::string, std::string, std::string, std::string, std::string>;
using L_S6 = vf::Plain<std::string, std::string, std::string, std::string, std::string, std::string>;
using L_S7 = vf::Plain<std::string, std::string, std::string, std::string, std::string, std::string, std::string>;
using L_V1 = vf::Plain<std::string_view>;
using L_V2 = vf::Plain<std::string_view, std::string_view>;
using L_V3 = vf::Plain<std::string_view, std::string_view, std::string_view>;
using L_V6 = vf::Plain<std::string_view, std::string_view, std::string_view, std::string_view, std::string_view, std::string_view>;
using L_t_i16 = vf::Plain<short>;
using L_t_u16 = vf::Plain<unsigned short>;
using L_t_i32 = vf::Plain<int>;
using L_t_u32 = vf::Plain<unsigned int>;
using L_t_i64 = vf::Plain<long>;
using L_t_u64 = vf::Plain<unsigned long>;
using L_t_ill = vf::Plain<long long>;
using L_t_ull = vf::Plain<unsigned long long>;
using L_t_i8 = vf::Plain<ss::int8>;
using L_t_u8 = vf::Plain<ss::uint8>;
using L_t_c = vf::Plain<char>;
using L_t_c8 = vf::Plain<int8_t>;
using L_t_uc8 = vf::Plain<uint8_t>;
using L_t_b = vf::Plain<bool>;
using L_t_sv = vf::Plain<std::string_view>;
using L_t_f32 = vf::Plain<float>;
using L_t_f64 = vf::Plain<double>;
using L_t_shape = vf::Plain<vf::shape>;
using L_t_o_i32 = vf::Plain<std::optional<int>>;
using L_t_o_s = vf::Plain<std::optional<std::string>>;
using L_t_o_c = vf::Plain<std::optional<char>>;
using L_t_o_b = vf::Plain<std::optional<bool>>;
using L_t_o_f64 = vf::Plain<std::optional<double>>;
using L_t_o_i8 = vf::Plain<std::optional<ss::int8>>;
using L_t_o_u64 = vf::Plain<std::optional<unsigned long>>;
using L_t_o_shape = vf::Plain<std::optional<vf::shape>>;
using L_t_v_i32_f64_s = vf::Plain<std::variant<int, double, std::string>>;
using L_t_v_b_c_i32 = vf::Plain<std::variant<bool, char, int>>;
using L_t_v_u8_i8_i16_s = vf::Plain<std::variant<ss::uint8, ss::int8, short, std::string>>;
using L_t_v_c_s = vf::Plain<std::variant<char, std::string>>;
using L_t_v_f64_i32 = vf::Plain<std::variant<double, int>>;
using L_t_v_i32_b = vf::Plain<std::variant<int, bool>>;
using L_t_v_shape_u32 = vf::Plain<std::variant<vf::shape, unsigned int>>;
using L_t_v_o = vf::Plain<std::variant<int, std::optional<char>, std::string>>;
using L_t_ax_i = vf::Plain<ss::ax<int, 1, 5, -3>>;
using L_t_ax_i1 = vf::Plain<ss::ax<int, 7>>;
using L_t_ax_c = vf::Plain<ss::ax<char, 'x', 'y'>>;
using L_t_nx_i = vf::Plain<ss::nx<int, 1, 5, -3>>;
using L_t_nx_c = vf::Plain<ss::nx<char, 'A', 'B', 'z'>>;
using L_t_nx_b = vf::Plain<ss::nx<bool, true>>;
using L_t_gt_i = vf::Plain<ss::gt<int, 10>>;
using L_t_gte_i = vf::Plain<ss::gte<int, 10>>;
using L_t_lt_i = vf::Plain<ss::lt<int, -10>>;
using L_t_lte_i = vf::Plain<ss::lte<int, -10>>;
using L_t_ir_i = vf::Plain<ss::ir<int, -2, 7>>;
using L_t_oor_i = vf::Plain<ss::oor<int, -2, 7>>;
using L_t_gt_u8 = vf::Plain<ss::gt<ss::uint8, 100>>;
using L_t_lte_i8 = vf::Plain<ss::lte<ss::int8, -100>>;
using L_t_ir_i64 = vf::Plain<ss::ir<long, -5, 5>>;
using L_t_gt_u64 = vf::Plain<ss::gt<unsigned long, 10000000000ul>>;
using L_t_lte_u64 = vf::Plain<ss::lte<unsigned long, 9223372036854775808ul>>;
using L_t_ir_ull = vf::Plain<ss::ir<unsigned long long, 4294967295ul, 9223372036854775813ul>>;
using L_t_oor_i64b = vf::Plain<ss::oor<long, -10000000000l, -5>>;
using L_t_gte_ill = vf::Plain<ss::gte<long long, -1099511627776l>>;
using L_t_ax_i64 = vf::Plain<ss::ax<long, -8589934592l, 0, -1, 7>>;
using L_t_nx_u32 = vf::Plain<ss::nx<unsigned int, 3, 4294967295ul, 2147483648ul>>;
using L_t_lt_u32 = vf::Plain<ss::lt<unsigned int, 3000000000ul>>;
using L_t_gt_i16 = vf::Plain<ss::gt<short, -300>>;
using L_t_oor_u16 = vf::Plain<ss::oor<unsigned short, 255, 40000>>;
using L_t_ir_c = vf::Plain<ss::ir<char, 'd', 'm'>>;
using L_t_oor_c = vf::Plain<ss::oor<char, 'd', 'm'>>;
using L_t_gt_f = vf::Plain<ss::gt<double, 2>>;
using L_t_gte_f = vf::Plain<ss::gte<double, 2>>;
using L_t_lt_f = vf::Plain<ss::lt<double, -3>>;
using L_t_lte_f = vf::Plain<ss::lte<double, -3>>;
using L_t_ir_f = vf::Plain<ss::ir<double, -1, 1>>;
using L_t_oor_f = vf::Plain<ss::oor<float, -1, 1>>;
using L_t_ax_f = vf::Plain<ss::ax<double, 1, 2>>;
using L_t_nx_f = vf::Plain<ss::nx<double, 1, 2>>;
using L_t_ne_s = vf::Plain<ss::ne<std::string>>;
using L_t_ne_sv = vf::Plain<ss::ne<std::string_view>>;
using L_t_even = vf::Plain<vf::even>;
using L_t_short = vf::Plain<vf::short_text>;
using L_is = vf::Plain<int, std::string>;
using L_si = vf::Plain<std::string, int>;
using L_isc = vf::Plain<int, std::string, char>;
using L_isf = vf::Plain<int, std::string, double>;
using L_ooo = vf::Plain<std::optional<int>, std::optional<std::string>, std::optional<bool>>;
using L_iob = vf::Plain<int, std::optional<int>, bool>;
using L_vsi = vf::Plain<std::variant<int, double, std::string>, std::variant<char, std::string>, int>;
using L_iiiii = vf::Plain<int, int, int, int, int>;
using L_ccc = vf::Plain<char, char, char>;
using L_vi = vf::Plain<void, int>;
using L_iv = vf::Plain<int, void>;
using L_vsv = vf::Plain<void, std::string, void>;
using L_ivs = vf::Plain<int, void, std::string>;
using L_svvc = vf::Plain<std::string, void, void, char>;
using L_vvs = vf::Plain<void, void, std::string>;
using L_vivsv = vf::Plain<void, int, void, std::string, void>;
using L_vsss = vf::Plain<void, std::string, std::string, std::string>;
using L_svsi = vf::Plain<std::string, void, std::string, int>;
using L_tup_is = vf::Plain<std::tuple<int, std::string>>;
using L_tup_s = vf::Plain<std::tuple<std::string>>;
using L_tup_ivs = vf::Plain<std::tuple<int, void, std::string>>;
using L_tied_isc = vf::Plain<vf::Tied<int, std::string, char>>;
using L_tied_si = vf::Plain<vf::Tied<std::string, int>>;
using L_obj_is = vf::Object<vf::Obj<int, std::string>, int, std::string>;
using L_obj_isc = vf::Object<vf::Obj<int, std::string, char>, int, std::string, char>;
using L_obj_ivs = vf::Object<vf::Obj<int, std::string>, int, void, std::string>;
using L_obj_s = vf::Object<vf::Obj<std::string>, std::string>;
using L_obj_i = vf::Object<vf::Obj<int>, int>;
using L_objtied_isc = vf::Object<vf::Tied<int, std::string, char>, int, std::string, char>;
using L_objtup_is = vf::Object<vf::Obj<int, std::string>, std::tuple<int, std::string>>;
using L_w12 = vf::Plain<int, std::string, char, bool, double, int, void, std::string, int, std::string, ss::uint8, long>;
using L_w36 = vf::Plain<int, std::string, void, char, std::string, int, void, ss::uint8, bool, std::string, std::string, std::optional<int>, int, std::string, void, char, std::string, int, void, ss::uint8, bool, std::string, std::string, std::optional<int>, int, std::string, void, char, std::string, int, void, ss::uint8, bool, std::string, std::string, std::optional<int>>;
using L_S36 = vf::Plain<std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string>;
using L_S12 = vf::Plain<std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string, std::string>;
using L_obj_12 = vf::Object<vf::Obj<int, std::string, int, std::string, int, std::string, int, std::string, int, std::string, int, std::string>, int, std::string, int, std::string, int, std::string, int, std::string, int, std::string, int, std::string>;
using L_r_mix = vf::Plain<ss::ir<int, -2, 7>, ss::ne<std::string>, ss::ax<char, 'x', 'y'>>;
using L_r_mix2 = vf::Plain<std::string, ss::gt<int, 10>, void, ss::lte<int, -10>>;
using L_r_user = vf::Plain<vf::even, vf::short_text>;
using L_r_user2 = vf::Plain<vf::short_text, void, vf::even, int>;
using L_r_obj = vf::Object<vf::Obj<int, std::string>, ss::gte<int, 10>, ss::ne<std::string>>;
using L_r_tup = vf::Plain<std::tuple<ss::nx<int, 1, 5, -3>, std::string>>;
}
#define VF_LISTS_str(X) X(S1) X(S2) X(S3) X(S4) X(S5) X(S6) X(S7)
#define VF_LISTS_view(X) X(V1) X(V2) X(V3) X(V6)
#define VF_LISTS_conv(X) X(t_i16) X(t_u16) X(t_i32) X(t_u32) X(t_i64) X(t_u64) X(t_ill) X(t_ull) X(t_i8) X(t_u8) X(t_c) X(t_c8) X(t_uc8) X(t_b) X(t_sv) X(t_shape) X(t_o_i32) X(t_o_s) X(t_o_c) X(t_o_b) X(t_o_f64) X(t_o_i8) X(t_o_u64) X(t_o_shape) X(t_v_i32_f64_s) X(t_v_b_c_i32) X(t_v_u8_i8_i16_s) X(t_v_c_s) X(t_v_f64_i32) X(t_v_i32_b) X(t_v_shape_u32) X(t_v_o)
#define VF_LISTS_flt(X) X(t_f32) X(t_f64)
#define VF_LISTS_restr(X) X(t_ax_i) X(t_ax_i1) X(t_ax_c) X(t_nx_i) X(t_nx_c) X(t_nx_b) X(t_gt_i) X(t_gte_i) X(t_lt_i) X(t_lte_i) X(t_ir_i) X(t_oor_i) X(t_gt_u8) X(t_lte_i8) X(t_ir_i64) X(t_gt_u64) X(t_lte_u64) X(t_ir_ull) X(t_oor_i64b) X(t_gte_ill) X(t_ax_i64) X(t_nx_u32) X(t_lt_u32) X(t_gt_i16) X(t_oor_u16) X(t_ir_c) X(t_oor_c) X(t_gt_f) X(t_gte_f) X(t_lt_f) X(t_lte_f) X(t_ir_f) X(t_oor_f) X(t_ax_f) X(t_nx_f) X(t_ne_s) X(t_ne_sv) X(t_even) X(t_short)
#define VF_LISTS_mix(X) X(is) X(si) X(isc) X(isf) X(ooo) X(iob) X(vsi) X(iiiii) X(ccc)
#define VF_LISTS_shape(X) X(vi) X(iv) X(vsv) X(ivs) X(svvc) X(vvs) X(vivsv) X(vsss) X(svsi) X(tup_is) X(tup_s) X(tup_ivs) X(tied_isc) X(tied_si) X(obj_is) X(obj_isc) X(obj_ivs) X(obj_s) X(obj_i) X(objtied_isc) X(objtup_is)
#define VF_LISTS_wide(X) X(w12) X(w36) X(S36) X(S12) X(obj_12)
#define VF_LISTS_rmix(X) X(r_mix) X(r_mix2) X(r_user) X(r_user2) X(r_obj) X(r_tup)
#define VF_CHAINS_str(X) X(probe, L_S1, L_S2, L_S3, L_S4, L_S5, L_S6, L_S7)
#define VF_CHAINS_chain(X) X(c_is_s2, L_is, L_S2) X(c_i_is_isc, L_t_i32, L_is, L_isc) X(c_ic_f_s, L_t_i32, L_t_f64, L_S1) X(c_obj, L_obj_is, L_si, L_obj_isc, L_S3) X(c_r, L_t_gte_i, L_t_even, L_t_c) X(c_tied, L_tied_isc, L_tup_is, L_svvc, L_S2) X(c_one, L_is)

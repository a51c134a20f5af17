---------------------------- MODULE Catalog ----------------------------
(* generated by vf/catalog.py: the setups and lists of types the harness is
   built for *)
EXTENDS Integers, Sequences

Setups == [
  n |-> [q |-> {}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  q |-> [q |-> {34}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  e |-> [q |-> {}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qe |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  t |-> [q |-> {}, e |-> {}, tl |-> {32}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qt |-> [q |-> {34}, e |-> {}, tl |-> {32}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  et |-> [q |-> {}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qet |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qetl |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qetr |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qelr |-> [q |-> {34}, e |-> {92}, tl |-> {95}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qe2t2 |-> [q |-> {39}, e |-> {92, 94}, tl |-> {32, 9}, tr |-> {32, 9}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qx |-> [q |-> {233}, e |-> {255, 1}, tl |-> {160, 128}, tr |-> {160, 128}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qxm |-> [q |-> {255}, e |-> {128}, tl |-> {2}, tr |-> {194}, ml |-> TRUE, lim |-> 0, ie |-> TRUE, ih |-> FALSE],
  tl |-> [q |-> {}, e |-> {}, tl |-> {95, 32}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  tr |-> [q |-> {}, e |-> {}, tl |-> {}, tr |-> {95, 32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qm |-> [q |-> {34}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  em |-> [q |-> {}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qem |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qetm |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qe2m |-> [q |-> {39}, e |-> {92, 94}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qm1 |-> [q |-> {34}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 1, ie |-> FALSE, ih |-> FALSE],
  qem1 |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 1, ie |-> FALSE, ih |-> FALSE],
  qem2 |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 2, ie |-> FALSE, ih |-> FALSE],
  qm3 |-> [q |-> {34}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 3, ie |-> FALSE, ih |-> FALSE],
  em3 |-> [q |-> {}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 3, ie |-> FALSE, ih |-> FALSE],
  qetm3 |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> TRUE, lim |-> 3, ie |-> FALSE, ih |-> FALSE],
  qem5 |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 5, ie |-> FALSE, ih |-> FALSE],
  qem260 |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 260, ie |-> FALSE, ih |-> FALSE],
  ie |-> [q |-> {}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> TRUE, ih |-> FALSE],
  ih |-> [q |-> {}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> TRUE],
  ieih |-> [q |-> {}, e |-> {}, tl |-> {}, tr |-> {}, ml |-> FALSE, lim |-> 0, ie |-> TRUE, ih |-> TRUE],
  qetie |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> TRUE, ih |-> FALSE],
  qemie |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> TRUE, ih |-> FALSE],
  qetmie |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> TRUE, lim |-> 0, ie |-> TRUE, ih |-> FALSE],
  qem2ie |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 2, ie |-> TRUE, ih |-> FALSE],
  qemih |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> TRUE],
  qemieih |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> TRUE, ih |-> TRUE],
  qetm_r |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qetm_n |-> [q |-> {34}, e |-> {92}, tl |-> {32}, tr |-> {32}, ml |-> TRUE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qem2ie_r |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 2, ie |-> TRUE, ih |-> FALSE],
  qem2ie_n |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 2, ie |-> TRUE, ih |-> FALSE],
  qelr_r |-> [q |-> {34}, e |-> {92}, tl |-> {95}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qelr_n |-> [q |-> {34}, e |-> {92}, tl |-> {95}, tr |-> {32}, ml |-> FALSE, lim |-> 0, ie |-> FALSE, ih |-> FALSE],
  qemieih_r |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> TRUE, ih |-> TRUE],
  qemieih_n |-> [q |-> {34}, e |-> {92}, tl |-> {}, tr |-> {}, ml |-> TRUE, lim |-> 0, ie |-> TRUE, ih |-> TRUE]
]

Delims == [comma |-> <<44>>, semicolon |-> <<59>>, colons |-> <<58, 58>>, aab |-> <<97, 97, 98>>, aba |-> <<97, 98, 97>>]

T_i16 == [k |-> "int", sg |-> TRUE, min |-> <<51, 50, 55, 54, 56>>, max |-> <<51, 50, 55, 54, 55>>]
T_u16 == [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<54, 53, 53, 51, 53>>]
T_i32 == [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>]
T_u32 == [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>]
T_i64 == [k |-> "int", sg |-> TRUE, min |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>, max |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>]
T_u64 == [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>]
T_ill == [k |-> "int", sg |-> TRUE, min |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>, max |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>]
T_ull == [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>]
T_i8 == [k |-> "int", sg |-> TRUE, min |-> <<49, 50, 56>>, max |-> <<49, 50, 55>>]
T_u8 == [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<50, 53, 53>>]
T_c == [k |-> "char"]
T_c8 == [k |-> "char"]
T_uc8 == [k |-> "char"]
T_b == [k |-> "bool"]
T_s == [k |-> "str"]
T_sv == [k |-> "str"]
T_f32 == [k |-> "flt"]
T_f64 == [k |-> "flt"]
T_shape == [k |-> "enum", names |-> <<<<99, 105, 114, 99, 108, 101>>, <<115, 113, 117, 97, 114, 101>>, <<115, 113>>>>]
T_void == [k |-> "void"]
T_o_i32 == [k |-> "opt", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>]]
T_o_s == [k |-> "opt", of |-> [k |-> "str"]]
T_o_c == [k |-> "opt", of |-> [k |-> "char"]]
T_o_b == [k |-> "opt", of |-> [k |-> "bool"]]
T_o_f64 == [k |-> "opt", of |-> [k |-> "flt"]]
T_o_i8 == [k |-> "opt", of |-> [k |-> "int", sg |-> TRUE, min |-> <<49, 50, 56>>, max |-> <<49, 50, 55>>]]
T_o_u64 == [k |-> "opt", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>]]
T_o_shape == [k |-> "opt", of |-> [k |-> "enum", names |-> <<<<99, 105, 114, 99, 108, 101>>, <<115, 113, 117, 97, 114, 101>>, <<115, 113>>>>]]
T_v_i32_f64_s == [k |-> "var", of |-> <<[k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], [k |-> "flt"], [k |-> "str"]>>]
T_v_b_c_i32 == [k |-> "var", of |-> <<[k |-> "bool"], [k |-> "char"], [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>]>>]
T_v_u8_i8_i16_s == [k |-> "var", of |-> <<[k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<50, 53, 53>>], [k |-> "int", sg |-> TRUE, min |-> <<49, 50, 56>>, max |-> <<49, 50, 55>>], [k |-> "int", sg |-> TRUE, min |-> <<51, 50, 55, 54, 56>>, max |-> <<51, 50, 55, 54, 55>>], [k |-> "str"]>>]
T_v_c_s == [k |-> "var", of |-> <<[k |-> "char"], [k |-> "str"]>>]
T_v_f64_i32 == [k |-> "var", of |-> <<[k |-> "flt"], [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>]>>]
T_v_i32_b == [k |-> "var", of |-> <<[k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], [k |-> "bool"]>>]
T_v_shape_u32 == [k |-> "var", of |-> <<[k |-> "enum", names |-> <<<<99, 105, 114, 99, 108, 101>>, <<115, 113, 117, 97, 114, 101>>, <<115, 113>>>>], [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>]>>]
T_v_o == [k |-> "var", of |-> <<[k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], [k |-> "opt", of |-> [k |-> "char"]], [k |-> "str"]>>]
T_ax_i == [k |-> "ax", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<1, 5, -3>>]
T_ax_i1 == [k |-> "ax", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<7>>]
T_ax_c == [k |-> "ax", of |-> [k |-> "char"], args |-> <<120, 121>>]
T_nx_i == [k |-> "nx", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<1, 5, -3>>]
T_nx_c == [k |-> "nx", of |-> [k |-> "char"], args |-> <<65, 66, 122>>]
T_nx_b == [k |-> "nx", of |-> [k |-> "bool"], args |-> <<1>>]
T_gt_i == [k |-> "gt", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<10>>]
T_gte_i == [k |-> "gte", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<10>>]
T_lt_i == [k |-> "lt", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<-10>>]
T_lte_i == [k |-> "lte", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<-10>>]
T_ir_i == [k |-> "ir", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<-2, 7>>]
T_oor_i == [k |-> "oor", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<-2, 7>>]
T_gt_u8 == [k |-> "gt", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<50, 53, 53>>], args |-> <<100>>]
T_lte_i8 == [k |-> "lte", of |-> [k |-> "int", sg |-> TRUE, min |-> <<49, 50, 56>>, max |-> <<49, 50, 55>>], args |-> <<-100>>]
T_ir_i64 == [k |-> "ir", of |-> [k |-> "int", sg |-> TRUE, min |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>, max |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>], args |-> <<-5, 5>>]
T_gt_u64 == [k |-> "gt", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>], wide |-> TRUE, args |-> <<<<49, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>>>]
T_lte_u64 == [k |-> "lte", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>], wide |-> TRUE, args |-> <<<<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>>>]
T_ir_ull == [k |-> "ir", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 53>>], wide |-> TRUE, args |-> <<<<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>, <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 49, 51>>>>]
T_oor_i64b == [k |-> "oor", of |-> [k |-> "int", sg |-> TRUE, min |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>, max |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>], wide |-> TRUE, args |-> <<<<45, 49, 48, 48, 48, 48, 48, 48, 48, 48, 48, 48>>, <<45, 53>>>>]
T_gte_ill == [k |-> "gte", of |-> [k |-> "int", sg |-> TRUE, min |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>, max |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>], wide |-> TRUE, args |-> <<<<45, 49, 48, 57, 57, 53, 49, 49, 54, 50, 55, 55, 55, 54>>>>]
T_ax_i64 == [k |-> "ax", of |-> [k |-> "int", sg |-> TRUE, min |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 56>>, max |-> <<57, 50, 50, 51, 51, 55, 50, 48, 51, 54, 56, 53, 52, 55, 55, 53, 56, 48, 55>>], wide |-> TRUE, args |-> <<<<45, 56, 53, 56, 57, 57, 51, 52, 53, 57, 50>>, <<48>>, <<45, 49>>, <<55>>>>]
T_nx_u32 == [k |-> "nx", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>], wide |-> TRUE, args |-> <<<<51>>, <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>>>]
T_lt_u32 == [k |-> "lt", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>], wide |-> TRUE, args |-> <<<<51, 48, 48, 48, 48, 48, 48, 48, 48, 48>>>>]
T_gt_i16 == [k |-> "gt", of |-> [k |-> "int", sg |-> TRUE, min |-> <<51, 50, 55, 54, 56>>, max |-> <<51, 50, 55, 54, 55>>], args |-> <<-300>>]
T_oor_u16 == [k |-> "oor", of |-> [k |-> "int", sg |-> FALSE, min |-> <<>>, max |-> <<54, 53, 53, 51, 53>>], args |-> <<255, 40000>>]
T_ir_c == [k |-> "ir", of |-> [k |-> "char"], args |-> <<100, 109>>]
T_oor_c == [k |-> "oor", of |-> [k |-> "char"], args |-> <<100, 109>>]
T_gt_f == [k |-> "gt", of |-> [k |-> "flt"], args |-> <<2>>]
T_gte_f == [k |-> "gte", of |-> [k |-> "flt"], args |-> <<2>>]
T_lt_f == [k |-> "lt", of |-> [k |-> "flt"], args |-> <<-3>>]
T_lte_f == [k |-> "lte", of |-> [k |-> "flt"], args |-> <<-3>>]
T_ir_f == [k |-> "ir", of |-> [k |-> "flt"], args |-> <<-1, 1>>]
T_oor_f == [k |-> "oor", of |-> [k |-> "flt"], args |-> <<-1, 1>>]
T_ax_f == [k |-> "ax", of |-> [k |-> "flt"], args |-> <<1, 2>>]
T_nx_f == [k |-> "nx", of |-> [k |-> "flt"], args |-> <<1, 2>>]
T_ne_s == [k |-> "ne", of |-> [k |-> "str"], args |-> <<>>]
T_ne_sv == [k |-> "ne", of |-> [k |-> "str"], args |-> <<>>]
T_even == [k |-> "even", of |-> [k |-> "int", sg |-> TRUE, min |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, max |-> <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>], args |-> <<>>]
T_short == [k |-> "short", of |-> [k |-> "str"], args |-> <<>>]

TypeLists == [
  S1 |-> <<T_s>>,
  S2 |-> <<T_s, T_s>>,
  S3 |-> <<T_s, T_s, T_s>>,
  S4 |-> <<T_s, T_s, T_s, T_s>>,
  S5 |-> <<T_s, T_s, T_s, T_s, T_s>>,
  S6 |-> <<T_s, T_s, T_s, T_s, T_s, T_s>>,
  S7 |-> <<T_s, T_s, T_s, T_s, T_s, T_s, T_s>>,
  V1 |-> <<T_sv>>,
  V2 |-> <<T_sv, T_sv>>,
  V3 |-> <<T_sv, T_sv, T_sv>>,
  V6 |-> <<T_sv, T_sv, T_sv, T_sv, T_sv, T_sv>>,
  t_i16 |-> <<T_i16>>,
  t_u16 |-> <<T_u16>>,
  t_i32 |-> <<T_i32>>,
  t_u32 |-> <<T_u32>>,
  t_i64 |-> <<T_i64>>,
  t_u64 |-> <<T_u64>>,
  t_ill |-> <<T_ill>>,
  t_ull |-> <<T_ull>>,
  t_i8 |-> <<T_i8>>,
  t_u8 |-> <<T_u8>>,
  t_c |-> <<T_c>>,
  t_c8 |-> <<T_c8>>,
  t_uc8 |-> <<T_uc8>>,
  t_b |-> <<T_b>>,
  t_sv |-> <<T_sv>>,
  t_f32 |-> <<T_f32>>,
  t_f64 |-> <<T_f64>>,
  t_shape |-> <<T_shape>>,
  t_o_i32 |-> <<T_o_i32>>,
  t_o_s |-> <<T_o_s>>,
  t_o_c |-> <<T_o_c>>,
  t_o_b |-> <<T_o_b>>,
  t_o_f64 |-> <<T_o_f64>>,
  t_o_i8 |-> <<T_o_i8>>,
  t_o_u64 |-> <<T_o_u64>>,
  t_o_shape |-> <<T_o_shape>>,
  t_v_i32_f64_s |-> <<T_v_i32_f64_s>>,
  t_v_b_c_i32 |-> <<T_v_b_c_i32>>,
  t_v_u8_i8_i16_s |-> <<T_v_u8_i8_i16_s>>,
  t_v_c_s |-> <<T_v_c_s>>,
  t_v_f64_i32 |-> <<T_v_f64_i32>>,
  t_v_i32_b |-> <<T_v_i32_b>>,
  t_v_shape_u32 |-> <<T_v_shape_u32>>,
  t_v_o |-> <<T_v_o>>,
  t_ax_i |-> <<T_ax_i>>,
  t_ax_i1 |-> <<T_ax_i1>>,
  t_ax_c |-> <<T_ax_c>>,
  t_nx_i |-> <<T_nx_i>>,
  t_nx_c |-> <<T_nx_c>>,
  t_nx_b |-> <<T_nx_b>>,
  t_gt_i |-> <<T_gt_i>>,
  t_gte_i |-> <<T_gte_i>>,
  t_lt_i |-> <<T_lt_i>>,
  t_lte_i |-> <<T_lte_i>>,
  t_ir_i |-> <<T_ir_i>>,
  t_oor_i |-> <<T_oor_i>>,
  t_gt_u8 |-> <<T_gt_u8>>,
  t_lte_i8 |-> <<T_lte_i8>>,
  t_ir_i64 |-> <<T_ir_i64>>,
  t_gt_u64 |-> <<T_gt_u64>>,
  t_lte_u64 |-> <<T_lte_u64>>,
  t_ir_ull |-> <<T_ir_ull>>,
  t_oor_i64b |-> <<T_oor_i64b>>,
  t_gte_ill |-> <<T_gte_ill>>,
  t_ax_i64 |-> <<T_ax_i64>>,
  t_nx_u32 |-> <<T_nx_u32>>,
  t_lt_u32 |-> <<T_lt_u32>>,
  t_gt_i16 |-> <<T_gt_i16>>,
  t_oor_u16 |-> <<T_oor_u16>>,
  t_ir_c |-> <<T_ir_c>>,
  t_oor_c |-> <<T_oor_c>>,
  t_gt_f |-> <<T_gt_f>>,
  t_gte_f |-> <<T_gte_f>>,
  t_lt_f |-> <<T_lt_f>>,
  t_lte_f |-> <<T_lte_f>>,
  t_ir_f |-> <<T_ir_f>>,
  t_oor_f |-> <<T_oor_f>>,
  t_ax_f |-> <<T_ax_f>>,
  t_nx_f |-> <<T_nx_f>>,
  t_ne_s |-> <<T_ne_s>>,
  t_ne_sv |-> <<T_ne_sv>>,
  t_even |-> <<T_even>>,
  t_short |-> <<T_short>>,
  is |-> <<T_i32, T_s>>,
  si |-> <<T_s, T_i32>>,
  isc |-> <<T_i32, T_s, T_c>>,
  isf |-> <<T_i32, T_s, T_f64>>,
  ooo |-> <<T_o_i32, T_o_s, T_o_b>>,
  iob |-> <<T_i32, T_o_i32, T_b>>,
  vsi |-> <<T_v_i32_f64_s, T_v_c_s, T_i32>>,
  iiiii |-> <<T_i32, T_i32, T_i32, T_i32, T_i32>>,
  ccc |-> <<T_c, T_c, T_c>>,
  vi |-> <<T_void, T_i32>>,
  iv |-> <<T_i32, T_void>>,
  vsv |-> <<T_void, T_s, T_void>>,
  ivs |-> <<T_i32, T_void, T_s>>,
  svvc |-> <<T_s, T_void, T_void, T_c>>,
  vvs |-> <<T_void, T_void, T_s>>,
  vivsv |-> <<T_void, T_i32, T_void, T_s, T_void>>,
  vsss |-> <<T_void, T_s, T_s, T_s>>,
  svsi |-> <<T_s, T_void, T_s, T_i32>>,
  tup_is |-> <<T_i32, T_s>>,
  tup_s |-> <<T_s>>,
  tup_ivs |-> <<T_i32, T_void, T_s>>,
  tied_isc |-> <<T_i32, T_s, T_c>>,
  tied_si |-> <<T_s, T_i32>>,
  obj_is |-> <<T_i32, T_s>>,
  obj_isc |-> <<T_i32, T_s, T_c>>,
  obj_ivs |-> <<T_i32, T_void, T_s>>,
  obj_s |-> <<T_s>>,
  obj_i |-> <<T_i32>>,
  objtied_isc |-> <<T_i32, T_s, T_c>>,
  objtup_is |-> <<T_i32, T_s>>,
  w12 |-> <<T_i32, T_s, T_c, T_b, T_f64, T_i32, T_void, T_s, T_i32, T_s, T_u8, T_i64>>,
  w36 |-> <<T_i32, T_s, T_void, T_c, T_s, T_i32, T_void, T_u8, T_b, T_s, T_s, T_o_i32, T_i32, T_s, T_void, T_c, T_s, T_i32, T_void, T_u8, T_b, T_s, T_s, T_o_i32, T_i32, T_s, T_void, T_c, T_s, T_i32, T_void, T_u8, T_b, T_s, T_s, T_o_i32>>,
  S36 |-> <<T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s>>,
  S12 |-> <<T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s, T_s>>,
  obj_12 |-> <<T_i32, T_s, T_i32, T_s, T_i32, T_s, T_i32, T_s, T_i32, T_s, T_i32, T_s>>,
  r_mix |-> <<T_ir_i, T_ne_s, T_ax_c>>,
  r_mix2 |-> <<T_s, T_gt_i, T_void, T_lte_i>>,
  r_user |-> <<T_even, T_short>>,
  r_user2 |-> <<T_short, T_void, T_even, T_i32>>,
  r_obj |-> <<T_gte_i, T_ne_s>>,
  r_tup |-> <<T_nx_i, T_s>>
]
========================================================================

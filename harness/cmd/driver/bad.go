package main

import "strings"

// badSchemas are schemas with one definite error each. "«bad¦good»" marks
// the error and its correction; files are separated by lines "-- name".
var badSchemas = map[string]string{
	// syntax
	"syn_semicolon":    `package a; struct A { uint8 x«¦;» };`,
	"syn_brace":        `package a; struct A { uint8 x; «¦};»`,
	"syn_package":      `package a«¦;» struct A { uint8 x; };`,
	"syn_keyword":      `package a; «strukt¦struct» A { uint8 x; };`,
	"syn_field_name":   `package a; struct A { uint8«¦ x»; };`,
	"syn_extra":        `package a; struct A { uint8 x; }; «}¦»`,
	"syn_trailing":     `package a; struct A { uint8 x; };« foo¦»`,
	"syn_trailing2":    `package a; struct A { uint8 x; };« ;¦»`,
	"syn_string":       `package a; const string S = "abc«¦"»;`,
	"syn_comment":      `package a; struct A { uint8 x; }; /* open «¦*/»`,
	"syn_char":         `package a; struct A { uint8 x«$¦»; };`,
	"syn_char2":        `package a; struct A { uint8 x; }; «#¦»`,
	"syn_number":       `package a; const uint32 C = «12x¦12»;`,
	"syn_hex":          `package a; const uint32 C = 0x«G¦F»;`,
	"syn_octal":        `package a; const uint32 C = 0«9¦7»;`,
	"syn_binary":       `package a; const uint32 C = 1«2¦0»b;`,
	"syn_keyword_name": `package a; struct A { uint8 «struct¦s»; };`,
	"syn_keyword_type": `package a; struct «choice¦A» { uint8 x; };`,
	"syn_array":        `package a; struct A { uint8 x[«¦]»; };`,
	"syn_paren":        `package a; struct A { uint8 x if (1 == 1«¦)»; };`,
	"syn_cond":         `package a; struct A { uint8 n; uint8 x if«¦ n == 1»; };`,
	"syn_operator":     `package a; const uint8 C = 1 «+ + * 2¦+ 2»;`,
	"syn_two_packages": "package a; struct A { uint8 x; };\n«package b;¦»",
	"syn_import_late":  "package a; «struct A { uint8 x; }; import b.*;¦import b.*; struct A { uint8 x; };»\n-- b.zs\npackage b; struct B { uint8 x; };",
	"syn_enum_comma":   `package a; enum uint8 E { A«¦,» B };`,
	"syn_enum_type":    `package a; enum «¦uint8» E { A };`,
	"syn_choice_on":    `package a; choice C(uint8 s) «¦on s» { case 1: uint8 a; };`,
	"syn_case":         `package a; choice C(uint8 s) on s { case«¦ 1»: uint8 a; };`,
	"syn_width":        `package a; struct A { bit«¦:3» x; };`,
	"syn_const_value":  `package a; const uint8 C«¦ = 1»;`,
	"syn_const_type":   `package a; const «¦uint8» C = 1;`,
	"syn_function":     `package a; struct A { uint8 x; function uint8 f() { return x«¦;» } };`,
	"syn_function_ret": `package a; struct A { uint8 x; function uint8 f() { «¦return» x; } };`,
	"syn_template":     `package a; struct T<A«¦>» { A x; }; struct U { T<uint8> t; };`,
	"syn_subtype":      `package a; subtype uint8«¦ S»; `,
	"syn_optional":     `package a; struct A { optional«¦ uint8» x; };`,
	"syn_align":        `package a; struct A { align(«¦8»): uint8 x; };`,
	"syn_empty_enum":   `package a; enum uint8 E { «¦A» };`,
	"syn_import":       "package a; import «b¦b.*»; struct A { uint8 x; };\n-- b.zs\npackage b; struct B { uint8 x; };",
	"syn_import_star":  "package a; import «*¦b.*»; struct A { uint8 x; };\n-- b.zs\npackage b; struct B { uint8 x; };",
	"syn_params":       `package a; struct A(uint8 «¦p») { uint8 x; };`,
	"syn_binary_file":  "«\x00\x01\x02\xff\xfe¦package a;»",
	"syn_garbage":      `«Lorem ipsum dolor sit amet¦package a;»`,
	"syn_only_import":  "«import b.*;¦package a; import b.*;»\n-- b.zs\npackage b; struct B { uint8 x; };",
	"syn_second_file":  "package a; struct A { uint8 x; };\n-- b.zs\npackage b; struct B { uint8 «¦x»; };",
	"syn_first_file":   "package a; struct A { uint8 «¦x»; };\n-- b.zs\npackage b; struct B { uint8 x; };",

	// unknown names
	"unk_type":          `package a; struct A { «Foo¦uint8» x; };`,
	"unk_type_array":    `package a; struct A { «Foo¦uint8» x[]; };`,
	"unk_type_opt":      `package a; struct A { optional «Foo¦uint8» x; };`,
	"unk_type_packed":   `package a; struct A { packed «Foo¦uint8» x[]; };`,
	"unk_type_choice":   `package a; choice C(uint8 s) on s { case 1: «Foo¦uint8» a; };`,
	"unk_type_default":  `package a; choice C(uint8 s) on s { case 1: uint8 a; default: «Foo¦uint8» b; };`,
	"unk_type_union":    `package a; union U { «Foo¦uint8» a; };`,
	"unk_type_param":    `package a; struct A(«Foo¦uint8» p) { uint8 x; };`,
	"unk_type_enum":     `package a; enum «Foo¦uint8» E { A };`,
	"unk_type_bitmask":  `package a; bitmask «Foo¦uint8» E { A };`,
	"unk_type_const":    `package a; const «Foo¦uint8» E = 1;`,
	"unk_type_subtype":  `package a; subtype «Foo¦uint8» S; struct A { S s; };`,
	"unk_type_subtype2": `package a; subtype «Foo¦uint8» S;`,
	"unk_type_func":     `package a; struct A { uint8 x; function «Foo¦uint8» f() { return x; } };`,
	"unk_type_targ":     `package a; struct T<X> { X x; }; struct U { T<«Foo¦uint8»> t; };`,
	"unk_type_tbody":    `package a; struct T<X> { X x; «Foo¦uint8» y; }; struct U { T<uint8> t; };`,
	"unk_template":      `package a; struct T<X> { X x; }; struct U { «Foo¦T»<uint8> t; };`,
	"unk_inst":          `package a; struct T<X> { X x; }; instantiate «Foo¦T»<uint8> TI; struct U { uint8 t; };`,
	"unk_type_qual":     "package a; import b.*; struct A { «b.Foo¦b.B» x; };\n-- b.zs\npackage b; struct B { uint8 x; };",
	"unk_type_qual2":    "package a; import b.*; struct A { «b.C¦b.B» x; };\n-- b.zs\npackage b; import c.*; struct B { C x; };\n-- c.zs\npackage c; struct C { uint8 x; };",
	"unk_type_qual3":    "package a; import b.*; import c.*; struct A { «b.C¦c.C» x; };\n-- b.zs\npackage b; import c.C; struct B { C x; };\n-- c.zs\npackage c; struct C { uint8 x; };",
	"unk_type_trans":    "package a; import b.*; struct A { «C¦B» x; };\n-- b.zs\npackage b; import c.*; struct B { C x; };\n-- c.zs\npackage c; struct C { uint8 x; };",
	"unk_const_trans":   "package a; import b.*; struct A { uint8 x[«C¦B»]; };\n-- b.zs\npackage b; import c.*; const uint8 B = C;\n-- c.zs\npackage c; const uint8 C = 2;",
	"unk_item_trans":    "package a; import b.*; struct A { uint8 x; uint8 y if valueof(«E.I¦B.I») == x; };\n-- b.zs\npackage b; import c.*; enum uint8 B { I }; struct S { E e; };\n-- c.zs\npackage c; enum uint8 E { I };",
	"unk_type_pkg":      "package a; import b.*; struct A { «c.B¦b.B» x; };\n-- b.zs\npackage b; struct B { uint8 x; };",
	"unk_type_noimport": "package a; «¦import b.*;» struct A { B x; };\n-- b.zs\npackage b; struct B { uint8 x; };",
	"unk_type_single":   "package a; import b.«C¦B»; struct A { B x; };\n-- b.zs\npackage b; struct B { uint8 x; }; struct C { uint8 x; };",
	"unk_import":        "package a; import «c¦b».*; struct A { uint8 x; };\n-- b.zs\npackage b; struct B { uint8 x; };",
	"unk_import_single": "package a; import b.«Foo¦B»; struct A { uint8 x; };\n-- b.zs\npackage b; struct B { uint8 x; };",
	"unk_import_deep":   "package a; import b.«d¦c».*; struct A { uint8 x; };\n-- b.zs\npackage b.c; struct B { uint8 x; };",
	"unk_const":         `package a; const uint8 K = 1; const uint8 C = «FOO¦K»;`,
	"unk_const_expr":    `package a; const uint8 K = 1; const uint8 C = 3 + «FOO¦K» * 2;`,
	"unk_enum_value":    `package a; const uint8 K = 1; enum uint8 E { A = «FOO¦K» };`,
	"unk_mask_value":    `package a; const uint8 K = 1; bitmask uint8 E { A = «FOO¦K» };`,
	"unk_enum_item":     `package a; enum uint8 E { A }; choice C(E e) on e { case E.«FOO¦A»: uint8 x; };`,
	"unk_label":         `package a; enum uint8 E { A }; choice C(E e) on e { case «FOO¦A»: uint8 x; };`,
	"unk_label_num":     `package a; const uint8 K = 1; choice C(uint8 e) on e { case «FOO¦K»: uint8 x; };`,
	"unk_label_mask":    `package a; bitmask uint8 E { A }; choice C(E e) on e { case «FOO¦A»: uint8 x; };`,
	"unk_selector":      `package a; choice C(uint8 e) on «f¦e» { case 1: uint8 x; };`,
	"unk_selector_sub":  `package a; struct S { uint8 q; }; choice C(S e) on e.«f¦q» { case 1: uint8 x; };`,
	"unk_cond":          `package a; struct A { uint8 n; uint8 x if «m¦n» == 1; };`,
	"unk_cond_member":   `package a; struct S { uint8 q; }; struct A { S n; uint8 x if n.«m¦q» == 1; };`,
	"unk_cond_item":     `package a; enum uint8 E { P }; struct A { E n; uint8 x if n == E.«Q¦P»; };`,
	"unk_cond_func":     `package a; struct A { uint8 n; uint8 x if «g¦f»() == 1; function uint8 f() { return n; } };`,
	"unk_length":        `package a; struct A { uint8 n; uint8 x[«m¦n»]; };`,
	"unk_width":         `package a; struct A { uint8 n; bit<«m¦n»> x; };`,
	"unk_default":       `package a; const uint8 K = 1; struct A { uint8 n = «m¦K»; };`,
	"unk_arg":           `package a; struct P(uint8 q) { uint8 a[q]; }; struct A { uint8 n; P(«m¦n») x; };`,
	"unk_func_body":     `package a; struct A { uint8 n; function uint8 f() { return «m¦n»; } };`,
	"unk_func_call":     `package a; struct S { uint8 q; function uint8 f() { return q; } }; struct A { S n; uint8 x[n.«g¦f»()]; };`,
	"unk_isset":         `package a; bitmask uint8 M { P }; struct A { M m; uint8 x if isset(m, M.«Q¦P»); };`,
	"unk_lengthof":      `package a; struct A { uint8 n[]; uint8 x[lengthof(«m¦n»)]; };`,
	"unk_tbody_const":   `package a; const uint8 K = 1; struct T<X> { X x; uint8 y[«FOO¦K»]; }; struct U { T<uint8> t; };`,
	"amb_enum_item":     `package a; enum uint8 P { X = 1, Y }; enum uint8 Q { Y = 7, Z }; struct A { uint8 n; uint8 x if n == «Y¦Z»; };`,
	"amb_enum_item2":    "package a; import b.*; struct A { uint8 n; uint8 x if n == «Y¦Z»; };\n-- b.zs\npackage b; enum uint8 P { X = 1, Y }; enum uint8 Q { Y = 7, Z };",
	"unk_enum_of_num":   `package a; enum uint8 E { P }; struct A { uint8 n; uint8 x if n == «n¦E».P; };`,

	// names given twice
	"dup_struct":        `package a; struct A { uint8 x; }; struct «A¦B» { uint8 y; };`,
	"dup_enum":          `package a; enum uint8 A { X }; enum uint8 «A¦B» { Y };`,
	"dup_struct_enum":   `package a; struct A { uint8 x; }; enum uint8 «A¦B» { Y };`,
	"dup_struct_choice": `package a; struct A { uint8 x; }; choice «A¦B»(uint8 s) on s { case 1: uint8 x; };`,
	"dup_struct_union":  `package a; struct A { uint8 x; }; union «A¦B» { uint8 x; };`,
	"dup_struct_sub":    `package a; struct A { uint8 x; }; subtype uint8 «A¦B»;`,
	"dup_struct_mask":   `package a; struct A { uint8 x; }; bitmask uint8 «A¦B» { X };`,
	"dup_const":         `package a; const uint8 A = 1; const uint8 «A¦B» = 2;`,
	"dup_const_struct":  `package a; const uint8 A = 1; struct «A¦B» { uint8 x; };`,
	"dup_subtype":       `package a; subtype uint8 A; subtype uint16 «A¦B»;`,
	"dup_union":         `package a; union A { uint8 x; }; union «A¦B» { uint8 x; uint8 y; };`,
	"dup_choice":        `package a; choice A(uint8 s) on s { case 1: uint8 x; }; choice «A¦B»(uint8 s) on s { case 1: uint8 x; };`,
	"dup_bitmask":       `package a; bitmask uint8 A { X }; bitmask uint8 «A¦B» { Y };`,
	"dup_template":      `package a; struct T<A> { A x; }; struct «T¦S»<A> { A y; };`,
	"dup_field":         `package a; struct A { uint8 x; uint8 «x¦y»; };`,
	"dup_field_union":   `package a; union A { uint8 x; uint8 «x¦y»; };`,
	"dup_field_choice":  `package a; choice A(uint8 s) on s { case 1: uint8 x; case 2: uint16 «x¦y»; };`,
	"dup_field_default": `package a; choice A(uint8 s) on s { case 1: uint8 x; default: uint16 «x¦y»; };`,
	"dup_param":         `package a; struct A(uint8 p, uint8 «p¦q») { uint8 x; };`,
	"dup_param_field":   `package a; struct A(uint8 p) { uint8 «p¦q»; };`,
	"dup_function":      `package a; struct A { uint8 x; function uint8 f() { return x; } function uint8 «f¦g»() { return x; } };`,
	"dup_func_field":    `package a; struct A { uint8 x; function uint8 «x¦g»() { return 1; } };`,
	"dup_item":          `package a; enum uint8 E { A, «A¦B» };`,
	"dup_mask_item":     `package a; bitmask uint8 E { A, «A¦B» };`,
	"dup_item_value":    `package a; enum uint8 E { A = 3, B = «3¦4» };`,
	"dup_item_auto":     `package a; enum uint8 E { A = 3, B = «2¦4», C };`,
	"dup_label":         `package a; choice A(uint8 s) on s { case 1: uint8 x; case «1¦2»: uint16 y; };`,
	"dup_label_const":   `package a; const uint8 K = 1; choice A(uint8 s) on s { case 1: uint8 x; case «K¦2»: uint16 y; };`,
	"dup_label_enum":    `package a; enum uint8 E { P, Q }; choice A(E s) on s { case P: uint8 x; case «E.P¦Q»: uint16 y; };`,
	"dup_package":       "package a; struct A { uint8 x; };\n-- b.zs\npackage «a¦b»; struct B { uint8 x; };",
	"dup_tparam":        `package a; struct T<A, «A¦B»> { A x; }; struct U { T<uint8, uint16> t; };`,
	"dup_inst":          `package a; struct T<A> { A x; }; instantiate T<uint8> I; instantiate T<uint16> «I¦J»; struct U { uint8 t; };`,

	// cycles
	"cyc_const":         `package a; const uint8 A = «B¦1»; const uint8 B = A;`,
	"cyc_const_self":    `package a; const uint8 A = «A¦1»;`,
	"cyc_const3":        `package a; const uint8 A = B + 1; const uint8 B = C + 1; const uint8 C = «A¦1» + 1;`,
	"cyc_enum":          `package a; enum uint8 E { A = «E.B¦1», B = E.A + 1 };`,
	"cyc_enum_const":    `package a; const uint8 K = E.A; enum uint8 E { A = «K¦1» };`,
	"cyc_subtype":       `package a; subtype «B¦uint8» A; subtype A B; struct S { B b; };`,
	"cyc_subtype_self":  `package a; subtype «A¦uint8» A; struct S { A b; };`,
	"cyc_subtype_un":    `package a; subtype «B¦uint8» A; subtype A B;`,
	"cyc_struct":        `package a; struct A { «A¦uint8» a; };`,
	"cyc_struct2":       `package a; struct A { B b; }; struct B { «A¦uint8» a; };`,
	"cyc_struct_fixed":  `package a; struct A { «A¦uint8» a[2]; };`,
	"cyc_function":      `package a; struct A { uint8 x; function uint8 f() { return «g¦x»«()¦»; } function uint8 g() { return f(); } };`,
	"cyc_function_self": `package a; struct A { uint8 x; function uint8 f() { return «f()¦x»; } };`,
	"cyc_template":      `package a; struct T<A> { A a; optional «T<T<A>>¦uint8» t; }; struct U { T<uint8> t; };`,

	// numbers of arguments
	"arg_missing":     `package a; struct P(uint8 q) { uint8 a[q]; }; struct A { uint8 n; P«¦(n)» x; };`,
	"arg_many":        `package a; struct P(uint8 q) { uint8 a[q]; }; struct A { uint8 n; P(n«, n¦») x; };`,
	"arg_few":         `package a; struct P(uint8 q, uint8 r) { uint8 a[q]; }; struct A { uint8 n; P(n«¦, n») x; };`,
	"arg_none_wanted": `package a; struct P { uint8 a; }; struct A { uint8 n; P«(n)¦» x; };`,
	"arg_builtin":     `package a; struct A { uint8 n; uint8«(n)¦» x; };`,
	"arg_array":       `package a; struct P(uint8 q) { uint8 a[q]; }; struct A { uint8 n; P«¦(n)» x[]; };`,
	"arg_choice":      `package a; choice P(uint8 q) on q { case 1: uint8 a; }; struct A { uint8 n; P«¦(n)» x; };`,
	"arg_union":       `package a; union P(uint8 q) { uint8 a[q]; }; struct A { uint8 n; P«¦(n)» x; };`,
	"arg_in_union":    `package a; struct P(uint8 q) { uint8 a[q]; }; union A { P«¦(3)» x; };`,
	"arg_subtype":     `package a; struct P(uint8 q) { uint8 a[q]; }; subtype P S; struct A { uint8 n; S«¦(n)» x; };`,
	"arg_enum":        `package a; enum uint8 E { P }; struct A { uint8 n; E«(n)¦» x; };`,
	"arg_imported":    "package a; import b.*; struct A { uint8 n; P«¦(n)» x; };\n-- b.zs\npackage b; struct P(uint8 q) { uint8 a[q]; };",
	"targ_missing":    `package a; struct T<X> { X x; }; struct U { T«¦<uint8>» t; };`,
	"targ_many":       `package a; struct T<X> { X x; }; struct U { T<uint8«, uint8¦»> t; };`,
	"targ_few":        `package a; struct T<X, Y> { X x; Y y; }; struct U { T<uint8«¦, uint8»> t; };`,
	"targ_none":       `package a; struct T { uint8 x; }; struct U { T«<uint8>¦» t; };`,
	"targ_inst":       `package a; struct T<X> { X x; }; instantiate T<uint8«, uint8¦»> I; struct U { uint8 t; };`,
	"targ_nested":     `package a; struct T<X> { X x; }; struct V<X> { T<X«, X¦»> t; }; struct U { V<uint8> v; };`,
	"isset_args":      `package a; bitmask uint8 M { P }; struct A { M m; uint8 x if isset(m«¦, M.P»); };`,

	// expressions without a value, or of a wrong kind
	"val_div":           `package a; const uint8 A = 4 / «0¦2»;`,
	"val_mod":           `package a; const uint8 A = 4 % «0¦3»;`,
	"val_div_const":     `package a; const uint8 Z = 0; const uint8 O = 1; const uint8 A = 4 / «Z¦O»;`,
	"val_div_enum":      `package a; enum uint8 E { A = 4 / «0¦2» };`,
	"val_div_nested":    `package a; const uint8 A = 4 / (2 - «2¦1»);`,
	"val_shift":         `package a; const int32 A = 1 << «-1¦1»;`,
	"val_range":         `package a; const uint8 A = «256¦255»;`,
	"val_range_neg":     `package a; const uint8 A = «-1¦1»;`,
	"val_range_int8":    `package a; const int8 A = «128¦127»;`,
	"val_range_min":     `package a; const int8 A = «-129¦-128»;`,
	"val_range_bit":     `package a; const bit:3 A = «8¦7»;`,
	"val_range_enum":    `package a; enum uint8 E { A = «256¦255» };`,
	"val_range_auto":    `package a; enum uint8 E { A = «255¦254», B };`,
	"val_range_mask":    `package a; bitmask uint8 M { A = «128¦64», B };`,
	"val_range_lit":     `package a; const uint64 A = «18446744073709551616¦18446744073709551615»;`,
	"val_enum_neg":      `package a; enum uint8 E { A = «-1¦1» };`,
	"val_string_int":    `package a; const uint8 A = «"x"¦1»;`,
	"val_int_string":    `package a; const string A = «1¦"x"»;`,
	"val_bool_int":      `package a; const bool A = «1¦true»;`,
	"val_int_bool":      `package a; const uint8 A = «true¦1»;`,
	"val_add_mixed":     `package a; const uint8 A = 1 + «"x"¦2»;`,
	"val_not":           `package a; const bool A = !«1¦true»;`,
	"val_and":           `package a; const bool A = true && «1¦true»;`,
	"val_inv":           `package a; const uint8 A = 1 | «"x"¦2»;`,
	"val_float_mod":     `package a; const uint8 A = 7 % «2.0¦2»;`,
	"val_cond":          `package a; struct A { uint8 n; uint8 x if «n¦n == 1»; };`,
	"val_cond_string":   `package a; struct A { string n; uint8 x if «n¦n == "a"»; };`,
	"val_length":        `package a; struct A { string n; uint8 m; uint8 x[«n¦m»]; };`,
	"val_length_bool":   `package a; struct A { bool n; uint8 m; uint8 x[«n¦m»]; };`,
	"val_arg":           `package a; struct P(uint8 q) { uint8 a[q]; }; struct A { string n; uint8 m; P(«n¦m») x; };`,
	"val_enum_string":   `package a; enum «string¦uint8» E { A };`,
	"val_enum_default":  `package a; enum uint8 E { A }; struct S { E e = «300¦200»; };`,
	"val_enum_default2": `package a; enum uint8 E { A = 200 }; enum «int8¦uint8» F { A }; struct S { F e = E.A; };`,
	"val_enum_default3": `package a; enum uint64 E { A }; struct S { E e = «-1¦1»; };`,
	"val_enum_result":   `package a; enum uint8 E { A }; struct S { uint8 x; function E f() { return «300¦200»; } };`,
	"val_enum_arg":      `package a; enum uint8 E { A }; struct P(E e) { uint8 x if e == E.A; }; struct S { P(«256¦255») p; };`,
	"val_enum_label":    `package a; enum uint8 E { A }; choice P(E e) on e { case «256¦255»: uint8 x; };`,
	"val_mask_default":  `package a; bitmask uint8 M { A }; struct S { M m = M.A | «256¦128»; };`,
	"val_mask_default2": `package a; bitmask uint8 M { A }; struct S { M m = M.A << «8¦7»; };`,
	"val_mask_result":   `package a; bitmask uint8 M { A }; struct S { uint8 x; function M f() { return M.A | «256¦128»; } };`,
	"val_mask_label":    `package a; bitmask uint8 M { A }; choice P(M m) on m { case M.A | «256¦128»: uint8 x; };`,
	"val_enum_bool":     `package a; enum «bool¦uint8» E { A };`,
	"val_enum_float":    `package a; enum «float32¦uint8» E { A };`,
	"val_enum_struct":   `package a; struct S { uint8 x; }; enum «S¦uint8» E { A };`,
	"val_mask_string":   `package a; bitmask «string¦uint8» E { A };`,
	"val_item_string":   `package a; enum uint8 E { A = «"x"¦1» };`,
	"val_item_bool":     `package a; enum uint8 E { A = «true¦1» };`,
	"val_item_float":    `package a; enum uint8 E { A = «1.5¦1» };`,
	"val_const_struct":  `package a; struct S { uint8 x; }; const «S¦uint8» C = 1;`,
	"val_const_field":   `package a; struct S { uint8 x; }; const uint8 C = «S.x¦1»;`,
	"val_default":       `package a; struct A { uint8 x = «"s"¦1»; };`,
	"val_default_range": `package a; struct A { uint8 x = «256¦255»; };`,
	"val_label_string":  `package a; choice C(uint8 s) on s { case «"x"¦1»: uint8 a; };`,
	"val_label_range":   `package a; choice C(uint8 s) on s { case «256¦255»: uint8 a; };`,
	"val_selector":      `package a; struct S { uint8 q; }; choice C(S s) on «s¦s.q» { case 1: uint8 a; };`,
	"val_func_type":     `package a; struct A { string s; uint8 n; function uint8 f() { return «s¦n»; } };`,
	"val_func_bool":     `package a; struct A { uint8 n; function bool f() { return «n¦n == 1»; } };`,
	"val_lengthof":      `package a; struct A { uint8 n; uint8 m[]; uint8 x[lengthof(«n¦m»)]; };`,
	"val_index":         `package a; struct A { uint8 n; uint8 m[]; uint8 x if «n¦m»[0] == 1; };`,
	"val_isset":         `package a; enum uint8 M { P }; bitmask uint8 N { P }; struct A { «M¦N» m; uint8 x if isset(m, «M¦N».P); };`,
	"val_dot":           `package a; struct S { uint8 q; }; struct A { uint8 n; S s; uint8 x if «n¦s».q == 1; };`,
	"val_compare":       `package a; struct A { uint8 n; string s; uint8 x if n == «s¦3»; };`,
	"val_ternary":       `package a; struct A { uint8 n; function uint8 f() { return «n¦n == 1» ? 1 : 2; } };`,
	"val_width_zero":    `package a; struct A { bit<«0¦3»> x; };`,
	"val_width_big":     `package a; struct A { bit<«65¦64»> x; };`,
	"val_width_const":   `package a; const uint8 W = 65; const uint8 V = 64; struct A { bit<«W¦V»> x; };`,
	"val_width_string":  `package a; struct A { string s; uint8 n; bit<«s¦n»> x; };`,
	"val_bits_zero":     `package a; struct A { bit:«0¦3» x; };`,
	"val_bits_big":      `package a; struct A { bit:«65¦64» x; };`,
	"val_later_field":   `package a; struct A { «uint8 x if n == 1; uint8 n;¦uint8 n; uint8 x if n == 1;» };`,
	"val_self_field":    `package a; struct A { uint8 n; uint8 x if «x¦n» == 1; };`,
	"val_later_length":  `package a; struct A { «uint8 x[n]; uint8 n;¦uint8 n; uint8 x[n];» };`,
	"val_align":         `package a; struct A { uint8 n; align(«n¦8»): uint8 x; };`,
	"val_align_zero":    `package a; struct A { uint8 n; align(«0¦8»): uint8 x; };`,
	"val_index_const":   `package a; const uint8 C = «@index¦1»;`,
	"val_index_field":   `package a; struct A { uint8 n; uint8 x[«@index¦n»]; };`,
	"val_packed_single": `package a; struct A { packed uint8 n«¦[]»; };`,
	"val_enum_as_type":  `package a; const uint8 K = 1; struct A { «K¦uint8» x; };`,
	"val_item_as_type":  `package a; enum uint8 E { P }; struct A { E«.P¦» x; };`,
	"val_type_as_value": `package a; struct S { uint8 q; }; struct A { uint8 n; uint8 x[«S¦n»]; };`,
	"val_enum_as_value": `package a; enum uint8 S { Q }; struct A { uint8 n; uint8 x if n == «S¦3»; };`,

	// values that are not values
	"val_array_value":     `package a; struct A { uint8 a[]; uint8 n; uint8 x[«a¦n»]; };`,
	"val_array_cond":      `package a; struct A { uint8 a[]; bool b if «(a)¦lengthof(a)» > 2; };`,
	"val_array_valueof":   `package a; struct A { uint8 a[]; uint8 n; uint8 x[valueof(«a¦n»)]; };`,
	"val_array_result":    `package a; struct A { uint8 a[]; function uint32 f() { return «a¦lengthof(a)»; } };`,
	"val_array_arg":       `package a; struct P(uint8 n) { uint8 x; }; struct A { uint8 a[2]; P(a«¦[0]») p; };`,
	"val_array_equal":     `package a; struct A { uint8 a[]; uint8 b[]; bool c if «a == b¦lengthof(a) == lengthof(b)»; };`,
	"val_compound_equal":  `package a; struct S { uint8 v; }; struct A { S a; S b; bool c if a«¦.v» == b«¦.v»; };`,
	"val_func_uncalled":   `package a; struct S { uint8 v; function uint8 f() { return v; } }; struct A { S s; uint8 x[s.f«¦()»]; };`,
	"val_func_uncalled2":  `package a; struct A { uint8 v; function uint8 f() { return v; } function uint8 g() { return f«¦()» + 1; } };`,
	"val_extern_length":   `package a; struct A { «extern¦uint8» n; uint8 x[n]; };`,
	"val_bytes_cond":      `package a; struct A { «bytes¦uint8» n; uint8 x if n > 2; };`,
	"val_bytes_label":     `package a; choice C(«bytes¦uint8» s) on s { case 1: uint8 x; };`,
	"val_bytes_result":    `package a; struct A { uint8 x; function «bytes¦uint8» f() { return x; } };`,
	"val_bytes_extern":    `package a; struct A { extern x; function «bytes¦extern» f() { return x; } };`,
	"val_type_length":     `package a; subtype uint8 U; struct A { uint8 n; uint8 x[«U¦n»]; };`,
	"val_type_width":      `package a; subtype uint8 U; struct A { uint8 n; bit<«U¦n»> x; };`,
	"val_type_arg":        `package a; enum uint8 E { I }; struct P(E e) { uint8 x; }; struct A { E e; P(«E¦e») p; };`,
	"val_type_selector":   `package a; enum uint8 E { I }; choice C(E e) on «E¦e» { case I: uint8 x; };`,
	"val_type_operand":    `package a; subtype uint8 U; struct A { uint8 n; uint8 x if «U¦n» + 1 == 2; };`,
	"val_compound_arg":    `package a; struct S { uint8 v; }; struct R { uint8 v; }; struct P(S s) { uint8 x[s.v]; }; struct A { «R¦S» s; P(s) p; };`,
	"val_compound_result": `package a; struct S { uint8 v; }; struct R { uint8 v; }; struct A { S s; function «R¦S» f() { return s; } };`,
	"val_arg_range":       `package a; struct P(uint8 n) { uint8 x; }; struct A { P(«256¦255») p; };`,
	"val_arg_negative":    `package a; struct P(uint8 n) { uint8 x; }; struct A { P(«-1¦1») p; };`,
	"val_result_range":    `package a; struct A { uint8 x; function int8 f() { return «128¦127»; } };`,
	"val_width_uint8":     `package a; struct A { uint8 n; «uint8¦bit»<n> x; };`,
	"val_width_str":       `package a; struct A { uint8 n; «string¦int»<n> x; };`,
	"val_width_subtype":   `package a; subtype bit:3 U; struct A { uint8 n; «U¦bit»<n + 1> x; };`,
	"val_nowidth":         `package a; struct A { bit«¦:3» x; };`,
	"val_nowidth_array":   `package a; struct A { int«¦:9» x[]; };`,
	"val_nowidth_subtype": `package a; subtype bit«¦:3» S; struct A { S x; };`,
	"val_nowidth_arg":     `package a; struct T<X> { X x; }; struct A { T<int«¦:5»> t; };`,
	"val_nowidth_enum":    `package a; enum bit«¦:3» E { A };`,
	"val_zero_modulus":    `package a; struct A { uint8 n; uint8 x[n % «0¦3»]; };`,
	"val_zero_divisor":    `package a; const uint8 K = 4; struct A { uint8 n; uint8 x[n / «(K - K)¦(K - 2)»]; };`,
	"val_zero_div_cond":   `package a; struct A { uint8 n; uint8 x if n / «0¦2» == 1; };`,
	"val_zero_div_func":   `package a; struct A { uint8 n; function uint8 f() { return n % «0¦7»; } };`,
	"val_negative_index":  `package a; struct A { uint8 x[3]; uint8 y if x[«-1¦1»] == 1; };`,
	"val_param_self":      `package a; struct A(«A¦uint8» p) { uint8 x; };`,
	"val_param_mutual":    `package a; struct B { uint8 y; «A(y)¦uint8» a; }; struct A(«B¦uint8» p) { uint8 x; };`,
	"val_index_selector":  `package a; choice C(uint8 s) on «@index¦s» { case 0: uint8 a; };`,
	"val_selector_field":  `package a; choice C(uint8 s) on «a¦s» { case 0: uint8 a; };`,
	"val_choice_sibling":  `package a; choice C(uint8 s) on s { case 0: uint8 a; case 1: uint8 b[«a¦s»]; };`,
	"val_union_sibling":   `package a; union U(uint8 s) { uint8 a; uint8 b[«a¦s»]; };`,
	"unk_import_other":    "package a; import b.«X¦K»; struct A { uint8 x[K]; };\n-- b.zs\npackage b; const uint8 K = 1; struct X { uint8 y; };",
	"unk_foreign_param":   `package a; struct B(uint8 k) { uint8 y[k]; }; struct A { uint8 n; B(n) b; uint8 x[«k¦n»]; };`,
	"unk_foreign_field":   `package a; struct B { uint8 k; }; struct A { B b; uint8 x[«k¦b.k»]; };`,
	"syn_underscore":      `package a; struct «_¦U» { uint8 x; };`,
	"syn_underscores":     `package a; struct A { uint8 «__¦u»; };`,
}

// expand gives the files of a catalogue entry, with (bad) or without the error.
func expand(text string, bad bool) map[string]string {
	var out strings.Builder
	for {
		i := strings.Index(text, "«")
		if i < 0 {
			break
		}
		out.WriteString(text[:i])
		mark, rest, _ := strings.Cut(text[i+len("«"):], "»")
		wrong, right, _ := strings.Cut(mark, "¦")
		if bad {
			out.WriteString(wrong)
		} else {
			out.WriteString(right)
		}
		text = rest
	}
	out.WriteString(text)
	files := map[string]string{}
	name := "a.zs"
	var cur []string
	for _, line := range strings.Split(out.String(), "\n") {
		if n, ok := strings.CutPrefix(line, "-- "); ok {
			files[name] = strings.Join(cur, "\n") + "\n"
			name, cur = n, nil
			continue
		}
		cur = append(cur, line)
	}
	files[name] = strings.Join(cur, "\n") + "\n"
	return files
}

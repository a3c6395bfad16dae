package main

import (
	"fmt"
	"strings"
)

// matrixTypes are field types: name, type reference, extra context.
type mtype struct {
	name   string
	ref    string
	noInit bool
	init   string
}

func matrixTypes() []mtype {
	return []mtype{
		{name: "bool", ref: "bool", init: "true"},
		{name: "u8", ref: "uint8", init: "3"}, {name: "u16", ref: "uint16", init: "3"}, {name: "u32", ref: "uint32", init: "3"}, {name: "u64", ref: "uint64", init: "3"},
		{name: "i8", ref: "int8", init: "-3"}, {name: "i16", ref: "int16", init: "-3"}, {name: "i32", ref: "int32", init: "-3"}, {name: "i64", ref: "int64", init: "-3"},
		{name: "b1", ref: "bit:1", init: "1"}, {name: "b9", ref: "bit:9", init: "3"}, {name: "b64", ref: "bit:64", init: "3"},
		{name: "s1", ref: "int:1", init: "-1"}, {name: "s33", ref: "int:33", init: "-3"},
		{name: "dynb", ref: "bit<par>", noInit: true}, {name: "dyni", ref: "int<(par & 31) + 1>", noInit: true},
		{name: "vu", ref: "varuint", init: "3"}, {name: "vu16", ref: "varuint16", init: "3"}, {name: "vu32", ref: "varuint32", init: "3"}, {name: "vu64", ref: "varuint64", init: "3"},
		{name: "vi", ref: "varint", init: "-3"}, {name: "vi16", ref: "varint16", init: "-3"}, {name: "vi32", ref: "varint32", init: "-3"}, {name: "vi64", ref: "varint64", init: "-3"},
		{name: "vs", ref: "varsize", init: "3"},
		{name: "f16", ref: "float16", init: "1.5f"}, {name: "f32", ref: "float32", init: "1.5f"}, {name: "f64", ref: "float64", init: "1.5"},
		{name: "str", ref: "string", init: "\"a\\\"b\""}, {name: "byt", ref: "bytes", noInit: true}, {name: "ext", ref: "extern", noInit: true},
		{name: "enm", ref: "MEnum", init: "MEnum.B"}, {name: "enmv", ref: "MEnumVar", init: "MEnumVar.Q"}, {name: "msk", ref: "MMask", init: "MMask.X | MMask.Y"},
		{name: "st", ref: "MStruct", noInit: true}, {name: "stp", ref: "MStructP(par)", noInit: true}, {name: "emp", ref: "MEmpty", noInit: true},
		{name: "un", ref: "MUnion", noInit: true}, {name: "unp", ref: "MUnionP(par)", noInit: true}, {name: "ch", ref: "MChoice(par)", noInit: true},
		{name: "subu8", ref: "SubU8", init: "3"}, {name: "subsub", ref: "SubSubU8", init: "3"}, {name: "subb", ref: "SubB5", init: "3"}, {name: "substr", ref: "SubStr", init: "\"x\""},
		{name: "subext", ref: "SubExt", noInit: true}, {name: "subbyt", ref: "SubByt", noInit: true}, {name: "subf", ref: "SubF", init: "0.5"},
		{name: "subst", ref: "SubStruct", noInit: true}, {name: "substp", ref: "SubStructP(par)", noInit: true}, {name: "subun", ref: "SubUnion", noInit: true}, {name: "subch", ref: "SubChoice(par)", noInit: true},
		{name: "subenm", ref: "SubEnum", noInit: true}, {name: "submsk", ref: "SubMask", noInit: true},
		{name: "tst", ref: "MTempl<uint16>", noInit: true}, {name: "tst2", ref: "MTempl<MEnum>", noInit: true}, {name: "tst3", ref: "MTempl<MStruct>", noInit: true},
		{name: "tch", ref: "MTChoice<string, bit:3>(par)", noInit: true}, {name: "tun", ref: "MTUnion<MTempl<varint> >", noInit: true}, {name: "inst", ref: "MInst", noInit: true},
	}
}

const matrixDefs = `
enum uint8 MEnum { A, B = 7, C };
enum varint16 MEnumVar { P = -3, Q = 5, R };
bitmask uint16 MMask { X, Y = 8, Z };
struct MStruct { uint8 a; optional string b; };
struct MStructP(uint8 p) { uint8 a[p & 3]; };
struct MEmpty { };
union MUnion { uint8 a; string b; MStruct c; };
union MUnionP(uint8 p) { bit<(p & 7) + 1> a; MStructP(p) b; };
choice MChoice(uint8 p) on p { case 1: uint8 a; case 2: case 3: MStruct b; case 4: ; default: string c; };
subtype uint8 SubU8;
subtype SubU8 SubSubU8;
subtype bit:5 SubB5;
subtype string SubStr;
subtype extern SubExt;
subtype bytes SubByt;
subtype float64 SubF;
subtype MStruct SubStruct;
subtype MStructP SubStructP;
subtype MUnion SubUnion;
subtype MChoice SubChoice;
subtype MEnum SubEnum;
subtype MMask SubMask;
struct MTempl<T> { T a; T b[]; packed T c[]; optional T d; };
choice MTChoice<T, U>(uint8 p) on p { case 0: T a; case 1: U b[]; default: packed U c[2]; };
union MTUnion<T> { T a; T b[]; };
instantiate MTempl<int8> MInst;
`

// matrix writes one small type per combination of field type, modifier and
// kind of container: every Go file has to import what it alone needs.
func matrix(imported bool) map[string]string {
	var b strings.Builder
	for _, t := range matrixTypes() {
		n := strings.ToUpper(t.name[:1]) + t.name[1:]
		st := func(kind, field string) { fmt.Fprintf(&b, "struct St%s%s(uint8 par) { %s };\n", n, kind, field) }
		st("Plain", t.ref+" f;")
		st("Opt", "optional "+t.ref+" f;")
		st("Cond", t.ref+" f if par > 3;")
		st("CondOpt", "bool t; "+t.ref+" f if t && par != 9;")
		st("Align", "align(8): "+t.ref+" f;")
		st("AlignOpt", "align(16): optional "+t.ref+" f;")
		st("Arr", t.ref+" f[];")
		st("Fix", t.ref+" f[par & 3];")
		st("Pack", "packed "+t.ref+" f[];")
		st("PackFix", "packed "+t.ref+" f[3];")
		st("OptArr", "optional "+t.ref+" f[];")
		st("OptPack", "optional packed "+t.ref+" f[];")
		st("CondArr", t.ref+" f[] if par == 1;")
		st("CondPackFix", "packed "+t.ref+" f[par & 1] if par != 1;")
		st("AlignArr", "align(4): "+t.ref+" f[];")
		st("AlignOptPack", "align(2): optional packed "+t.ref+" f[];")
		if !t.noInit {
			st("Init", t.ref+" f = "+t.init+";")
			st("InitOpt", "optional "+t.ref+" f = "+t.init+";")
			st("InitCond", t.ref+" f = "+t.init+" if par == 1;")
		}
		fmt.Fprintf(&b, "union Un%sPlain(uint8 par) { %s f; };\n", n, t.ref)
		fmt.Fprintf(&b, "union Un%sArr(uint8 par) { %s f[]; %s g[2]; };\n", n, t.ref, t.ref)
		fmt.Fprintf(&b, "union Un%sPack(uint8 par) { packed %s f[]; packed %s g[par & 1]; };\n", n, t.ref, t.ref)
		fmt.Fprintf(&b, "choice Ch%sPlain(uint8 par) on par { case 1: %s f; };\n", n, t.ref)
		fmt.Fprintf(&b, "choice Ch%sArr(uint8 par) on par { case 1: case 7: %s f[]; case 2: ; default: %s g[2]; };\n", n, t.ref, t.ref)
		fmt.Fprintf(&b, "choice Ch%sPack(uint8 par) on par & 3 { case 1: packed %s f[]; default: packed %s g[par & 1]; };\n", n, t.ref, t.ref)
		fmt.Fprintf(&b, "struct In%s(uint8 par) { packed St%sArr(par) a[]; packed Un%sArr(par) b[]; packed Ch%sArr(par) c[]; packed St%sOptArr(par) d[]; packed St%sCond(par) e[]; packed St%sAlign(par) g[]; };\n", n, n, n, n, n, n, n)
		if !strings.Contains(t.ref, "par") {
			fmt.Fprintf(&b, "struct Te%s<T> { T a; optional T b; T c[]; packed T d[]; };\nstruct TeUse%s { Te%s<%s> x; packed Te%s<%s> y[]; };\n", n, n, n, t.ref, n, t.ref)
			if !strings.Contains(t.ref, "<") && !t.noInit {
				fmt.Fprintf(&b, "const %s CONST_%s = %s;\n", t.ref, strings.ToUpper(t.name), t.init)
				fmt.Fprintf(&b, "struct Co%s { %s f = CONST_%s; };\n", n, t.ref, strings.ToUpper(t.name))
				fmt.Fprintf(&b, "struct Fu%s { %s f; function %s get() { return f; } };\n", n, t.ref, t.ref)
			}
			fmt.Fprintf(&b, "struct Pa%s(%s p) { uint8 a; };\nstruct PaUse%s { %s f; Pa%s(f) x; Pa%s(f) y[]; packed Pa%s(f) z[]; optional Pa%s(f) o; };\n", n, t.ref, n, t.ref, n, n, n, n)
			fmt.Fprintf(&b, "struct PaArr%s { %s f[]; Pa%s(f[@index]) y[lengthof(f)]; packed Pa%s(f[@index]) z[lengthof(f)]; };\n", n, t.ref, n, n)
			fmt.Fprintf(&b, "struct FuArr%s { %s f[]; function %s first() { return f[0]; } function uint32 num() { return lengthof(f); } };\n", n, t.ref, t.ref)
		}
	}
	if !imported {
		return map[string]string{"matrix.zs": "package mat.all;\n" + matrixDefs + b.String()}
	}
	use := "package mat.use.deep;\nimport mat.def.*;\n" + b.String()
	return map[string]string{"mat/def.zs": "package mat.def;\n" + matrixDefs, "mat/use/deep.zs": use}
}

package main

type plan struct {
	groups                 []string // corpus groups; "*": all that are not "x..."; "repo": the repository's schemas
	random, randomThorough int      // how many schema sets are written at random
	meta, metaThorough     int      // rewritings of each suite
	worker                 bool
	race                   bool
	noBuild                bool // the driver runs the generator itself
	shards                 int
	level                  string
	rule                   string
	assume                 []string
	driver                 func(r *Run)
}

func (p *plan) levelName() string {
	if p.level == "" {
		return "exploration"
	}
	return p.level
}

const valueRule = "A case is one PRNG-determined value of one schema type (boundary values, schema literals, correlated sequences, nested parameters consistent with the schema), run through the generated Go code. Non-trivial: its encoding has at least one bit. Distinct: by type and reference encoding."

var plans = map[string]*plan{
	"C01": {worker: true, rule: "A case is one value through one runtime codec (functions and array element traits of every scalar type and bit width) at one bit position, written and read through a recording bit-list monitor and the library's own bit stream. Distinct: by codec, value and position."},
	"C02": {worker: true, rule: "A case is one log of bit stream operations run beside a list-of-bits model, read back with the same and with other operations from four kinds of sources. Distinct: by operations and bits; non-trivial: at least one bit."},
	"C03": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C04": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C05": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C06": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C07": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, level: "fault_enumeration", rule: valueRule},
	"C08": {level: "fault_enumeration", groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C09": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C10": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, race: true, shards: 24, rule: "A case is one operation (encode, size, decode good or bad input, load defaults, call generated or enum functions, one runtime codec) run by one goroutine while others run theirs, under the Go race detector, judged against the reference model and against the same operation alone. Distinct: by operation and value."},
	"C11": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C13": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule + " Constants count by name."},
	"C14": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: "A case is one item of one enum or bitmask type, or one number (all items, their neighbours, the ends of the base type and random ones) of one such type, sent through the constants, the text, database and wire forms. Distinct: by type and number."},
	"C20": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C12": {groups: []string{"*"}, random: 10, randomThorough: 150, worker: true, rule: valueRule},
	"C15": {groups: []string{"*", "xdet"}, random: 24, randomThorough: 150, noBuild: true, driver: determinism, rule: "A case is one run of the generator over one schema set with one set of options, repeated, with other orders of files, other spellings of paths, other working directories, environments and leftovers; the whole output tree is compared. Distinct: by schema set, options and kind of run."},
	"C16": {groups: []string{"*", "xnames", "xdet"}, random: 24, randomThorough: 150, noBuild: true, driver: compiles, rule: "A case is one generated Go file of one schema set with one combination of options (formatting, SQL), compiled with the whole set, compared with the schema's declarations and checked for its format. Schema sets: hand written, the repository's, random ones, and the product of field types, modifiers and containers. Distinct: by schema set, options and file."},
	"C17": {groups: []string{"*"}, noBuild: true, driver: invalid, rule: "A case is one invalid schema set, or the valid one next to it: a catalogue of definite errors, each with its correction, and random token mutations of valid schemas that the reference parser does not accept. Distinct: by schema text."},
	"C18": {groups: []string{"*"}, noBuild: true, driver: placement, level: "fault_enumeration", rule: "A case is one run of the generator with its output directory, everything around it and its exit looked at: one schema set, set of package names, spelling of the output directory, asked for package, path length limit, or one fault (obstacle, missing permission, size limit, failing or fatal system call) with or without the output of an earlier version. Distinct: by these; non-trivial: an injected fault was hit."},
	"C19": {groups: []string{"*"}, random: 8, randomThorough: 60, meta: 2, metaThorough: 10, worker: true, rule: "A case is one value of one type of one schema set, encoded, sized and decoded by the code for the set and by the code for a rewriting of it (subtypes, constants and templates introduced or removed, declarations moved to imported packages in several import styles, reordered). Distinct: by rewriting, type and encoding."},
}

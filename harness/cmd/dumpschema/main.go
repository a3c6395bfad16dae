// Command dumpschema prints the random schema set of a seed and number.
package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"

	"github.com/woven-planet/go-zserio/verif/zs"
)

func main() {
	seed, _ := strconv.ParseInt(os.Args[1], 10, 64)
	i, _ := strconv.ParseInt(os.Args[2], 10, 64)
	rng := rand.New(rand.NewSource(seed*100003 + i))
	g := &zs.SchemaGen{R: rng, Reuse: rng.Intn(2) == 0}
	files := g.Generate(1+rng.Intn(3), 6+rng.Intn(10))
	if rng.Intn(3) == 0 {
		files = zs.SprinkleFiles(rng, files)
	}
	for f, s := range files {
		fmt.Printf("// %s\n%s", f, s)
	}
}

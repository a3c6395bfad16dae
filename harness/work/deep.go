package work

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	zserio "github.com/woven-planet/go-zserio"
	"runtime/debug"
)

// Inputs that nest a recursive type in itself, by type: the bytes of one
// level (or of several), and what the types nest.
var deepTypes = map[string][]byte{
	"DeepOpt":    {0xff},
	"DeepArr":    {1},
	"DeepPacked": {1},
}

// deepSizes are the lengths of the inputs: the first one is what any decoder
// has to cope with, the second one is there to find the limit.
var deepSizes = []struct {
	name string
	n    int
}{{"nested", 64 << 10}, {"nested-4MB", 4 << 20}}

func init() {
	checks["deep"] = func(c *Ctx) {
		debug.SetMaxStack(1000000000) // the default
		var n int
		fmt.Sscan(os.Getenv("VERIF_DEEP"), &n)
		for _, e := range c.allEntries() {
			in := bytes.Repeat(deepTypes[e.Name], n)
			err := zserio.Unmarshal(in, e.New().(zserio.Unmarshaler))
			fmt.Println("deep result:", err)
		}
	}
}

// deepNesting decodes deeply nested values of recursive types, each in a
// process of its own: overflowing the stack ends the process.
func (c *Ctx) deepNesting() {
	if c.Shard != 0 {
		return
	}
	for _, e := range c.allEntries() {
		if deepTypes[e.Name] == nil || e.Suite != "packed_recursive" {
			continue
		}
		for _, size := range deepSizes {
			c.Journal(e.ID() + " " + size.name)
			c.Eval(e.ID()+" "+size.name, true)
			c.Count("deep_inputs", 1)
			cmd := exec.Command(os.Args[0], "-check", "deep", "-suites", c.Dir, "-only", e.ID(), "-out", os.DevNull)
			cmd.Env = append(os.Environ(), fmt.Sprintf("VERIF_DEEP=%d", size.n), "GOTRACEBACK=single")
			var out bytes.Buffer
			cmd.Stdout, cmd.Stderr = &out, &out
			if err := cmd.Start(); err != nil {
				fmt.Fprintln(os.Stderr, "deep:", err)
				os.Exit(3)
			}
			t := time.AfterFunc(100*time.Second, func() { cmd.Process.Kill() })
			err := cmd.Wait()
			inTime := t.Stop()
			text := out.String()
			cs := map[string]any{"type": e.ID(), "input": fmt.Sprintf("%d times %x", size.n, deepTypes[e.Name])}
			switch {
			case !inTime:
				c.Violation(e.ID()+"/"+size.name+"/hang", "decoding did not end within 100 s", cs)
			case strings.Contains(text, "stack exceeds"):
				c.Violation(e.ID()+"/"+size.name, fmt.Sprintf("decoding %d bytes that nest the type in itself overflows the stack and ends the process", size.n*len(deepTypes[e.Name])), cs)
			case err != nil || !strings.Contains(text, "deep result:"):
				c.Violation(e.ID()+"/"+size.name+"/crash", fmt.Sprintf("%v: %s", err, firstLine(text)), cs)
			}
		}
	}
}

//go:build !verifgen

package props

import (
	"os"
	"path/filepath"

	"github.com/mitch000001/go-hbci/verifmc/engine"
)

func init() {
	// reached only if what the generator made could not be built
	engine.Register("C22", func(r *engine.Runner) {
		r.Explore("generated code", "what the generator made of every declaration is compiled", -1, func(c *engine.Ctx) {
			log, err := os.ReadFile(filepath.Join(os.Getenv("MC_GEN"), "build.log"))
			if err != nil {
				c.Logf("%v: run check.sh", err)
				return
			}
			if len(log) > 3000 {
				log = log[:3000]
			}
			c.Fail("compile", "the generated decoders do not compile:\n%s", log)
		})
	})
}

package props

import "github.com/mitch000001/go-hbci/verifmc/engine"

func init() {
	engine.Register("C01", func(r *engine.Runner) { worldSpaces(r, aspects{numbering: true}) })
	engine.Register("C02", func(r *engine.Runner) { worldSpaces(r, aspects{lifecycle: true}) })
	engine.Register("C03", func(r *engine.Runner) { worldSpaces(r, aspects{identity: true}) })
	engine.Register("C04", func(r *engine.Runner) {
		worldSpaces(r, aspects{outcome: true})
		clientOutcomes(r)
		everyCode(r, aspects{outcome: true})
	})
	engine.Register("C05", func(r *engine.Runner) { worldSpaces(r, aspects{params: true}) })
}

package props

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

// toolDir is a directory for programs and scratch files; check.sh makes and
// removes it.
func toolDir() string {
	return memo("tool directory", func() string {
		if d := os.Getenv("MC_TMP"); d != "" {
			return d
		}
		d, err := os.MkdirTemp("", "mc-tools-")
		if err != nil {
			panic(err)
		}
		return d
	})
}

// tool builds a program of /repo as it is now.
func tool(pkg string) string {
	out := filepath.Join(toolDir(), "tool-"+filepath.Base(pkg))
	if _, err := os.Stat(out); err == nil {
		return out
	}
	cmd := exec.Command("go", "build", "-o", out, pkg)
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
	if text, err := cmd.CombinedOutput(); err != nil {
		panic(fmt.Sprintf("%s cannot be built: %v\n%s", pkg, err, text))
	}
	return out
}

package core

// What the conformance driver needs from core's internal packages.
import (
	"github.com/phoenix-tui/phoenix/core/internal/domain/service"
)

type vEnv struct {
	vars map[string]string
	plat string
}

func (e vEnv) Get(key string) string { return e.vars[key] }
func (e vEnv) Platform() string      { return e.plat }

// VDetect detects the capabilities of made-up surroundings.
func VDetect(vars map[string]string, platform string) *Capabilities {
	return &Capabilities{domain: service.NewCapabilitiesDetector(vEnv{vars, platform}).Detect()}
}

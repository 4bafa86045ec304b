package cli

import (
	"testing"

	"verifsim/core"
)

func TestWorker(t *testing.T) { core.Main(t) }

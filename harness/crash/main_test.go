package crash

import (
	"testing"

	"verifharness/pbt"
)

func TestMain(m *testing.M) { pbt.Main(m) }

func TestPBT(t *testing.T) { pbt.RunAll(t) }

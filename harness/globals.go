package harness

import "testing"

var (
	// setRapid configures the number of cases and the seed of the next rapid check.
	setRapid = func(checks int, seed uint64) {}
	// theT is the running test (needed by testing/synctest).
	theT *testing.T
	// scratch is a directory for the files of this shard.
	scratch string
)

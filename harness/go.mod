module verifharness

go 1.25

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/webability-go/xcore v1.0.0
	github.com/webability-go/xcore/v2 v2.0.0
	golang.org/x/text v0.3.8
	pgregory.net/rapid v1.3.0
)

replace github.com/webability-go/xcore => /repo

replace github.com/webability-go/xcore/v2 => /repo/v2

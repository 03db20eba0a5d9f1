module verifharness

go 1.23

require (
	github.com/v2pro/plz v0.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

replace github.com/v2pro/plz => /repo

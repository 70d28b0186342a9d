module verifharness

go 1.24.0

require (
	github.com/mkobetic/coin v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/mkobetic/coin => /repo

replace github.com/piquette/finance-go => github.com/psanford/finance-go v0.0.0-20250222221941-906a725c60a0

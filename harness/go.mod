module github.com/mewmew/float/verif

go 1.23

require (
	github.com/mewmew/float v0.0.0-00010101000000-000000000000
	pgregory.net/rapid v1.3.0
)

replace github.com/mewmew/float => /repo

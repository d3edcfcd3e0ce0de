module gmverif

go 1.24

require (
	github.com/ZZMarquis/gm v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/ZZMarquis/gm => /repo

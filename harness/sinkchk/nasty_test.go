package sinkchk

// nasty panics when it is turned into text, depth times over.
type nasty struct{ depth int }

func (n nasty) Error() string {
	if n.depth > 0 {
		panic(nasty{n.depth - 1})
	}
	return "nasty"
}

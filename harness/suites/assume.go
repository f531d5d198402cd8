package suites

// Assumptions lists what a check of the property takes for granted.
func Assumptions(prop string) []string {
	a := []string{
		"the instrumented copy of the sources behaves like the original: the instrumenter replaces channel, lock, timer, randomness, map-iteration and network primitives by controlled equivalents and adds scheduling points, nothing else",
		"the Go compiler and standard library outside the replaced primitives are correct",
		"behaviour beyond the stated bounds is not explored",
	}
	return append(a, extraAssumptions[prop]...)
}

var extraAssumptions = map[string][]string{}

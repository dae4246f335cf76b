package vs

// The instrumented packages register here how their package-level variables
// return to their initial values, in the order of their initialisation.
var (
	resets  []func()
	globals []interface{}
)

// OnReset registers a package.
func OnReset(f func(), vars ...interface{}) {
	resets = append(resets, f)
	globals = append(globals, vars...)
}

// Globals are pointers to the package-level variables that are reset.
func Globals() []interface{} { return globals }

// Zero empties a variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

func resetAll() {
	for _, f := range resets {
		f()
	}
}

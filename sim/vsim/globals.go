package vsim

// The package variables of the command line program. Each simulated process
// starts with freshly initialised ones, and they are exchanged when control
// passes from one process to another.

type global struct {
	save func() any
	load func(v any)
	zero func()
}

var (
	globals []global
	inits   []func()
	// OnSwitch runs when control passes to another task.
	OnSwitch func(to *Task)
)

// RegVar registers a package variable.
func RegVar[T any](p *T) bool {
	globals = append(globals, global{
		func() any { return *p },
		func(v any) {
			if v == nil { // a nil interface value
				var z T
				*p = z
				return
			}
			*p = v.(T)
		},
		func() { var z T; *p = z },
	})
	return true
}

// RegInit registers the initialisation of package variables.
func RegInit(f func()) bool {
	inits = append(inits, f)
	return true
}

// ResetGlobals makes them what they are when a program starts.
func ResetGlobals() {
	for _, g := range globals {
		g.zero()
	}
	for _, f := range inits {
		f()
	}
}

// SaveGlobals reads them.
func SaveGlobals() []any {
	l := make([]any, len(globals))
	for i, g := range globals {
		l[i] = g.save()
	}
	return l
}

// LoadGlobals sets them.
func LoadGlobals(l []any) {
	for i, g := range globals {
		g.load(l[i])
	}
}

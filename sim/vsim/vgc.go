package vsim

import (
	"reflect"
	"runtime"
)

// Finalizers and cleanups run when a simulation says so, and not when the
// garbage collector gets to them.

type cleanup struct {
	obj any
	f   func()
}

// AddCleanup is runtime.AddCleanup.
func AddCleanup[T, S any](ptr *T, f func(S), arg S) runtime.Cleanup {
	if cs != nil {
		cs.cleanups = append(cs.cleanups, cleanup{nil, func() { f(arg) }})
	}
	return runtime.Cleanup{}
}

// SetFinalizer is runtime.SetFinalizer.
func SetFinalizer(obj, f any) {
	if cs == nil {
		return
	}
	for i, c := range cs.cleanups {
		if c.obj == obj {
			cs.cleanups = append(cs.cleanups[:i:i], cs.cleanups[i+1:]...)
			break
		}
	}
	if f != nil {
		cs.cleanups = append(cs.cleanups, cleanup{obj, func() { reflect.ValueOf(f).Call([]reflect.Value{reflect.ValueOf(obj)}) }})
	}
}

// RunCleanups runs those of this simulation; it returns how many there were.
func RunCleanups() int {
	l := cs.cleanups
	cs.cleanups = nil
	for _, c := range l {
		c.f()
	}
	return len(l)
}

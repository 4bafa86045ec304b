package simrt

// Package variables of the code under test are initialised anew in every run,
// so that a run depends on nothing that happened before it and everything they
// refer to (channels, timers) belongs to the run.

type global struct {
	id string
	f  func()
}

var (
	globalOrder []global           // as the program initialised them
	globalZero  []func()           // without an initialiser
	globalIndex = map[string]int{} // of globalOrder, by id
)

// Seq notes that the variable id is initialised now.
func Seq[T any](id string, v T) T {
	globalIndex[id] = len(globalOrder)
	globalOrder = append(globalOrder, global{id: id})
	return v
}

// OnReset registers how a variable is initialised: "" for an init function or
// several variables at once, "0" for the zero value, otherwise the id used with Seq.
func OnReset(id string, f func()) {
	switch id {
	case "":
		globalOrder = append(globalOrder, global{f: f})
	case "0":
		globalZero = append(globalZero, f)
	default:
		if i, ok := globalIndex[id]; ok {
			globalOrder[i].f = f
		}
	}
}

func resetGlobals() {
	for _, f := range globalZero {
		f()
	}
	for i := range globalOrder {
		if globalOrder[i].f != nil && !try(globalOrder[i].f) {
			globalOrder[i].f = nil // something that can be done once only
		}
	}
}

func try(f func()) (ok bool) {
	defer func() { recover() }()
	f()
	return true
}

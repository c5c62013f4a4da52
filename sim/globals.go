package main

// Package-level variables of the code under test.  Each simulated process has its own set: whenever another
// process gets the turn, the variables are exchanged.  A process that starts initialises them anew.

import (
	"reflect"
	"runtime"
)

// gset is the content of all package-level variables of one simulated process.
type gset struct {
	vals  []reflect.Value
	front *frontend
}

var gcur *gset // whose content the variables have now
var gptrs []reflect.Value

func init() {
	for _, r := range runtime.SimRegs {
		for _, p := range r.Ptrs {
			gptrs = append(gptrs, reflect.ValueOf(p).Elem())
		}
	}
}

func freshGlobals() *gset { return &gset{} }

// install gives the variables the content of g and returns what was installed before.
func install(g *gset) *gset {
	old := gcur
	if g == old || g == nil {
		return old
	}
	if old != nil {
		if old.vals == nil {
			old.vals = make([]reflect.Value, len(gptrs))
			for i, p := range gptrs {
				old.vals[i] = reflect.New(p.Type()).Elem()
			}
		}
		for i, p := range gptrs {
			old.vals[i].Set(p)
		}
	}
	gcur = g
	if g.vals == nil {
		for _, r := range runtime.SimRegs {
			r.Reset()
		}
		return old
	}
	for i, p := range gptrs {
		p.Set(g.vals[i])
	}
	return old
}

// with runs fn with the variables of g.
func (g *gset) with(fn func()) {
	old := install(g)
	defer install(old)
	fn()
}

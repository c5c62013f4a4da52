//go:build fronts

package main

import (
	"github.com/c-bata/go-prompt"

	"verif/sim/clifront"
	simprompt "verif/sim/prompt"
	"verif/sim/wasmfront"
)

func init() {
	pageMain = wasmfront.Main
	consoleMain = clifront.Main
	simprompt.SimTerminal = func() simprompt.Terminal { return terminal{gcur.front} }
}

type terminal struct{ f *frontend }

func (t terminal) Next() (string, bool)               { return t.f.next() }
func (t terminal) Typed(s string, l []prompt.Suggest) { t.f.typed += len(l) }
func (t terminal) Run(line string, fn func(string))   { t.f.exec(func() { fn(line) }) }

// Package prompt stands in for github.com/c-bata/go-prompt in the simulated console: documents, suggestions and
// options are the library's own, the terminal is the simulator's.
package prompt

import real "github.com/c-bata/go-prompt"

type (
	Executor      = real.Executor
	Completer     = real.Completer
	Document      = real.Document
	Suggest       = real.Suggest
	Filter        = real.Filter
	Option        = real.Option
	Buffer        = real.Buffer
	Color         = real.Color
	Key           = real.Key
	KeyBind       = real.KeyBind
	KeyBindFunc   = real.KeyBindFunc
	ExitChecker   = real.ExitChecker
	History       = real.History
	ConsoleParser = real.ConsoleParser
	ConsoleWriter = real.ConsoleWriter
)

var (
	FilterHasPrefix               = real.FilterHasPrefix
	FilterHasSuffix               = real.FilterHasSuffix
	FilterContains                = real.FilterContains
	FilterFuzzy                   = real.FilterFuzzy
	NewBuffer                     = real.NewBuffer
	NewDocument                   = real.NewDocument
	NewHistory                    = real.NewHistory
	OptionPrefix                  = real.OptionPrefix
	OptionTitle                   = real.OptionTitle
	OptionHistory                 = real.OptionHistory
	OptionLivePrefix              = real.OptionLivePrefix
	OptionMaxSuggestion           = real.OptionMaxSuggestion
	OptionAddKeyBind              = real.OptionAddKeyBind
	OptionPrefixTextColor         = real.OptionPrefixTextColor
	OptionShowCompletionAtStart   = real.OptionShowCompletionAtStart
	OptionCompletionOnDown        = real.OptionCompletionOnDown
	OptionSetExitCheckerOnInput   = real.OptionSetExitCheckerOnInput
	OptionSwitchKeyBindMode       = real.OptionSwitchKeyBindMode
	OptionCompletionWordSeparator = real.OptionCompletionWordSeparator
)

// Terminal is where a console reads its lines.
type Terminal interface {
	Next() (line string, ok bool)     // the next line that was typed; not ok at the end of the session
	Typed(text string, s []Suggest)   // suggestions shown for the text typed so far
	Run(line string, fn func(string)) // runs the executor
}

// SimTerminal returns the terminal of the running console.
var SimTerminal func() Terminal

type Prompt struct {
	executor  Executor
	completer Completer
}

func New(executor Executor, completer Completer, opts ...Option) *Prompt {
	return &Prompt{executor, completer}
}

func Input(prefix string, completer Completer, opts ...Option) string {
	l, _ := SimTerminal().Next()
	return l
}

func (p *Prompt) Input() string {
	l, _ := SimTerminal().Next()
	return l
}

func (p *Prompt) Run() {
	t := SimTerminal()
	for {
		line, ok := t.Next()
		if !ok {
			return
		}
		for _, n := range []int{1, len(line) / 2, len(line)} { // some of the moments at which suggestions are shown
			if n > 0 && n <= len(line) && p.completer != nil {
				b := NewBuffer()
				b.InsertText(line[:n], false, true)
				t.Typed(line[:n], p.completer(*b.Document()))
			}
		}
		t.Run(line, p.executor)
	}
}

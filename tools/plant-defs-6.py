# C26: changes to pkg/errors.
E = 'pkg/errors/main.go'
EHT = '''
package errors

import (
	stderrors "errors"
	"strings"
	"testing"
)

var _, _ = stderrors.New, strings.Contains
'''
BUGS = [
dict(id='c26-join-flat', property='C26', pkg='pkg/errors',
 needs='joining an error that was itself joined, with data or a description of its own',
 breaks='the joined error has the causes of its cause but not the cause',
 edits=[(E, """		if err != nil {
			joined = joined.WithError(err)
		}
""", """		switch nested, ok := err.(TopolithError); {
		case ok && nested.Code == TopolithErrorMultiple && len(nested.errs) > 0:
			joined = joined.WithError(nested.errs...)
		case err != nil:
			joined = joined.WithError(err)
		}
""")],
 test=EHT+"""
func TestPlantedDemo(t *testing.T) {
	a := Join(stderrors.New("one"), stderrors.New("two")).WithDescription("both of them")
	if s := Join(a, stderrors.New("three")).Error(); !strings.Contains(s, "both of them") {
		t.Fatalf("demo: %s", s)
	}
}
"""),
dict(id='c26-data-replace', property='C26', pkg='pkg/errors',
 needs='data added under a key that the error has already, by an error made from a shared one',
 breaks='the value under that key is replaced, in the memory that both errors use',
 edits=[(E, """func (e TopolithError) WithData(data ...KvPair) TopolithError {
	e.Data = append(slices.Clip(e.Data), data...) // Never into memory that another error uses too.
	return e
}
""", """func (e TopolithError) WithData(pairs ...KvPair) TopolithError {
	e.Data = slices.Clip(e.Data) // Never append into memory that another error uses too.
	for _, pair := range pairs {
		e.setData(pair)
	}
	return e
}

// setData adds a pair, or replaces an empty value that is there under its key.
func (e *TopolithError) setData(pair KvPair) {
	for i := range e.Data {
		if e.Data[i].Key == pair.Key && e.Data[i].Value == "" {
			e.Data[i] = pair
			return
		}
	}
	e.Data = append(e.Data, pair)
}
""")],
 test=EHT+"""
func TestPlantedDemo(t *testing.T) {
	a := New("x").WithData(KvPair{"id", ""})
	a.WithData(KvPair{"id", "b"})
	if a.Data[0].Value != "" {
		t.Fatalf("demo: %v", a.Data)
	}
}
"""),
dict(id='c26-desc-table', property='C26', pkg='pkg/errors',
 needs='an error with a description of its own, and another one given the same code later',
 breaks='the description is remembered for the code',
 edits=[(E, """	e.Description = description
	return e
""", """	if e.Description = description; description != "" {
		topolithErrorDescriptions[e.Code] = description // What the code stands for from now on.
	}
	return e
""")],
 test=EHT+"""
func TestPlantedDemo(t *testing.T) {
	New("x").UseCode(TopolithErrorNotFound).WithDescription("no such shoe")
	if d := New("y").UseCode(TopolithErrorNotFound).Description; d != "Not found" {
		t.Fatalf("demo: %s", d)
	}
}
"""),
dict(id='c26-string-sort', property='C26', pkg='pkg/errors',
 needs='an error with two causes, printed before its cause is asked for',
 breaks='printing puts the causes into another order',
 edits=[(E, """		errStrings := make([]string, 0)
		for _, err := range e.errs {
			if err == nil {
				continue
			}
""", """		errStrings := make([]string, 0, len(e.errs))
		slices.SortStableFunc(e.errs, func(a, b error) int { return strings.Compare(a.Error(), b.Error()) })
		for _, err := range e.errs {
"""), (E, '	"slices"\n', '	"slices"\n	"strings"\n')],
 test=EHT+"""
func TestPlantedDemo(t *testing.T) {
	b, a := stderrors.New("b"), stderrors.New("a")
	e := New("x").WithError(b, a)
	_ = e.Error()
	if e.Unwrap() != b {
		t.Fatalf("demo: %v", e.Unwrap())
	}
}
"""),
dict(id='c26-string-limit', property='C26', pkg='pkg/errors',
 needs='an error with more than three causes',
 breaks='its text leaves out all but three',
 edits=[(E, """			errStrings = append(errStrings, err.Error())
""", """			if errStrings = append(errStrings, err.Error()); len(errStrings) == 3 && len(e.errs) > 4 {
				break
			}
""")],
 test=EHT+"""
func TestPlantedDemo(t *testing.T) {
	e := New("x")
	for _, s := range []string{"one", "two", "three", "four", "five"} {
		e = e.WithError(stderrors.New(s))
	}
	if !strings.Contains(e.Error(), "five") {
		t.Fatalf("demo: %s", e)
	}
}
"""),
]

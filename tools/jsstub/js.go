// Package js, as the simulator provides it: a small JavaScript host inside the process.
package js

import (
	"strconv"
	"strings"
	"unsafe"
)

// SimWorld is the JavaScript side of one simulated page.
type SimWorld struct {
	global Value
	Exited bool
}

// SimCurrent returns the page that the running code belongs to.
var SimCurrent func() *SimWorld

// SimPark is what an empty select does.
var SimPark func()

// SimRegistered is called when a property of the global object is set.
var SimRegistered func(name string)

type Type int

const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

func (t Type) String() string {
	switch t {
	case TypeUndefined:
		return "undefined"
	case TypeNull:
		return "null"
	case TypeBoolean:
		return "boolean"
	case TypeNumber:
		return "number"
	case TypeString:
		return "string"
	case TypeSymbol:
		return "symbol"
	case TypeObject:
		return "object"
	case TypeFunction:
		return "function"
	}
	panic("bad type")
}

type object struct {
	keys  []string
	props map[string]Value
	arr   []Value
	isArr bool
	fn    func(this Value, args []Value) any
}

type Value struct {
	_ [0]func()
	t Type
	b bool
	n float64
	s string
	o *object
}

type Error struct{ Value }

func (e Error) Error() string { return "JavaScript error: " + e.Get("message").String() }

type ValueError struct {
	Method string
	Type   Type
}

func (e *ValueError) Error() string {
	return "syscall/js: call of " + e.Method + " on " + e.Type.String()
}

func Undefined() Value { return Value{} }
func Null() Value      { return Value{t: TypeNull} }

func newObject() *object { return &object{props: map[string]Value{}} }

func ofFunc(fn func(this Value, args []Value) any) Value {
	o := newObject()
	o.fn = fn
	return Value{t: TypeFunction, o: o}
}

// SimNew makes a page with the usual global objects.
func SimNew() *SimWorld {
	w := &SimWorld{global: Value{t: TypeObject, o: newObject()}}
	obj := func(m map[string]func(this Value, args []Value) any) Value {
		o := newObject()
		for k, f := range m {
			o.set(k, ofFunc(f))
		}
		return Value{t: TypeObject, o: o}
	}
	nop := func(this Value, args []Value) any { return nil }
	g := w.global.o
	g.set("console", obj(map[string]func(this Value, args []Value) any{"log": nop, "error": nop, "warn": nop, "info": nop, "debug": nop}))
	g.set("Object", ofFunc(func(this Value, args []Value) any { return Value{t: TypeObject, o: newObject()} }))
	g.set("Array", ofFunc(func(this Value, args []Value) any {
		return Value{t: TypeObject, o: &object{props: map[string]Value{}, isArr: true}}
	}))
	g.set("Error", ofFunc(func(this Value, args []Value) any {
		o := newObject()
		if len(args) > 0 {
			o.set("message", ValueOf(args[0].String()))
		}
		return Value{t: TypeObject, o: o}
	}))
	g.set("globalThis", w.global)
	g.set("window", w.global)
	return w
}

// SimCall calls a function of the page's global object as a script would; ok is false if there is none.
func (w *SimWorld) SimCall(name string, args ...any) (result Value, ok bool) {
	f := w.global.Get(name)
	if f.t != TypeFunction {
		return Value{}, false
	}
	return f.Invoke(args...), true
}

func (o *object) set(k string, v Value) {
	if _, ok := o.props[k]; !ok {
		o.keys = append(o.keys, k)
	}
	o.props[k] = v
}

func Global() Value { return SimCurrent().global }

type Func struct {
	Value
}

func FuncOf(fn func(this Value, args []Value) any) Func { return Func{ofFunc(fn)} }

func (c Func) Release() {}

func ValueOf(x any) Value {
	switch x := x.(type) {
	case Value:
		return x
	case Func:
		return x.Value
	case nil:
		return Null()
	case bool:
		return Value{t: TypeBoolean, b: x}
	case int:
		return num(float64(x))
	case int8:
		return num(float64(x))
	case int16:
		return num(float64(x))
	case int32:
		return num(float64(x))
	case int64:
		return num(float64(x))
	case uint:
		return num(float64(x))
	case uint8:
		return num(float64(x))
	case uint16:
		return num(float64(x))
	case uint32:
		return num(float64(x))
	case uint64:
		return num(float64(x))
	case uintptr:
		return num(float64(x))
	case unsafe.Pointer:
		return num(float64(uintptr(x)))
	case float32:
		return num(float64(x))
	case float64:
		return num(x)
	case string:
		return Value{t: TypeString, s: strings.ToValidUTF8(x, "\uFFFD")}
	case []any:
		o := &object{props: map[string]Value{}, isArr: true}
		for _, e := range x {
			o.arr = append(o.arr, ValueOf(e))
		}
		return Value{t: TypeObject, o: o}
	case map[string]any:
		o := newObject()
		for k, e := range x {
			o.set(k, ValueOf(e))
		}
		return Value{t: TypeObject, o: o}
	}
	panic("ValueOf: invalid value")
}

func num(f float64) Value { return Value{t: TypeNumber, n: f} }

func (v Value) Equal(w Value) bool {
	if v.t != w.t {
		return false
	}
	switch v.t {
	case TypeBoolean:
		return v.b == w.b
	case TypeNumber:
		return v.n == w.n
	case TypeString:
		return v.s == w.s
	case TypeObject, TypeFunction:
		return v.o == w.o
	}
	return true
}

func (v Value) IsUndefined() bool { return v.t == TypeUndefined }
func (v Value) IsNull() bool      { return v.t == TypeNull }
func (v Value) IsNaN() bool       { return v.t == TypeNumber && v.n != v.n }
func (v Value) Type() Type        { return v.t }

func (v Value) need(m string) *object {
	if v.o == nil {
		panic(&ValueError{m, v.t})
	}
	return v.o
}

func (v Value) Get(p string) Value {
	o := v.need("Value.Get")
	if p == "length" && o.isArr {
		return num(float64(len(o.arr)))
	}
	return o.props[p]
}

func (v Value) Set(p string, x any) {
	o := v.need("Value.Set")
	o.set(p, ValueOf(x))
	if w := SimCurrent(); w != nil && o == w.global.o && SimRegistered != nil {
		SimRegistered(p)
	}
}

func (v Value) Delete(p string) {
	o := v.need("Value.Delete")
	delete(o.props, p)
	for i, k := range o.keys {
		if k == p {
			o.keys = append(o.keys[:i:i], o.keys[i+1:]...)
			break
		}
	}
}

func (v Value) Index(i int) Value {
	o := v.need("Value.Index")
	if i < 0 || i >= len(o.arr) {
		return Undefined()
	}
	return o.arr[i]
}

func (v Value) SetIndex(i int, x any) {
	o := v.need("Value.SetIndex")
	for len(o.arr) <= i {
		o.arr = append(o.arr, Undefined())
	}
	o.arr[i] = ValueOf(x)
}

func (v Value) Length() int {
	if v.t == TypeString {
		return len([]rune(v.s))
	}
	return len(v.need("Value.SetIndex").arr)
}

func values(args []any) (l []Value) {
	l = make([]Value, 0, len(args))
	for _, a := range args {
		l = append(l, ValueOf(a))
	}
	return
}

func (v Value) Call(m string, args ...any) Value {
	f := v.Get(m)
	if f.t != TypeFunction {
		panic(&ValueError{"Value.Call", f.t})
	}
	return ValueOf(f.o.fn(v, values(args)))
}

func (v Value) Invoke(args ...any) Value {
	if v.t != TypeFunction {
		panic(&ValueError{"Value.Invoke", v.t})
	}
	return ValueOf(v.o.fn(Undefined(), values(args)))
}

func (v Value) New(args ...any) Value {
	if v.t != TypeFunction {
		panic(&ValueError{"Value.Invoke", v.t})
	}
	return ValueOf(v.o.fn(Undefined(), values(args)))
}

func (v Value) Float() float64 {
	if v.t != TypeNumber {
		panic(&ValueError{"Value.Float", v.t})
	}
	return v.n
}

func (v Value) Int() int {
	if v.t != TypeNumber {
		panic(&ValueError{"Value.Int", v.t})
	}
	return int(v.n)
}

func (v Value) Bool() bool {
	if v.t != TypeBoolean {
		panic(&ValueError{"Value.Bool", v.t})
	}
	return v.b
}

func (v Value) Truthy() bool {
	switch v.t {
	case TypeUndefined, TypeNull:
		return false
	case TypeBoolean:
		return v.b
	case TypeNumber:
		return v.n == v.n && v.n != 0
	case TypeString:
		return v.s != ""
	}
	return true
}

func (v Value) String() string {
	switch v.t {
	case TypeString:
		return v.s
	case TypeUndefined:
		return "<undefined>"
	case TypeNull:
		return "<null>"
	case TypeBoolean:
		return "<boolean: " + strconv.FormatBool(v.b) + ">"
	case TypeNumber:
		return "<number: " + strconv.FormatFloat(v.n, 'g', -1, 64) + ">"
	case TypeObject:
		return "<object>"
	case TypeFunction:
		return "<function>"
	}
	return "<symbol>"
}

func (v Value) InstanceOf(t Value) bool { return false }

func CopyBytesToGo(dst []byte, src Value) int {
	panic(&ValueError{"CopyBytesToGo", src.t})
}

func CopyBytesToJS(dst Value, src []byte) int {
	panic(&ValueError{"CopyBytesToJS", dst.t})
}

// Package drive runs programs on the real editor next to the reference model
// and compares value, error, text, point, mark and match data.
package drive

import (
	"errors"
	"fmt"
	"math"
	"strings"

	"github.com/dhamidi/texted/edlisp"
	"verifmc/model"
)

// ToReal converts a model expression to a program value of the implementation.
func ToReal(e any) edlisp.Value {
	switch v := e.(type) {
	case string:
		return edlisp.NewString(v)
	case float64:
		return edlisp.NewNumber(v)
	case model.Sym:
		return edlisp.NewSymbol(string(v))
	case model.List:
		elems := make([]edlisp.Value, len(v))
		for i, x := range v {
			elems[i] = ToReal(x)
		}
		return edlisp.NewList(elems...)
	}
	panic("harness: cannot convert")
}

// FromReal converts an implementation value to a model value.
func FromReal(v edlisp.Value) any {
	switch x := v.(type) {
	case *edlisp.String:
		return x.Value
	case *edlisp.Number:
		return x.Value
	case *edlisp.Symbol:
		return model.Sym(x.Name)
	case *edlisp.List:
		l := make(model.List, x.Len())
		for i := range l {
			l[i] = FromReal(x.Get(i))
		}
		return l
	case nil:
		return nil
	}
	return fmt.Sprintf("<%T>", v)
}

// Same compares values; NaN equals NaN.
func Same(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	case model.List:
		y, ok := b.(model.List)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

// Real is the implementation under test.
type Real struct {
	Buf *edlisp.Buffer
	Env *edlisp.Environment
}

// At builds the implementation in a given model state without match data.
func At(env *edlisp.Environment, text string, point, mark int) *Real {
	b := edlisp.NewBuffer(text)
	b.SetPoint(point)
	b.SetMark(mark)
	return &Real{Buf: b, Env: env}
}

// Outcome of one instruction.
type Outcome struct {
	Val   any
	Err   error
	Panic any
}

// Exec runs one instruction.
func (r *Real) Exec(e edlisp.Value) (o Outcome) {
	defer func() {
		if p := recover(); p != nil {
			o.Panic = p
		}
	}()
	v, err := edlisp.Eval([]edlisp.Value{e}, r.Env, r.Buf)
	if err != nil {
		o.Err = err
		return
	}
	o.Val = FromReal(v)
	return
}

// Run runs a whole program in one evaluation.
func (r *Real) Run(p []edlisp.Value) (o Outcome) {
	defer func() {
		if x := recover(); x != nil {
			o.Panic = x
		}
	}()
	v, err := edlisp.Eval(p, r.Env, r.Buf)
	if err != nil {
		o.Err = err
		return
	}
	o.Val = FromReal(v)
	return
}

var probe = []edlisp.Value{edlisp.NewList(edlisp.NewSymbol("verif-no-such-function"))}

// MatchInfo reads the match data through the error report of a failing
// instruction, the only public place that shows it.
func (r *Real) MatchInfo() (string, int, int) {
	_, err := edlisp.Eval(probe, r.Env, r.Buf)
	var ee *edlisp.ExecutionError
	if errors.As(err, &ee) {
		return ee.LastSearchMatch, ee.LastSearchStart, ee.LastSearchEnd
	}
	return "<no report>", -1, -1
}

// Diff compares an outcome and the implementation state with the model; it
// returns "" or a description of the first difference.
func (r *Real) Diff(o Outcome, val any, err model.Err, s model.State, match bool) (what, exp, act string) {
	switch {
	case o.Panic != nil:
		return "panic", describe(val, err), fmt.Sprintf("panic: %v", o.Panic)
	case err != model.OK && o.Err == nil:
		return "error expected", describe(val, err), describeReal(o)
	case err == model.OK && o.Err != nil:
		return "unexpected error", describe(val, err), describeReal(o)
	case err == model.SearchErr && !strings.Contains(o.Err.Error(), "search failed"):
		return "wrong error", describe(val, err), describeReal(o)
	case err == model.OK && !Same(val, o.Val):
		return "wrong value", describe(val, err), describeReal(o)
	}
	if t := r.Buf.String(); t != s.Text {
		return "wrong text", fmt.Sprintf("%q", s.Text), fmt.Sprintf("%q", t)
	}
	if r.Buf.Point() != s.Point {
		return "wrong point", fmt.Sprint(s.Point), fmt.Sprint(r.Buf.Point())
	}
	if r.Buf.Mark() != s.M() {
		return "wrong mark", fmt.Sprint(s.M()), fmt.Sprint(r.Buf.Mark())
	}
	if match {
		if m, a, b := r.MatchInfo(); m != s.Match || a != s.MS || b != s.ME {
			return "wrong match data", fmt.Sprintf("%q [%d,%d)", s.Match, s.MS, s.ME), fmt.Sprintf("%q [%d,%d)", m, a, b)
		}
	}
	return "", "", ""
}

func describe(v any, e model.Err) string {
	if e != model.OK {
		return "error: " + string(e)
	}
	return "value " + model.Show(v)
}

func describeReal(o Outcome) string {
	if o.Panic != nil {
		return fmt.Sprintf("panic: %v", o.Panic)
	}
	if o.Err != nil {
		return "error: " + o.Err.Error()
	}
	return "value " + model.Show(o.Val)
}

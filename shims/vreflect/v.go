// Package vreflect is the part of package reflect that the metrics registry uses.
package vreflect

import "github.com/unit-io/unitdb/zz_verif/vrt"

type Kind uint

const (
	Invalid Kind = iota
	Func
)

type Value struct{ i interface{} }

func ValueOf(i interface{}) Value { return Value{i} }

func (v Value) Kind() Kind {
	if vrt.IsFunc(v.i) {
		return Func
	}
	return Invalid
}
func (v Value) Interface() interface{}  { return v.i }
func (v Value) Call(in []Value) []Value { return []Value{{vrt.CallFunc(v.i)}} }

package main

import (
	"reflect"
	"unsafe"
)

// history holds shallow copies of a system of immutable objects, one before each operation.
type history []reflect.Value

// apply does an operation. One done aside is applied to the objects as they were some operations ago
// and its result is thrown away: nothing of it may be seen in the objects of now.
func (h *history) apply(s Sys, op J) {
	if op.s("k") != "aside" {
		if v := reflect.ValueOf(s); v.Kind() == reflect.Pointer && v.Elem().Kind() == reflect.Struct {
			*h = append(*h, snapshot(v.Elem()))
		}
		s.Apply(op)
		return
	}
	if len(*h) == 0 {
		return
	}
	k := len(*h) - op.n("back")
	if k < 0 {
		k = 0
	}
	v := reflect.ValueOf(s).Elem()
	now := snapshot(v)
	v.Set((*h)[k])
	s.Apply(op.obj("op"))
	v.Set(now)
}

// snapshot copies a struct; what is appended to the slices of the copy does not reach the original.
func snapshot(v reflect.Value) reflect.Value {
	c := reflect.New(v.Type()).Elem()
	c.Set(v)
	clip(c)
	return c
}
func clip(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			clip(v.Field(i))
		}
	case reflect.Slice:
		if v.CanAddr() && !v.IsNil() {
			p := reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
			p.Set(p.Slice3(0, p.Len(), p.Len()))
		}
	}
}

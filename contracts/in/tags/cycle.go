package tags

import (
	"reflect"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/thrift"
)

// ty is an arbitrary type, named by a number.
type ty struct {
	reflect.Type
	id int
}

// chain is what a pointer type points to, what that points to, and so on.
type chain struct {
	at     reflect.Type
	kind   reflect.Kind // of at
	passed map[reflect.Type]bool
	steps  int
}

var ptr *chain

func (t ty) Kind() reflect.Kind {
	gv.Ensure("", "the kind is that of the type reached", reflect.Type(t) == ptr.at)
	return ptr.kind
}

func (t ty) Elem() reflect.Type {
	c := ptr
	gv.Ensure("", "the element is that of the type reached", reflect.Type(t) == c.at)
	gv.Ensure("", "reflect does not panic: Elem", c.kind == reflect.Pointer)
	// there are finitely many types
	gv.Ensure("", "no type is passed twice", !c.passed[c.at])
	c.passed[c.at] = true
	gv.Assume(c.steps < 1<<60)
	c.steps++
	c.at, c.kind = ty{id: gv.Int()}, reflect.Kind(gv.Byte())
	if c.passed[c.at] {
		gv.Assume(c.kind == reflect.Pointer)
	}
	return c.at
}

// HCycle verifies isPointerCycle.
//
//gv:harness tags/Cycle props=C14,C15,C16 default=C16
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.isPointerCycle
func HCycle() {
	t := ty{id: gv.Int()}
	c := &chain{at: t, kind: reflect.Kind(gv.Byte()), passed: map[reflect.Type]bool{}}
	ptr = c
	gv.Progress("", "a pointer type is followed", &c.steps)
	r := thrift.TagsCycle(t)
	if r {
		gv.Ensure("", "a cycle is where a type is met again", c.passed[c.at])
		gv.Reach("cycle")
	} else {
		gv.Ensure("", "otherwise what is pointed to is no pointer", c.kind != reflect.Pointer)
		gv.Reach("no cycle")
	}
}

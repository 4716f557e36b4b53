// Package lookup proves that the arshaler found for a type is one made for it.
package lookup

import (
	"reflect"
	"sync"

	"vspec/gv"

	"github.com/itstarsun/go-thrift/thrift"
)

type ftype struct{ reflect.Type }

// The cache holds, for every type, nothing or an arshaler made for the type:
// this is its invariant.  cached is the one that is there, or comes to be
// there while another is made.
var (
	typ          *ftype
	made, cached *thrift.LookupArshaler
	stored       bool
)

//gv:contract (*sync.Map).Load
func Load(c *sync.Map, k any) (any, bool) {
	gv.Ensure("", "the cache is asked for the type", k == any(typ))
	if gv.Bool() {
		return cached, true
	}
	return nil, false
}

//gv:contract (*sync.Map).LoadOrStore
func LoadOrStore(c *sync.Map, k, v any) (any, bool) {
	gv.Ensure("", "what is stored is stored for the type it was made for", k == any(typ) && v == any(made))
	if gv.Bool() {
		return cached, true
	}
	stored = true
	return v, false
}

//gv:contract (*sync.Map).Store
func Store(c *sync.Map, k, v any) {
	gv.Ensure("", "what is stored is stored for the type it was made for", k == any(typ) && (v == any(made) || v == any(cached)))
	stored = true
}

//gv:contract github.com/itstarsun/go-thrift/thrift.makeDefaultArshaler
func Make(t reflect.Type) *thrift.LookupArshaler {
	gv.Ensure("", "the arshaler is made for the type", t == reflect.Type(typ))
	return made
}

// HLookup verifies lookupArshaler.
//
//gv:harness lookup/Lookup props=C14,C15,C16 default=C14
//gv:symbolic
//gv:real github.com/itstarsun/go-thrift/thrift.lookupArshaler
func HLookup() {
	typ, made, cached = new(ftype), thrift.LookupNew(), thrift.LookupNew()
	f := thrift.LookupOf(typ)
	gv.Ensure("C14", "the arshaler is one made for the type", f == made || f == cached)
	gv.Reach("found")
	if stored {
		gv.Reach("stored")
	}
}

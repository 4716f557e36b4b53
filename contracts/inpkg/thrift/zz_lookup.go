package thrift

import "reflect"

// LookupArshaler is the type of arshalers.
type LookupArshaler = arshaler

// LookupNew makes an arshaler.
func LookupNew() *arshaler { return new(arshaler) }

// LookupOf is lookupArshaler.
func LookupOf(t reflect.Type) *arshaler { return lookupArshaler(t) }

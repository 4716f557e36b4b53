package thrift

import "reflect"

// TagsParse is parseFieldOptions.
func TagsParse(sf reflect.StructField) (id int16, name string, required, ignored bool, err error) {
	o, ignored, err := parseFieldOptions(sf)
	return o.id, o.name, o.required, ignored, err
}

// TagsOption is consumeTagOption.
func TagsOption(in string) (string, int, error) { return consumeTagOption(in) }

// TagsCycle is isPointerCycle.
func TagsCycle(t reflect.Type) bool { return isPointerCycle(t) }

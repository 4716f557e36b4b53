package thriftcompact

// VerifTypeName is the name of a compact type code.
func VerifTypeName(b byte) string { return compactType(b).String() }

// VerifInvalid is the error for an invalid compact type code.
func VerifInvalid(b byte) error { return invalidCompactTypeError(b) }

package thriftwire

// VerifSkip gives the contracts access to skip.
func VerifSkip(r Reader, t Type, depth int) error { return skip(r, t, depth) }

// VerifDepth is the depth that Skip starts with.
const VerifDepth = maxSkipDepth

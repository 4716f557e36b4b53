module vspec

go 1.21.0

require github.com/itstarsun/go-thrift v0.0.0

replace github.com/itstarsun/go-thrift => /repo

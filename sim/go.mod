module verifsim

go 1.27

require github.com/leodido/go-urn v0.0.0

replace github.com/leodido/go-urn => /repo

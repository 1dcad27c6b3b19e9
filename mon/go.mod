module mon

go 1.22

require github.com/deNULL/dawg v0.0.0

replace github.com/deNULL/dawg => /repo

module vharness

go 1.24

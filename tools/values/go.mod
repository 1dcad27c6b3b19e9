module vc
go 1.22

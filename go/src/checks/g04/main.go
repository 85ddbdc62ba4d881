package main

import (
	"genchk"
	_ "gendata"
	"pbt"
)

func main() {
	pbt.Main(pbt.Property{ID: "G04", Subs: []pbt.Sub{
		{Name: "enums", Quick: 4000, Thorough: 100000, Fn: genchk.Enums},
		{Name: "constants", Quick: 4000, Thorough: 100000, Fn: genchk.Constants},
		{Name: "fresh", Quick: 4000, Thorough: 100000, Fn: genchk.Fresh},
	}, Rule: "the enums, constants and structs of the random programs of the run; non-trivial = an enum of two or more names, a constant other than 0, or a struct after the default containers of others were changed"})
}

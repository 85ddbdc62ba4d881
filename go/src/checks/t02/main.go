package main

import (
	"pbt"
	"trchk"
)

func main() {
	pbt.Main(pbt.Property{ID: "T02",
		Rule: "random histories of all calls of a memory buffer against a byte queue; non-trivial = some call met a non-empty buffer",
		Subs: []pbt.Sub{
			{Name: "history", Quick: 100000, Thorough: 4000000, Fn: trchk.Memory},
		}})
}

package main

import (
	"datachk"
	"pbt"
)

func main() {
	pbt.Main(pbt.Property{ID: "D02", Subs: []pbt.Sub{
		{Name: "set", Quick: 200000, Thorough: 2000000, Fn: datachk.Set},
		{Name: "enums", Quick: 4000, Thorough: 100000, Fn: datachk.EnumValues},
	},
		Rule: "random histories of set operations over values of all types, with equal and nearly equal values, compared with a set of canonical keys after every operation; non-trivial = at least 4 operations, an element added again and 2 elements left"})
}

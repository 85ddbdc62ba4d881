package main

import (
	"datachk"
	"pbt"
)

func main() {
	pbt.Main(pbt.Property{ID: "D01", Subs: []pbt.Sub{
		{Name: "list", Quick: 200000, Thorough: 2000000, Fn: datachk.List},
		{Name: "enums", Quick: 4000, Thorough: 100000, Fn: datachk.EnumValues},
	},
		Rule: "random histories of list operations over values of all types, with equal and nearly equal values, compared with a slice after every operation; non-trivial = at least 4 operations of 3 kinds"})
}

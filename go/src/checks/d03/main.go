package main

import (
	"datachk"
	"pbt"
)

func main() {
	pbt.Main(pbt.Property{ID: "D03", Subs: []pbt.Sub{
		{Name: "map", Quick: 150000, Thorough: 2000000, Fn: datachk.Map},
		{Name: "enums", Quick: 4000, Thorough: 100000, Fn: datachk.EnumValues},
	},
		Rule: "random histories of map operations over keys and values of all types, with equal and nearly equal keys, compared with a map of canonical keys after every operation; non-trivial = at least 4 operations, a value replaced and 2 keys left"})
}

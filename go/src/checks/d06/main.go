package main

import (
	"datachk"
	"pbt"
)

func main() {
	pbt.Main(pbt.Property{ID: "D06", Subs: []pbt.Sub{
		{Name: "fields", Quick: 600000, Thorough: 6000000, Fn: datachk.Fields},
		{Name: "field", Quick: 100000, Thorough: 1000000, Fn: datachk.Field},
	},
		Rule: "random lists of fields in random order, looked up by id and name, and compared with the same fields in another order or with one changed; non-trivial = at least 2 fields, or two different ones"})
}

package main

import (
	"datachk"
	"pbt"
)

func main() {
	pbt.Main(pbt.Property{ID: "D07", Subs: []pbt.Sub{
		{Name: "errors", Quick: 1000000, Thorough: 10000000, Fn: datachk.Errors},
	},
		Rule: "errors of random type and message made, converted between layers and wrapped in random context; non-trivial = at least one context"})
}

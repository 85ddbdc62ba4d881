package main

import (
	"datachk"
	"pbt"
)

func main() {
	pbt.Main(pbt.Property{ID: "D05", Subs: []pbt.Sub{
		{Name: "coerce", Quick: 1500000, Thorough: 10000000, Fn: datachk.Coerce},
		{Name: "typeof", Quick: 50000, Thorough: 1000000, Fn: datachk.TypeOf},
		{Name: "codes", Quick: 20000, Thorough: 100000, Fn: datachk.TypeCodes},
		{Name: "numbers", Quick: 1000000, Thorough: 10000000, Fn: datachk.Numbers},
	},
		Rule: "random Go values of every kind converted to every type, compared with a table of expected conversions; numbers made from one representation and asked for the others; non-trivial = the table decides the result, or the number has a whole part"})
}

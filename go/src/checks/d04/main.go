package main

import (
	"datachk"
	"pbt"
	"simple"
)

func main() {
	pbt.Main(pbt.Property{ID: "D04", Subs: []pbt.Sub{
		{Name: "order", Quick: 300000, Thorough: 6000000, Fn: datachk.Compare},
		{Name: "anything", Quick: 100000, Thorough: 2000000, Fn: datachk.Uncomparable},
		{Name: "helpers", Quick: 50000, Thorough: 500000, Fn: datachk.Helpers},
	},
		Probes: []pbt.Probe{{Key: "generated-equals", Fn: func() string {
			a, b := simple.NewContainerOfEnums(), simple.NewContainerOfEnums()
			b.Third = 5
			if a.Equals(b) {
				return "Equals of two generated structs with different attributes is true"
			}
			return ""
		}}},
		Rule: "three random values of one type, the second often equal or nearly equal to the first, compared with each other, with nil and with themselves; any two Go values compared by any type; non-trivial = the values differ"})
}

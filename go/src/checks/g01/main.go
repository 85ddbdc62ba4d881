package main

import (
	"genchk"
	"pbt"
)

func main() {
	subs := []pbt.Sub{
		{Name: "structs", Quick: 800, Thorough: 40000, Fn: genchk.Compiles(genchk.Gen{})},
		{Name: "consts", Quick: 800, Thorough: 40000, Fn: genchk.Compiles(genchk.Gen{Consts: true})},
		{Name: "services", Quick: 800, Thorough: 40000, Fn: genchk.Compiles(genchk.Gen{Services: true, Consts: true})},
		{Name: "includes", Quick: 800, Thorough: 40000, Fn: genchk.Compiles(genchk.Gen{Services: true, Consts: true, Includes: true})},
	}
	pbt.Main(pbt.Property{ID: "G01", Subs: subs, Probes: genchk.G01Probes,
		Rule: "random Thrift programs (one to three that include each other); non-trivial = more than one declaration, distinct by the program"})
}

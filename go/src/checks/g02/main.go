package main

import (
	"genchk"
	_ "gendata"
	"pbt"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range []vm.Proto{vm.Binary, vm.Compact, vm.JSON, vm.SimpleJSON} {
		subs = append(subs,
			pbt.Sub{Name: "written/" + pr.Name, Quick: 15000, Thorough: 200000, Fn: genchk.Written(pr)},
			pbt.Sub{Name: "received/" + pr.Name, Quick: 15000, Thorough: 200000, Fn: genchk.Received(pr, false)},
			pbt.Sub{Name: "faults/" + pr.Name, Quick: 4000, Thorough: 40000, Fn: genchk.Faults(pr)},
			pbt.Sub{Name: "errors/" + pr.Name, Quick: 4000, Thorough: 40000, Fn: genchk.Errors(pr)},
		)
		if pr.Name != "simplejson" { // see the known finding
			subs = append(subs, pbt.Sub{Name: "foreign/" + pr.Name, Quick: 15000, Thorough: 200000, Fn: genchk.Received(pr, true)})
		}
	}
	subs = append(subs, pbt.Sub{Name: "described", Quick: 15000, Thorough: 200000, Fn: genchk.Described})
	pbt.Main(pbt.Property{ID: "G02", Subs: subs, Probes: genchk.G02Probes, Rule: "random structs of the random programs of the run, with random values and messages; non-trivial = more than one field set, sent or changed, distinct by the choices of the case"})
}

package main

import (
	"genchk"
	_ "gendata"
	"pbt"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range []vm.Proto{vm.Binary, vm.Compact, vm.JSON, vm.SimpleJSON} {
		subs = append(subs,
			pbt.Sub{Name: "calls/" + pr.Name, Quick: 12000, Thorough: 150000, Fn: genchk.Calls(pr)},
			pbt.Sub{Name: "broken/" + pr.Name, Quick: 6000, Thorough: 60000, Fn: genchk.Broken(pr)},
		)
	}
	pbt.Main(pbt.Property{ID: "G03", Subs: subs, Probes: genchk.G03Probes, Rule: "random histories of calls of the services of the random programs of the run; non-trivial = a second call of a history, an error or exception, or a fault that struck, distinct by the choices"})
}

package main

import (
	"pbt"
	"srvchk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range []vm.Proto{vm.BinaryStrict, vm.Compact, vm.JSON, vm.SimpleJSON, vm.BinaryLenient} {
		subs = append(subs,
			pbt.Sub{Name: "exchange/" + pr.Name, Quick: 100000, Thorough: 600000, Fn: srvchk.Exceptions(pr)},
			pbt.Sub{Name: "faults/" + pr.Name, Quick: 20000, Thorough: 60000, Fn: srvchk.ExceptionFaults(pr)},
		)
	}
	pbt.Main(pbt.Property{ID: "V03", Subs: subs,
		Rule: "random sequences of messages carrying application exceptions made by every constructor, or by hand with missing, reordered, unknown and mistyped fields, or other structs; transport failures and ends of data at every byte; non-trivial = several messages in sequence, or a fault"})
}

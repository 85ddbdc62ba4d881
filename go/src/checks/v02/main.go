package main

import (
	"pbt"
	"srvchk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range []vm.Proto{vm.BinaryStrict, vm.Compact, vm.JSON, vm.SimpleJSON, vm.BinaryLenient} {
		subs = append(subs,
			pbt.Sub{Name: "calls/" + pr.Name, Quick: 20000, Thorough: 400000, Fn: srvchk.Calls(pr)},
			pbt.Sub{Name: "cut/" + pr.Name, Quick: 2000, Thorough: 40000, Fn: srvchk.CutRequests(pr)},
		)
	}
	pbt.Main(pbt.Property{ID: "V02", Subs: subs,
		Rule: "random histories of calls through the generated sample client and processor, or by hand with fields reordered and unknown fields, unknown methods, handler errors and answers out of sequence; requests cut at every byte; non-trivial = several calls on one connection, an error, or a request by hand"})
}

package main

import (
	"pbt"
	pc "protochk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range vm.All {
		subs = append(subs, pbt.Sub{Name: "malformed/" + pr.Name, Quick: 64000, Thorough: 900000, Fn: pc.Malformed(pr)},
			pbt.Sub{Name: "large/" + pr.Name, Quick: 800, Thorough: 20000, Fn: pc.Large(pr)})
	}
	subs = append(subs,
		pbt.Sub{Name: "differential/binary", Quick: 120000, Thorough: 2000000, Fn: pc.Differential(vm.BinaryStrict, vm.DecodeBinary)},
		pbt.Sub{Name: "sizes/binary", Quick: 30000, Thorough: 500000, Fn: pc.Sizes(vm.BinaryStrict, vm.RefBinary, vm.DecodeBinary)},
		pbt.Sub{Name: "sizes/compact", Quick: 30000, Thorough: 500000, Fn: pc.Sizes(vm.Compact, vm.RefCompact, vm.DecodeCompact)},
		pbt.Sub{Name: "differential/compact", Quick: 120000, Thorough: 2000000, Fn: pc.Differential(vm.Compact, vm.DecodeCompact)})
	pbt.Main(pbt.Property{ID: "R01", Subs: subs,
		Rule: "messages damaged by byte edits, splices and extreme sizes, random bytes and JSON token soup are read by announced types, by schema and by skipping, and long monotonous inputs by single calls; for binary and compact the result is compared with an independent decoder; non-trivial = the input is refused or malformed"})
}

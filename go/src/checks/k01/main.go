package main

import (
	"pbt"
	pc "protochk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range []vm.Proto{vm.BinaryStrict, vm.Compact, vm.JSON} {
		subs = append(subs,
			pbt.Sub{Name: "skipping/" + pr.Name, Quick: 80000, Thorough: 600000, Fn: pc.Skipping(pr)},
			pbt.Sub{Name: "depth-limit/" + pr.Name, Quick: 80000, Thorough: 400000, Fn: pc.SkipDepth(pr)},
			pbt.Sub{Name: "cut/" + pr.Name, Quick: 24000, Thorough: 100000, Fn: pc.TruncatedSkip(pr)},
		)
	}
	pbt.Main(pbt.Property{ID: "K01", Subs: subs,
		Rule: "random messages written by a typed protocol are read back while a random selection of their values, at every level, is skipped instead of read; depth limits around the value's depth; cut values; non-trivial = a non-empty composite value is skipped, or a nested value meets a limit"})
}

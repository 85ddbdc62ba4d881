package main

import (
	"pbt"
	pc "protochk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range vm.All {
		subs = append(subs,
			pbt.Sub{Name: "write/" + pr.Name, Quick: 10000, Thorough: 150000, Fn: pc.WriteFaults(pr)},
			pbt.Sub{Name: "read/" + pr.Name, Quick: 10000, Thorough: 150000, Fn: pc.ReadFaults(pr)})
	}
	pbt.Main(pbt.Property{ID: "R03", Subs: subs,
		Rule: "a transport failure is injected after every number of bytes (all up to 120 bytes, else 25 of them) and at the flush, while random messages are written and read over plain, framed and stream transports; non-trivial = a failure was injected"})
}

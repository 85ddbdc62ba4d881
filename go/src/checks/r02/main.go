package main

import (
	"pbt"
	pc "protochk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range vm.All {
		subs = append(subs, pbt.Sub{Name: "prefixes/" + pr.Name, Quick: 5000, Thorough: 150000, Fn: pc.Truncated(pr)})
	}
	pbt.Main(pbt.Property{ID: "R02", Subs: subs,
		Rule: "every strict prefix (all of them up to 250 bytes, else 40 of them) of random messages is read; non-trivial = the message has more than 8 bytes"})
}

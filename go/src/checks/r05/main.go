package main

import (
	"pbt"
	pc "protochk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range vm.All {
		subs = append(subs, pbt.Sub{Name: "prompt/" + pr.Name, Quick: 40000, Thorough: 600000, Fn: pc.Prompt(pr)})
	}
	pbt.Main(pbt.Property{ID: "R05", Subs: subs,
		Rule: "messages, many of them as short as can be, are put on the transport one at a time and read or skipped, over plain, framed and stream transports and in pieces; the transport notes any read that finds it empty; non-trivial = a message with a field"})
}

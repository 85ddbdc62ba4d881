package main

import (
	"pbt"
	pc "protochk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range vm.All {
		subs = append(subs, pbt.Sub{Name: "pieces/" + pr.Name, Quick: 20000, Thorough: 300000, Fn: pc.Pieces(pr)})
	}
	pbt.Main(pbt.Property{ID: "R04", Subs: subs,
		Rule: "random sequences of messages are delivered in random pieces (single bytes up to 5000), with and without the end of data reported along with the last piece, over plain, framed and stream transports; every case is non-trivial"})
}

package main

import (
	"pbt"
	pc "protochk"
	"vm"
)

func main() {
	var subs []pbt.Sub
	for _, pr := range []vm.Proto{vm.SimpleJSON} {
		subs = append(subs,
			pbt.Sub{Name: "messages/" + pr.Name, Quick: 90000, Thorough: 300000, Fn: pc.Messages(pr)},
			pbt.Sub{Name: "values/" + pr.Name, Quick: 90000, Thorough: 300000, Fn: pc.Values(pr)},
			pbt.Sub{Name: "scalars/" + pr.Name, Quick: 45000, Thorough: 100000, Fn: pc.Scalars(pr)},
			pbt.Sub{Name: "deep/" + pr.Name, Quick: 9000, Thorough: 30000, Fn: pc.Deep(pr)},
			pbt.Sub{Name: "big/" + pr.Name, Quick: 2250, Thorough: 3000, Fn: pc.Big(pr)},
			pbt.Sub{Name: "twins/" + pr.Name, Quick: 15000, Thorough: 60000, Fn: pc.Twins(pr)},
		)
	}
	pbt.Main(pbt.Property{ID: "S01", Subs: subs,
		Rule: "random messages and values are written through the protocol API and read back; non-trivial = nested composite value (depth>=2), a non-empty composite, a scalar run, a nesting chain or a collection over 14 elements; distinct by the generated case"})
}

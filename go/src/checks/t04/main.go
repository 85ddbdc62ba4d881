package main

import (
	"pbt"
	"trchk"
)

func main() {
	pbt.Main(pbt.Property{ID: "T04",
		Rule: "sequences of full reads of random sizes over every transport, the data arriving in pieces and ending in end-of-file or a failure, alone or along with the last bytes; non-trivial = at least one read of more than 0 bytes",
		Subs: []pbt.Sub{
			{Name: "readall", Quick: 100000, Thorough: 4000000, Fn: trchk.ReadAll},
		}})
}

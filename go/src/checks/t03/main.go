package main

import (
	"pbt"
	"trchk"
)

func main() {
	pbt.Main(pbt.Property{ID: "T03",
		Rule: "random histories of writes, flushes, reads, arriving data and closing over stream transports from every constructor and the factory; non-trivial = data was there to read or to flush",
		Subs: []pbt.Sub{
			{Name: "history", Quick: 100000, Thorough: 4000000, Fn: trchk.Stream},
			{Name: "faults", Quick: 30000, Thorough: 1000000, Fn: trchk.StreamFaults},
		}})
}

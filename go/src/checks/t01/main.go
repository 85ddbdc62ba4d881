package main

import (
	"pbt"
	"trchk"
)

func main() {
	pbt.Main(pbt.Property{ID: "T01",
		Rule: "random histories of writes, flushes and reads over framed transports (one object or two ends), foreign frame sequences delivered in pieces and cut at random positions, open/close/peek histories; non-trivial = data was there to read, or the data was cut",
		Subs: []pbt.Sub{
			{Name: "history", Quick: 60000, Thorough: 3000000, Fn: trchk.FramedHistory},
			{Name: "foreign", Quick: 60000, Thorough: 3000000, Fn: trchk.FramedForeign},
			{Name: "state", Quick: 10000, Thorough: 200000, Fn: trchk.FramedState},
		}})
}

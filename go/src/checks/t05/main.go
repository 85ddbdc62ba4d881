package main

import (
	"io"
	"log"
	"pbt"
	"thrift"
	"trchk"
)

func main() {
	thrift.LOGGER = log.New(io.Discard, "", 0)
	pbt.Main(pbt.Property{ID: "T05",
		Rule: "random histories of writes, flushes, reads, timeouts and closing over sockets with a scripted connection and over real loopback connections between every kind of socket; non-trivial = data was there to read or flush, or a fault was injected",
		Subs: []pbt.Sub{
			{Name: "history", Quick: 80000, Thorough: 3000000, Fn: trchk.SocketHistory},
			{Name: "faults", Quick: 30000, Thorough: 500000, Fn: trchk.SocketFaults},
			{Name: "addresses", Quick: 300, Thorough: 2000, Fn: trchk.BadAddresses},
			{Name: "loopback", Quick: 2000, Thorough: 60000, Fn: trchk.Loopback},
		}})
}

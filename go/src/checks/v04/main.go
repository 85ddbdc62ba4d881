package main

import (
	"io"
	"log"
	"pbt"
	"srvchk"
	"thrift"
)

func main() {
	thrift.LOGGER = log.New(io.Discard, "", 0)
	pbt.Main(pbt.Property{ID: "V04", Schedules: true,
		Rule: "random lives of both servers, on in-memory and on loopback connections: failures to listen and accept, Stop from a handler, another thread, while idle, at a random moment or as a connection arrives, and starting again; non-trivial = Stop meets work under way, several clients at once, or the server is started again",
		Subs: []pbt.Sub{
			{Name: "lifecycle", Quick: 50000, Thorough: 400000, Fn: srvchk.Lifecycle},
			{Name: "network", Quick: 5000, Thorough: 40000, Fn: srvchk.Network},
		}})
}

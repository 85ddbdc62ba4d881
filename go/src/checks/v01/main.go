package main

import (
	"io"
	"log"
	"pbt"
	"srvchk"
	"thrift"
)

func main() {
	thrift.LOGGER = log.New(io.Discard, "", 0)
	pbt.Main(pbt.Property{ID: "V01", Schedules: true,
		Rule: "random histories of clients connecting, sending requests (whole, in parts, pipelined, one-way, failing), reading replies and leaving, on both servers with every constructor, protocol and transport; non-trivial = a reply is read while several connections are open",
		Subs: []pbt.Sub{
			{Name: "serving", Quick: 30000, Thorough: 200000, Fn: srvchk.Serving},
		}})
}

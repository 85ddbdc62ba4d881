package main

import (
	"io"
	"log"
	"pbt"
	"thrift"
	"trchk"
)

func main() {
	thrift.LOGGER = log.New(io.Discard, "", 0)
	pbt.Main(pbt.Property{ID: "T06",
		Rule: "random histories of writes, flushes, reads and closing on HTTP clients against a scripted local HTTP server (bodies in pieces, error statuses, server down); non-trivial = data was there to send or read",
		Subs: []pbt.Sub{
			{Name: "history", Quick: 8000, Thorough: 300000, Fn: trchk.HTTP},
			{Name: "down", Quick: 800, Thorough: 20000, Fn: trchk.HTTPDown},
			{Name: "connections", Quick: 60, Thorough: 2000, Fn: trchk.HTTPConnections},
		}})
}

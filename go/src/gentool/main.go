// gentool writes the packages of a run: gentool <kind> <tier> <seed> <gopath>
package main

import (
	"fmt"
	"genchk"
	"os"
	"strconv"
)

func main() {
	seed, err := strconv.ParseInt(os.Args[3], 10, 64)
	if err == nil {
		err = genchk.Emit(genchk.RunSchemas(os.Args[1], os.Args[2], seed), os.Args[4])
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

// Command fakepg runs the stand-in for PostgreSQL on its own, so that the
// repository's integration tests can be run against it:
//
//	fakepg 127.0.0.1:5432 database...
package main

import (
	"fmt"
	"os"

	"verifharness/fakepg"
)

func main() {
	fakepg.Address = os.Args[1]
	for _, name := range os.Args[2:] {
		fakepg.Create(name)
	}
	fmt.Println(fakepg.Port())
	select {}
}

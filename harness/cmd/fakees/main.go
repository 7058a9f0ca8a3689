// fakees runs the stand-in for EventStoreDB, for the adapter's own tests.
package main

import (
	"fmt"
	"net"
	"os"

	"verifharness/fakees"
)

func main() {
	l, err := net.Listen("tcp", os.Args[1])
	if err == nil {
		fmt.Println(l.Addr())
		err = fakees.Serve(l)
	}
	fmt.Println(err)
}

// Command zzreplay runs one harness natively on a recorded input.
package main

import (
	"fmt"
	"os"

	log "github.com/sirupsen/logrus"

	"github.com/gostor/gotgt/pkg/zzsym"
)

func main() {
	log.SetLevel(log.PanicLevel)
	if len(os.Args) < 3 {
		fmt.Println("usage: zzreplay HARNESS FILE")
		os.Exit(4)
	}
	f := registry[os.Args[1]]
	if f == nil {
		fmt.Println("no such harness")
		os.Exit(4)
	}
	if err := zzsym.Load(os.Args[2]); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	f()
	fmt.Println("ZZ-DONE")
	if zzsym.Failed {
		os.Exit(10)
	}
}

package main

import (
	"fmt"
	"os"
)

var debugEq = os.Getenv("SA_EQ") != ""
var debugOn = os.Getenv("SA_DBG") != ""

func debugf(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
}

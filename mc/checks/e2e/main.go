// Checks that run real servers: C29 (histories of connections and shutdowns on
// net/http.Server).
package main

import (
	"flag"
	"fmt"
	"os"
	"testing"

	"verif.local/mc/kit"
)

func main() {
	testing.Init()
	flag.Parse()
	r := kit.New(*kit.Prop)
	switch r.ID {
	case "C29":
		c29(r)
	default:
		fmt.Println("ERROR unknown property")
		os.Exit(2)
	}
	r.Finish()
}

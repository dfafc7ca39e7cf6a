// C30: TLS servers of package graceful against net/http's, over all small
// combinations of settings of the TLS configuration and all kinds of client.
package main

import (
	"flag"
	"fmt"
	"os"

	"verif.local/mc/kit"
)

func main() {
	flag.Parse()
	r := kit.New(*kit.Prop)
	if *kit.Worker != "" {
		worker(r)
		return
	}
	if r.ID != "C30" {
		fmt.Println("ERROR unknown property")
		os.Exit(2)
	}
	c30(r)
	r.Finish()
}

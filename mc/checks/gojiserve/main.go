// Exhaustive bounded check of goji.Serve, goji.ServeTLS and goji.ServeListener
// as whole processes (C34).
package main

import (
	"flag"
	"log"
	"os"

	"verif.local/mc/kit"
)

func main() {
	if arg := os.Getenv(childVar); arg != "" {
		child(arg)
		return
	}
	flag.Parse()
	log.SetFlags(0)
	r := kit.New(*kit.Prop)
	r.Rule = "state: a process serving with package goji, its requests and connections and the signals it got; transition: one event (request, end of a request, registration, signal, shutdown call)"
	r.Assume("the kernel delivers signals within 1.9 s; a deviation is reported only if it happens three times in a row")
	histories(r)
	if !r.Failed() {
		sources(r)
	}
	if !r.Failed() {
		reports(r)
	}
	if !r.Failed() {
		failures(r)
	}
	r.Finish()
}

package main

import (
	"crypto/rand"
	"net/http"
	"os"

	"sim.local/h/fw"
	_ "sim.local/h/sc"
	"sim.local/h/simrt"
)

func main() {
	http.DefaultTransport = simrt.Transport{}
	rand.Reader = simrt.CryptoReader{}
	os.Unsetenv("GODEBUG")
	fw.Main()
}

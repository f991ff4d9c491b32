// Command server decides the properties of the receiver's TCP server
// (C10-C19) by playing generated sessions against a real server process.
package main

import (
	"io"

	"github.com/sirupsen/logrus"
	"verif/pbt"
)

func main() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	props := []pbt.Property{c10(), c11(), c12(), c13(), c14(), c15(), c16(), c17(), c18(), c19(), c31()}
	for i := range props {
		props[i].Teardown = pool.Close
	}
	pbt.Main(props)
}

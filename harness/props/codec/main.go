// Command codec decides the properties of the EGTS library (C01-C09, C28, C29, C33).
package main

import (
	"io"

	"github.com/sirupsen/logrus"
	"verif/pbt"
)

func main() {
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	pbt.Main([]pbt.Property{c01(), c02(), c03(), c04(), c05(), c06(), c07(), c08(), c09(), c28(), c29(), c33()})
}

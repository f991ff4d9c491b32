// Command app decides the properties of the storage layer, the configuration,
// the receiver program, the packet generator and the replay tool (C20-C27, C30, C32).
package main

import (
	"io"
	"log"
	"os"

	mysqldrv "github.com/go-sql-driver/mysql"
	"github.com/sirupsen/logrus"
	"verif/pbt"
)

func main() {
	for _, k := range []string{"PGHOST", "PGPORT", "PGUSER", "PGPASSWORD", "PGDATABASE", "PGSSLMODE", "PGOPTIONS", "PGPASSFILE", "PGCONNECT_TIMEOUT"} {
		os.Unsetenv(k)
	}
	logrus.SetOutput(io.Discard)
	logrus.SetLevel(logrus.PanicLevel)
	mysqldrv.SetLogger(log.New(io.Discard, "", 0))
	log.SetOutput(io.Discard)
	pbt.Main([]pbt.Property{c20(), c21(), c22(), c23(), c24(), c25(), c26(), c27(), c30(), c32()})
}

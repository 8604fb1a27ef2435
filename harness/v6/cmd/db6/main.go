// db6 runs the SQL of v6 on SQLite beside the evaluation in memory.
package main

import (
	_ "verif6/db"
	"verif6/lib"
)

func main() { lib.Main() }

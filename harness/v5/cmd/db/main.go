// db runs the SQL of v4 or v5 on SQLite beside the evaluation in memory.
package main

import (
	_ "verif45/db"
	"verif45/lib"
)

func main() { lib.Main() }

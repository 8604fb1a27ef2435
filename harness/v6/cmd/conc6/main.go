// conc6 does what drv6 does, with C allocations that give way to other threads.
package main

import (
	"verif6/lib"
	"verif6/memcount"
)

func main() {
	lib.Yield = memcount.Yield
	lib.Main()
}

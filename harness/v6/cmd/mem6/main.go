// mem6 does what drv6 does, several times over, and logs the memory held.
package main

import (
	"verif6/lib"
	"verif6/memcount"
)

func main() {
	lib.Live = memcount.Live
	lib.Main()
}

// drv6 runs v6 of the library on generated cases and logs what it does.
package main

import "verif6/lib"

func main() { lib.Main() }

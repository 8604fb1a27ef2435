// drv runs v4 or v5 of the library on generated cases and logs what it does.
package main

import "verif45/lib"

func main() { lib.Main() }

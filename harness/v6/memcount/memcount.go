// Package memcount counts the C memory a process holds.
package memcount

/*
void verif_live(long *blocks, long *bytes);
void verif_yield(int on);
*/
import "C"

// Live gives the C blocks held now, and their bytes.
func Live() (int64, int64) {
	var b, n C.long
	C.verif_live(&b, &n)
	return int64(b), int64(n)
}

// Yield makes C allocations give way to other threads at random.
func Yield(on bool) {
	v := C.int(0)
	if on {
		v = 1
	}
	C.verif_yield(v)
}

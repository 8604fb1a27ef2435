package lib

import (
	"runtime"
	"sync"
)

// seen collects the different outcomes of each kind of reading.
type seen map[string]map[string]M

func (s seen) add(k string, most int, o M) {
	if s[k] == nil {
		s[k] = map[string]M{}
	}
	if d := digest(o); s[k][d] == nil && len(s[k]) < most {
		s[k][d] = o
	}
}

// together runs f in g goroutines at once and gives what they saw, all different.
func together(g int, f func(i int, s seen)) []M {
	if n := runtime.NumCPU(); g < n {
		runtime.GOMAXPROCS(n)
	} else {
		runtime.GOMAXPROCS(g)
	}
	all := make([]seen, g)
	var wg, ready sync.WaitGroup
	start := make(chan bool)
	for i := 0; i < g; i++ {
		all[i] = seen{}
		wg.Add(1)
		ready.Add(1)
		go func(i int) {
			defer wg.Done()
			ready.Done()
			<-start
			f(i, all[i])
		}(i)
	}
	ready.Wait()
	close(start)
	wg.Wait()
	sum := seen{}
	for _, s := range all {
		for k, m := range s {
			for _, o := range m {
				sum.add(k, 6, o)
			}
		}
	}
	outs := []M{}
	for k, m := range sum {
		for _, o := range m {
			outs = append(outs, M{"k": k[:len(k)-1], "i": int(k[len(k)-1] - '0'), "o": o})
		}
	}
	return outs
}

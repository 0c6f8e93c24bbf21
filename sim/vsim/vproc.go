package vsim

import (
	"os"
	"runtime"
)

// What the library could tell one process, machine or day from another by. In
// the runs whose clock jumps these are drawn as well.

// chance is a number for a run that is drawn, or 0.
//
//go:norace
func chance(salt uint64) uint64 {
	if cs == nil || cs.st.Skew == 0 {
		return 0
	}
	h := (cs.st.Skew ^ salt*0xD6E8FEB86659FD93) * 0x9E3779B97F4A7C15
	h = (h ^ h>>29) * 0xBF58476D1CE4E5B9
	return h ^ h>>32
}

// Getenv is os.Getenv.
func Getenv(key string) string {
	v, _ := LookupEnv(key)
	return v
}

// LookupEnv is os.LookupEnv.
func LookupEnv(key string) (string, bool) {
	salt := uint64(7)
	for i := 0; i < len(key); i++ {
		salt = salt*131 + uint64(key[i])
	}
	h := chance(salt)
	if h == 0 {
		return os.LookupEnv(key)
	}
	vals := []string{"", "1", "0", "true", "80", "C", "de_DE.UTF-8", "/x", "debug", "dumb"}
	if l := Dict.Sfresh; len(l) > 0 && h>>8&1 == 0 {
		vals = l
	}
	if h&1 != 0 {
		return "", false
	}
	return vals[(h>>9)%uint64(len(vals))], true
}

// NumCPU is runtime.NumCPU.
func NumCPU() int {
	if h := chance(2); h != 0 {
		return 1 + int(h%64)
	}
	return runtime.NumCPU()
}

// GOMAXPROCS is runtime.GOMAXPROCS.
func GOMAXPROCS(n int) int {
	if current() == nil {
		return runtime.GOMAXPROCS(n)
	}
	return NumCPU()
}

// NumGoroutine is runtime.NumGoroutine.
func NumGoroutine() int {
	if h := chance(3); h != 0 {
		return 1 + int(h%2000)
	}
	return runtime.NumGoroutine()
}

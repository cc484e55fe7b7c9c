package vlib

import (
	"bufio"
	"os"
	"strconv"
	"strings"
	"syscall"
)

var unmapped int

// Unmap releases the mappings of files below dir that runs have left behind (a
// process that ends need not release them, but thousands of runs in one process
// use up what the system allows). It looks every few hundred calls.
func Unmap(dir string) {
	if unmapped++; unmapped%500 != 0 {
		return
	}
	f, err := os.Open("/proc/self/maps")
	if err != nil {
		return
	}
	var old [][2]uint64
	for s := bufio.NewScanner(f); s.Scan(); {
		l := s.Text()
		if !strings.Contains(l, " "+dir+"/") {
			continue
		}
		r := strings.SplitN(strings.SplitN(l, " ", 2)[0], "-", 2)
		a, err1 := strconv.ParseUint(r[0], 16, 64)
		b, err2 := strconv.ParseUint(r[1], 16, 64)
		if err1 == nil && err2 == nil {
			old = append(old, [2]uint64{a, b})
		}
	}
	f.Close()
	for _, m := range old {
		syscall.Syscall(syscall.SYS_MUNMAP, uintptr(m[0]), uintptr(m[1]-m[0]), 0)
	}
}

package core

import "syscall"

func limitMem(n uint64) {
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: n, Max: n})
}

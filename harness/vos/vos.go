// Package vos stands in for the calls of package os that change a directory
// (only those) in pkg/hnsw during explorations of the commit log: it tells the
// harness before each of them, so that it can look at the files as a process
// death at that point would leave them.
package vos

import "os"

// Hook, if set, is called before every change.
var Hook func(op, path string)

func call(op, path string) {
	if Hook != nil {
		Hook(op, path)
	}
}

func Rename(a, b string) error { call("rename", a); return os.Rename(a, b) }

func Remove(p string) error { call("remove", p); return os.Remove(p) }

func RemoveAll(p string) error { call("removeall", p); return os.RemoveAll(p) }

func Truncate(p string, n int64) error { call("truncate", p); return os.Truncate(p, n) }

func Create(p string) (*os.File, error) { call("create", p); return os.Create(p) }

func OpenFile(p string, flag int, perm os.FileMode) (*os.File, error) {
	call("open", p)
	return os.OpenFile(p, flag, perm)
}

func WriteFile(p string, b []byte, perm os.FileMode) error {
	call("writefile", p)
	return os.WriteFile(p, b, perm)
}

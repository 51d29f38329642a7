// Package simioutil is package io/ioutil for the simulated command line tool.
package simioutil

import (
	"io"
	"io/fs"

	"verifsim/simos"
)

var Discard = io.Discard

func ReadAll(r io.Reader) ([]byte, error)       { return io.ReadAll(r) }
func NopCloser(r io.Reader) io.ReadCloser       { return io.NopCloser(r) }
func ReadFile(n string) ([]byte, error)         { return simos.ReadFile(n) }
func TempDir(d, p string) (string, error)       { return simos.MkdirTemp(d, p) }
func TempFile(d, p string) (*simos.File, error) { return simos.CreateTemp(d, p) }
func WriteFile(n string, b []byte, m fs.FileMode) error {
	return simos.WriteFile(n, b, m)
}
func ReadDir(n string) (r []fs.FileInfo, err error) {
	l, err := simos.ReadDir(n)
	for _, d := range l {
		i, _ := d.Info()
		r = append(r, i)
	}
	return r, err
}

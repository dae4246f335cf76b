// Package vfs sits between the embedded database and its file: the rewritten
// copy of the database calls it for every write, truncation and sync, so that
// a check can log them (for crash enumeration) or make one of them fail.
package vfs

import (
	"mcverif/vs"
)

// Op is one logged file operation.
type Op struct {
	Kind string // "write", "trunc", "sync"
	Off  int64
	Data []byte
	Size int64
}

// Recorder, when set, sees every file operation before it happens; a non-nil
// error makes the operation fail without effect (short >= 0 writes that many
// bytes first).
type Recorder func(path string, op Op) (short int, err error)

var rec Recorder

// SetRecorder installs (or removes) the recorder.
func SetRecorder(r Recorder) { rec = r }

// WrapWrite wraps the file's WriteAt.
func WrapWrite(path string, real func([]byte, int64) (int, error)) func([]byte, int64) (int, error) {
	return func(b []byte, off int64) (int, error) {
		if rec != nil {
			op := Op{Kind: "write", Off: off, Data: append([]byte{}, b...)}
			if short, err := rec(path, op); err != nil {
				n := 0
				if short > 0 {
					n, _ = real(b[:short], off)
				}
				return n, err
			}
		}
		return real(b, off)
	}
}

// Truncate wraps the file's Truncate.
func Truncate(path string, size int64, real func(int64) error) error {
	if rec != nil {
		if _, err := rec(path, Op{Kind: "trunc", Size: size}); err != nil {
			return err
		}
	}
	return real(size)
}

// Sync replaces fsync and fdatasync: the files of a check live in memory, so
// only the recorder needs to know.
func Sync(path string) error {
	if rec != nil {
		if _, err := rec(path, Op{Kind: "sync"}); err != nil {
			return err
		}
	}
	return nil
}

// TxPoint is the scheduling point at the start of every transaction.
func TxPoint() { vs.Point() }

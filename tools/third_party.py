#!/usr/bin/env python3
"""Makes harness/third_party/goleveldb: the goleveldb the repository uses, with its
file operations reported to a hook (used by the crash checks of C10)."""
import os, shutil, sys
M = '/root/go/pkg/mod/github.com/syndtr/goleveldb@v1.0.0'
D = os.path.join(os.path.dirname(os.path.abspath(__file__)), '../harness/third_party/goleveldb')
shutil.rmtree(os.path.join(D, 'leveldb'), ignore_errors=True)
for root, dirs, files in os.walk(os.path.join(M, 'leveldb')):
    if 'testutil' in root: continue
    for f in files:
        if f.endswith('_test.go'): continue
        t = os.path.join(D, os.path.relpath(os.path.join(root, f), M))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        open(t, 'wb').write(open(os.path.join(root, f), 'rb').read())
open(os.path.join(D, 'LICENSE'), 'wb').write(open(os.path.join(M, 'LICENSE'), 'rb').read())
open(os.path.join(D, 'go.mod'), 'w').write('''module github.com/syndtr/goleveldb

require github.com/golang/snappy v0.0.0-20180518054509-2e65f85255db
''')
def edit(p, *reps):
    p = os.path.join(D, p); s = open(p).read()
    for a, b in reps:
        assert s.count(a) == 1, (a, s.count(a))
        s = s.replace(a, b)
    return p, s
p, s = edit('leveldb/storage/file_storage.go',
('''	f, err := os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	n, err := f.Write(data)
	if err == nil && n < len(data) {
		err = io.ErrShortWrite
	}
	if err1 := f.Sync(); err == nil {
''', '''	var f *os.File
	err := verifDo(VerifOp{Op: "create", File: filename}, func() (err error) {
		f, err = os.OpenFile(filename, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
		return err
	})
	if err != nil {
		return err
	}
	var n int
	err = verifDo(VerifOp{Op: "write", File: filename, Data: data}, func() (err error) {
		n, err = f.Write(data)
		return err
	})
	if err == nil && n < len(data) {
		err = io.ErrShortWrite
	}
	if err1 := verifDo(VerifOp{Op: "sync", File: filename}, f.Sync); err == nil {
'''),
('''	of, err := os.OpenFile(filepath.Join(fs.path, fsGenName(fd)), os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
	if err != nil {
''', '''	var of *os.File
	name := filepath.Join(fs.path, fsGenName(fd))
	err := verifDo(VerifOp{Op: "create", File: name}, func() (err error) {
		of, err = os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, 0644)
		return err
	})
	if err != nil {
'''),
('	of, err := os.OpenFile(filepath.Join(fs.path, fsGenName(fd)), os.O_RDONLY, 0)\n', '''	var of *os.File
	name := filepath.Join(fs.path, fsGenName(fd))
	err := verifDo(VerifOp{Op: "open", File: name}, func() (err error) {
		of, err = os.OpenFile(name, os.O_RDONLY, 0)
		return err
	})
'''),
('	if err := fw.File.Sync(); err != nil {', '	if err := verifDo(VerifOp{Op: "sync", File: fw.File.Name()}, fw.File.Sync); err != nil {'),
('type fileWrap struct {', '''func (fw *fileWrap) Write(b []byte) (n int, err error) {
	err = verifDo(VerifOp{Op: "write", File: fw.File.Name(), Data: b}, func() (err error) {
		n, err = fw.File.Write(b)
		return err
	})
	return n, err
}

func (fw *fileWrap) ReadAt(b []byte, off int64) (n int, err error) {
	err = verifDo(VerifOp{Op: "read", File: fw.File.Name()}, func() (err error) {
		n, err = fw.File.ReadAt(b, off)
		return err
	})
	return n, err
}

// VerifOp is one operation on the files of a database.
type VerifOp struct {
	Op   string // create, write, sync, syncdir, rename, remove, open, read
	File string
	To   string
	Data []byte
}

// VerifHook is told of each operation before it is done, one at a time, and
// makes it fail by returning an error.
var VerifHook func(op VerifOp) error

var verifMu sync.Mutex

func verifDo(op VerifOp, f func() error) error {
	verifMu.Lock()
	defer verifMu.Unlock()
	if VerifHook != nil {
		if err := VerifHook(op); err != nil {
			return err
		}
	}
	return f()
}

// SetVerifHook sets the hook.
func SetVerifHook(h func(op VerifOp) error) { verifMu.Lock(); VerifHook = h; verifMu.Unlock() }

type fileWrap struct {'''))
s = s.replace('os.Remove(', 'verifRemove(').replace('type fileWrap struct {', '''func verifRemove(name string) error {
	return verifDo(VerifOp{Op: "remove", File: name}, func() error { return os.Remove(name) })
}

type fileWrap struct {''')
open(p, 'w').write(s)
p, s = edit('leveldb/storage/file_storage_unix.go',
('	return os.Rename(oldpath, newpath)', '	return verifDo(VerifOp{Op: "rename", File: oldpath, To: newpath}, func() error { return os.Rename(oldpath, newpath) })'),
('f.Sync();', 'verifDo(VerifOp{Op: "syncdir", File: name}, f.Sync);'))
open(p, 'w').write(s)

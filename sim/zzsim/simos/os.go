// Package simos is the part of package os the command line client writes files with: every
// write can be interrupted half way, and can fail.
package simos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"maps"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"strings"

	"zzsim/rt"
)

type File struct {
	*os.File
	state *content
}

// content is what is known about a file some process has written: what of it was synced.
type content struct {
	synced int64
	dirty  bool
}

// track returns the content of a file about to be opened for writing.
func track(name string, flag int) *content {
	if !rt.Active() || flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return nil
	}
	name = abs(name)
	w := rt.W()
	c, _ := w.Files[name].(*content)
	st, err := os.Stat(name)
	if c == nil {
		c = &content{}
		if err == nil {
			c.synced = st.Size()
		}
		if w.Files == nil {
			w.Files = map[string]any{}
		}
		w.Files[name] = c
	}
	if flag&os.O_TRUNC != 0 || err != nil {
		*c = content{dirty: true}
	}
	return c
}

func abs(p string) string {
	a, err := filepath.Abs(p)
	if err != nil {
		return p
	}
	return a
}

func forget(p string) {
	if rt.Active() {
		p = abs(p)
		for k := range rt.W().Files {
			if k == p || strings.HasPrefix(k, p+"/") {
				delete(rt.W().Files, k)
			}
		}
	}
}

// PowerLoss damages the files of the run's own directory that were not synced, as an operating
// system that stops suddenly may. It returns how many it damaged.
func PowerLoss(seed uint64) (n int) {
	w := rt.W()
	r := rand.New(rand.NewPCG(seed, 1))
	for _, p := range slices.Sorted(maps.Keys(w.Files)) {
		c := w.Files[p].(*content)
		if !c.dirty {
			continue
		}
		confine(p)
		st, err := os.Stat(p)
		if err != nil {
			continue
		}
		n++
		keep := min(c.synced, st.Size())
		switch r.IntN(5) {
		case 0, 1: // nothing more got to the disk
			os.Truncate(p, keep)
		case 2: // some of it
			os.Truncate(p, keep+r.Int64N(st.Size()-keep+1))
		case 3: // its length, and some of it
			keep += r.Int64N(st.Size() - keep + 1)
			os.Truncate(p, keep)
			os.Truncate(p, st.Size())
		case 4:
			if keep == 0 {
				os.Remove(p)
			}
		}
		*c = content{synced: keep}
	}
	return n
}

func wrap(f *os.File, c *content, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	if rt.Active() {
		rt.CurInc().AddCloser("file", f, f.Close, func() bool { return f.Fd() == ^uintptr(0) })
	}
	return &File{f, c}, nil
}

// confine keeps writes of the code under test inside the run's own directory.
func confine(p string) {
	if !rt.Active() {
		return
	}
	root := rt.W().Root
	a, err := filepath.Abs(p)
	if err != nil || root == "" || a != root && !strings.HasPrefix(a, root+"/") {
		panic("the process tried to change " + p + ", which is none of its files")
	}
}

func y(op string) error {
	if !rt.Active() {
		return nil
	}
	rt.Y(rt.SiteOS)
	if rt.Fault(op) {
		return rt.EIO(op)
	}
	return nil
}

func (f *File) Write(p []byte) (n int, err error) {
	if !rt.Active() {
		return f.File.Write(p)
	}
	rt.Y(rt.SiteOSWrite)
	if f.state != nil {
		f.state.dirty = true
	}
	k := min(len(p), max(1, (len(p)+2)/3))
	first := true
	for len(p) > 0 || first {
		first = false
		switch rt.FaultN("os.write", 2) {
		case 1:
			return n, rt.EIO("write")
		case 2:
			return n, rt.ENOSPC("write")
		}
		c := p[:min(k, len(p))]
		m, err := f.File.Write(c)
		n += m
		if err != nil {
			return n, err
		}
		p = p[m:]
		rt.Y(rt.SiteOSWrite)
	}
	return n, nil
}

func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(struct{ io.Writer }{f}, r) }

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Close() error {
	if !rt.Active() {
		return f.File.Close()
	}
	rt.Y(rt.SiteOS)
	err := f.File.Close()
	if err == nil && rt.Fault("os.close") {
		return rt.EIO("close")
	}
	return err
}

func (f *File) Sync() error {
	if err := y("os.sync"); err != nil {
		return err
	}
	if st, err := f.File.Stat(); err == nil && f.state != nil {
		*f.state = content{synced: st.Size()}
	}
	return nil
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	if err := y("os.open"); err != nil {
		return nil, err
	}
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) != 0 {
		confine(name)
	}
	c := track(name, flag)
	f, err := os.OpenFile(name, flag, perm)
	return wrap(f, c, err)
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func ReadFile(name string) ([]byte, error) {
	if err := y("os.read"); err != nil {
		return nil, err
	}
	return os.ReadFile(name)
}

func Rename(a, b string) error {
	if err := y("os.rename"); err != nil {
		return err
	}
	confine(a)
	confine(b)
	err := os.Rename(a, b)
	if err == nil && rt.Active() {
		a, b := abs(a), abs(b)
		forget(b)
		for k, c := range rt.W().Files {
			if k == a || strings.HasPrefix(k, a+"/") {
				delete(rt.W().Files, k)
				rt.W().Files[b+k[len(a):]] = c
			}
		}
	}
	return err
}

func Link(a, b string) error {
	if err := y("os.link"); err != nil {
		return err
	}
	confine(a)
	confine(b)
	err := os.Link(a, b)
	if err == nil && rt.Active() {
		if c, ok := rt.W().Files[abs(a)]; ok {
			rt.W().Files[abs(b)] = c
		}
	}
	return err
}

func tmp(dir, pattern string, mk func(string) error) (string, error) {
	if dir == "" {
		dir = rt.W().TmpDir
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for {
		n := filepath.Join(dir, fmt.Sprint(pre, rt.W().TmpN(), suf))
		err := mk(n)
		if errors.Is(err, fs.ErrExist) {
			continue
		}
		return n, err
	}
}

func CreateTemp(dir, pattern string) (*File, error) {
	if !rt.Active() {
		f, err := os.CreateTemp(dir, pattern)
		return wrap(f, nil, err)
	}
	if err := y("os.open"); err != nil {
		return nil, err
	}
	var f *os.File
	var c *content
	_, err := tmp(dir, pattern, func(n string) (err error) {
		defer func() {
			if err == nil {
				forget(n)
				c = track(n, os.O_RDWR|os.O_TRUNC)
			}
		}()
		f, err = os.OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		return
	})
	return wrap(f, c, err)
}

func MkdirTemp(dir, pattern string) (string, error) {
	if !rt.Active() {
		return os.MkdirTemp(dir, pattern)
	}
	if err := y("os.mkdir"); err != nil {
		return "", err
	}
	return tmp(dir, pattern, func(n string) error { return os.Mkdir(n, 0700) })
}

func MkdirAll(p string, m os.FileMode) error {
	if rt.Active() {
		rt.Y(rt.SiteOS)
	}
	confine(p)
	return os.MkdirAll(p, m)
}
func Mkdir(p string, m os.FileMode) error {
	if rt.Active() {
		rt.Y(rt.SiteOS)
	}
	confine(p)
	return os.Mkdir(p, m)
}
func Remove(p string) error {
	if rt.Active() {
		rt.Y(rt.SiteOS)
	}
	confine(p)
	err := os.Remove(p)
	if err == nil {
		forget(p)
	}
	return err
}
func RemoveAll(p string) error {
	if rt.Active() {
		rt.Y(rt.SiteOS)
	}
	confine(p)
	forget(p)
	return os.RemoveAll(p)
}
func Stat(p string) (os.FileInfo, error) {
	if err := y("os.stat"); err != nil {
		return nil, err
	}
	return os.Stat(p)
}
func ReadDir(p string) ([]os.DirEntry, error) {
	if err := y("os.readdir"); err != nil {
		return nil, err
	}
	return os.ReadDir(p)
}

// Out is a process's standard output.
type Out struct{ name string }

func Stdout() *Out { return &Out{"stdout"} }

func (o *Out) Write(p []byte) (int, error) {
	if !rt.Active() {
		return os.Stdout.Write(p)
	}
	rt.Y(rt.SiteOSWrite)
	in := rt.CurInc()
	if o.name == "stdout" {
		n, err := -1, error(nil)
		switch rt.FaultN("stdout.write", 2) {
		case 1:
			n, err = 0, rt.EIO("write")
		case 2:
			n, err = len(p)/2, rt.ENOSPC("write")
		}
		if n >= 0 {
			in.Stdout[o.name] = append(in.Stdout[o.name], p[:n]...)
			in.Stdout["failed"] = []byte{1}
			return n, err
		}
	}
	in.Stdout[o.name] = append(in.Stdout[o.name], p...)
	return len(p), nil
}
func (o *Out) WriteString(s string) (int, error) { return o.Write([]byte(s)) }
func (o *Out) Sync() error                       { return nil }
func (o *Out) Close() error                      { return nil }
func (o *Out) Fd() uintptr                       { return 1 }

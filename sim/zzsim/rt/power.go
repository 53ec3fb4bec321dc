package rt

import (
	"bytes"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
)

// Loss of power. What a process wrote is in the page cache and survives its crash; only what
// was synced survives a loss of power. Disk keeps, for each file, what is certainly on disk.

const diskPage = 4096

type image struct {
	size  int64
	pages map[int64][]byte
}

// Disk is the durable state of the files of a simulated computer.
type Disk struct {
	mu     sync.Mutex
	images map[uint64]*image // by inode
	Syncs  int
}

func inode(f *os.File) (uint64, bool) {
	var st syscall.Stat_t
	if err := syscall.Fstat(int(f.Fd()), &st); err != nil {
		return 0, false
	}
	return st.Ino, true
}

// Synced notes that the content of f has reached the disk.
func Synced(f *os.File) {
	nw := w
	if nw == nil || nw.Disk == nil || f == nil {
		return
	}
	p := f.Name()
	if r, err := os.Open(p); err == nil { // f may be open for writing only
		nw.Disk.note(r)
		r.Close()
	}
}

func (d *Disk) note(f *os.File) {
	ino, ok := inode(f)
	if !ok {
		return
	}
	im, err := read(f)
	if err != nil {
		return
	}
	d.mu.Lock()
	d.images[ino] = im
	d.Syncs++
	d.mu.Unlock()
}

// read reads the data of a file, leaving out its holes.
func read(f *os.File) (*image, error) {
	fi, err := f.Stat()
	if err != nil {
		return nil, err
	}
	im := &image{size: fi.Size(), pages: map[int64][]byte{}}
	for off := int64(0); off < im.size; {
		d, err := syscall.Seek(int(f.Fd()), off, 3) // SEEK_DATA
		if err != nil {
			break // only a hole is left
		}
		e, err := syscall.Seek(int(f.Fd()), d, 4) // SEEK_HOLE
		if err != nil {
			e = im.size
		}
		for d = d / diskPage * diskPage; d < e; d += diskPage {
			b := make([]byte, diskPage)
			n, err := f.ReadAt(b, d)
			if err != nil && err != io.EOF {
				return nil, err
			}
			if n > 0 && !zero(b) {
				im.pages[d/diskPage] = b
			}
		}
		off = e
	}
	return im, nil
}

func zero(b []byte) bool {
	for _, c := range b {
		if c != 0 {
			return false
		}
	}
	return true
}

var blank = make([]byte, diskPage)

func (im *image) page(i int64) []byte {
	if b := im.pages[i]; b != nil {
		return b
	}
	return blank
}

func (im *image) write(path string, perm fs.FileMode) error {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_RDWR, perm)
	if err != nil {
		return err
	}
	defer f.Close()
	for i, b := range im.pages {
		if i*diskPage >= im.size {
			continue
		}
		if _, err := f.WriteAt(b[:min(diskPage, im.size-i*diskPage)], i*diskPage); err != nil {
			return err
		}
	}
	return f.Truncate(im.size)
}

// files lists the regular files below dir, in order.
func files(dir string) (r []string) {
	filepath.WalkDir(dir, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() {
			rel, _ := filepath.Rel(dir, p)
			r = append(r, rel)
		}
		return nil
	})
	return
}

// Moved carries the durable state of the files over to a copy of their directory.
func (d *Disk) Moved(src, dst string) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for _, rel := range files(src) {
		a, err := os.Open(filepath.Join(src, rel))
		if err != nil {
			continue
		}
		b, err := os.Open(filepath.Join(dst, rel))
		if err == nil {
			i, _ := inode(a)
			j, _ := inode(b)
			if im := d.images[i]; im != nil {
				d.images[j] = im
				delete(d.images, i)
			}
			b.Close()
		}
		a.Close()
	}
}

// PowerLoss copies what the disk holds of directory src to dst. draw decides what of the data
// that was never synced happened to be written back.
func (d *Disk) PowerLoss(src, dst string, draw func(n int) int) (lost int, err error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	err = filepath.WalkDir(src, func(p string, e fs.DirEntry, err error) error {
		if err == nil && e.IsDir() {
			rel, _ := filepath.Rel(src, p)
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		return nil
	})
	if err != nil {
		return 0, err
	}
	for _, rel := range files(src) {
		f, err := os.Open(filepath.Join(src, rel))
		if err != nil {
			return 0, err
		}
		ino, _ := inode(f)
		cur, err := read(f)
		fi, _ := f.Stat()
		f.Close()
		if err != nil {
			return 0, err
		}
		old := d.images[ino]
		if old == nil {
			old = &image{}
		}
		base := filepath.Base(rel)
		res, n := cur, 0
		if !synchronous(base) {
			res, n = mix(old, cur, base, draw)
		}
		lost += n
		path := filepath.Join(dst, rel)
		if err := res.write(path, fi.Mode().Perm()); err != nil {
			return 0, err
		}
		g, err := os.Open(path)
		if err != nil {
			return 0, err
		}
		j, _ := inode(g)
		g.Close()
		d.images[j] = res
		delete(d.images, ino)
	}
	return lost, nil
}

// synchronous tells the files whose writes do not return before they are on disk.
func synchronous(base string) bool { return strings.HasPrefix(base, "KEYREGISTRY") }

// ordered tells the files whose pages are written back in order. The index has no checksums, so
// it relies on it for its log and for the first pages of a new file. A file of which only some
// of them got to the disk is cut and starts again.
func ordered(base string, old *image) bool {
	return base == "wal" || base == "data" && old.size < 3*8192
}

func mix(old, cur *image, base string, draw func(n int) int) (*image, int) {
	seen := map[int64]bool{}
	var diff []int64
	for _, m := range []*image{old, cur} {
		for i := range m.pages {
			if !seen[i] && !bytes.Equal(old.page(i), cur.page(i)) {
				seen[i] = true
				diff = append(diff, i)
			}
		}
	}
	if len(diff) == 0 && old.size == cur.size {
		return cur, 0
	}
	sort.Slice(diff, func(i, j int) bool { return diff[i] < diff[j] })
	how := draw(3) // 0: none of it was written, 1: some, 2: all
	// a file that is written through a mapping gets its length when it is made, which like all
	// changes of directories and lengths is journalled
	mapped := base != "wal" && base != "data" && base != "MANIFEST"
	switch how {
	case 0:
		if mapped {
			return &image{size: cur.size, pages: old.pages}, max(1, len(diff))
		}
		return old, max(1, len(diff))
	case 2:
		return cur, 0
	}
	if ordered(base, old) {
		if cur.size < old.size {
			return old, max(1, len(diff))
		}
		// the first pages of the new ones
		end := old.size / diskPage
		n := (cur.size - old.size + diskPage - 1) / diskPage
		end += int64(draw(int(n) + 1))
		res := &image{size: min(cur.size, max(end*diskPage, old.size)), pages: map[int64][]byte{}}
		lost := 0
		for i, b := range old.pages {
			res.pages[i] = b
		}
		for _, i := range diff {
			if i < end {
				res.pages[i] = cur.page(i)
			} else {
				lost++
			}
		}
		return res, lost
	}
	res := &image{size: max(old.size, cur.size), pages: map[int64][]byte{}}
	if mapped || draw(2) == 0 {
		res.size = cur.size
	}
	for i, b := range old.pages {
		res.pages[i] = b
	}
	lost := 0
	for _, i := range diff {
		if draw(2) == 0 {
			lost++
		} else {
			res.pages[i] = cur.page(i)
		}
	}
	return res, lost
}

func newDisk() *Disk { return &Disk{images: map[uint64]*image{}} }

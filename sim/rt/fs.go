package rt

import (
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"syscall"
)

// FS is an in-memory file system shared by the simulated processes. What a
// completed call wrote survives the death of a process; what was synced
// survives a power loss, and what was not may survive in part.
type FS struct {
	w       *World
	root    *Inode
	nextIno int
	track   bool
	Ops     int64
	Bytes   int64
}

type wop struct {
	off  int64
	data []byte
	trnc bool
}

type dop struct {
	set, del string
	ino      *Inode
}

type Inode struct {
	id    int
	dir   bool
	data  []byte
	pat   []byte // what is there over and over before data, in place of zeros
	lead  int64  // so many zero bytes are before data; low is what was written over them
	low   []wop
	ents  map[string]*Inode
	mode  uint32
	mtime int64

	synced  []byte
	pend    []wop
	dsynced map[string]*Inode
	dpend   []dop

	ex *Handle
	sh map[*Handle]bool
}

type Handle struct {
	fs     *FS
	fd     int
	ino    *Inode
	off    int64
	rd, wr bool
	app    bool
	osync  bool
	proc   *Proc
	Path   string
	closed bool
	base   string
	ctr    [nkinds]*ctr
	plan   *FaultPlan
	dirpos int
}

// Kinds of file system calls.
const (
	KOpen = iota
	KCreate
	KRead
	KReadAt
	KWrite
	KWriteAt
	KSeek
	KStat
	KTrunc
	KSync
	KMkdir
	KRemove
	KRename
	KReadDir
	KFlock
	KClose
	nkinds
)

var kindNames = [nkinds]string{"open", "create", "read", "readat", "write", "writeat", "seek", "stat", "trunc", "sync", "mkdir", "remove", "rename", "readdir", "flock", "close"}

// Fault is one injected fault: the N-th call (counting from 1, while the plan
// is armed) of the given class, e.g. "write:b#.pos", misbehaves.
type Fault struct {
	Class  string `json:"class"`
	N      int    `json:"n"`
	Kind   string `json:"kind"`             // eio enospc enolck eacces | crash torn power power-torn
	Arg    int    `json:"arg,omitempty"`    // per mille of the data written before the fault (enospc, torn)
	Sticky int    `json:"sticky,omitempty"` // enospc, eio: this many following calls of the same direction fail too
}

type ctr struct {
	class string
	kind  int
	n     int
	f     []*Fault
}

// FaultPlan is a process's fault injection state.
type FaultPlan struct {
	Faults     []Fault
	Armed      bool
	ShortReads int // one read in this many is short (0: never)
	ctrs       map[string]*ctr
	Fired      []string
	sticky     int
	stickyF    Fault
	stickyW    bool
	ErrsOut    int // error faults delivered to the program
	WriteErrs  int // of these, in calls that create or modify
	ReadErrs   int
}

// Census returns how many calls of each class were made while armed.
func (p *FaultPlan) Census() map[string]int {
	m := make(map[string]int)
	for k, c := range p.ctrs {
		if c.n > 0 {
			m[k] = c.n
		}
	}
	return m
}

func (p *FaultPlan) ctr(kind int, base string) *ctr {
	if p.ctrs == nil {
		p.ctrs = make(map[string]*ctr)
	}
	cl := kindNames[kind] + ":" + base
	c := p.ctrs[cl]
	if c == nil {
		c = &ctr{class: cl, kind: kind}
		for i := range p.Faults {
			if p.Faults[i].Class == cl {
				c.f = append(c.f, &p.Faults[i])
			}
		}
		p.ctrs[cl] = c
	}
	return c
}

// classBase replaces digit runs by # so that classes do not depend on numbering.
func classBase(p string) string {
	b := path.Base(p)
	var o []byte
	for i := 0; i < len(b); i++ {
		if b[i] >= '0' && b[i] <= '9' {
			if len(o) == 0 || o[len(o)-1] != '#' {
				o = append(o, '#')
			}
			continue
		}
		o = append(o, b[i])
	}
	return string(o)
}

func newFS(w *World) *FS {
	fs := &FS{w: w, track: w.opt.TrackDur}
	fs.root = fs.newInode(true, 0755)
	return fs
}

func (fs *FS) newInode(dir bool, mode uint32) *Inode {
	fs.nextIno++
	n := &Inode{id: fs.nextIno, dir: dir, mode: mode}
	if dir {
		n.ents = make(map[string]*Inode)
		n.dsynced = make(map[string]*Inode)
	}
	return n
}

func writeKind(k int) bool {
	switch k {
	case KCreate, KWrite, KWriteAt, KTrunc, KSync, KMkdir, KRemove, KRename:
		return true
	}
	return false
}

// enter starts a file system call; it returns the fault to apply, if any.
func (fs *FS) enter(kind int, h *Handle, base string, arg int) *Fault {
	w := fs.w
	w.checkKilled()
	fs.Ops++
	w.fsYield()
	p := w.cur.proc
	var id int
	if h != nil {
		id = h.ino.id
	}
	w.mix(uint64(kind)+16, uint64(p.id)<<32|uint64(id), uint64(arg))
	if w.opt.LogFull && p != w.harness {
		b := base
		if h != nil {
			b = h.base
		}
		w.logf("%s/%s fs %s %s arg=%d", p.Name, w.cur.name, kindNames[kind], b, arg)
	}
	pl := p.Plan
	if pl == nil || !pl.Armed {
		return nil
	}
	var c *ctr
	if h != nil {
		if h.plan != pl {
			h.plan = pl
			h.ctr = [nkinds]*ctr{}
		}
		c = h.ctr[kind]
		if c == nil {
			c = pl.ctr(kind, h.base)
			h.ctr[kind] = c
		}
	} else {
		c = pl.ctr(kind, base)
	}
	c.n++
	for _, f := range c.f {
		if f.N == c.n {
			pl.Fired = append(pl.Fired, f.Kind+"@"+f.Class)
			w.logf("fault %s at %s #%d", f.Kind, f.Class, f.N)
			w.mix(5, uint64(f.N), uint64(len(f.Kind)))
			switch f.Kind {
			case "crash":
				p.Kill()
			case "power":
				w.PowerLoss()
			case "torn", "power-torn":
				return f
			default:
				if f.Sticky > 0 {
					pl.sticky = f.Sticky
					pl.stickyF = *f
					pl.stickyF.Arg = 0
					pl.stickyW = writeKind(kind)
				}
				pl.note(kind)
				return f
			}
		}
	}
	if pl.sticky > 0 {
		switch kind {
		case KCreate, KWrite, KWriteAt, KMkdir, KSync:
			if !pl.stickyW {
				return nil
			}
		case KOpen, KRead, KReadAt, KReadDir:
			if pl.stickyW {
				return nil
			}
		default:
			return nil
		}
		pl.sticky--
		pl.note(kind)
		return &pl.stickyF
	}
	return nil
}

func (pl *FaultPlan) note(kind int) {
	pl.ErrsOut++
	if writeKind(kind) {
		pl.WriteErrs++
	} else {
		pl.ReadErrs++
	}
}

func (f *Fault) errno() syscall.Errno {
	switch f.Kind {
	case "enospc":
		return syscall.ENOSPC
	case "enolck":
		return syscall.ENOLCK
	case "eacces":
		return syscall.EACCES
	case "emfile":
		return syscall.EMFILE
	}
	return syscall.EIO
}

func (p *Proc) abs(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = p.Cwd + "/" + name
	}
	return path.Clean(name)
}

func split(p string) []string {
	var out []string
	for _, s := range strings.Split(p, "/") {
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

func (fs *FS) lookup(abs string) (*Inode, syscall.Errno) {
	n := fs.root
	for _, s := range split(abs) {
		if !n.dir {
			return nil, syscall.ENOTDIR
		}
		c := n.ents[s]
		if c == nil {
			return nil, syscall.ENOENT
		}
		n = c
	}
	return n, 0
}

func (fs *FS) parent(abs string) (*Inode, string, syscall.Errno) {
	if abs == "/" {
		return nil, "", syscall.EEXIST
	}
	d, e := fs.lookup(path.Dir(abs))
	if e != 0 {
		return nil, "", e
	}
	if !d.dir {
		return nil, "", syscall.ENOTDIR
	}
	return d, path.Base(abs), 0
}

func (fs *FS) dset(d *Inode, name string, n *Inode) {
	d.ents[name] = n
	if fs.track {
		d.dpend = append(d.dpend, dop{set: name, ino: n})
	}
}

func (fs *FS) ddel(d *Inode, name string) {
	delete(d.ents, name)
	if fs.track {
		d.dpend = append(d.dpend, dop{del: name})
	}
}

func (fs *FS) Open(name string, flag int, perm uint32) (*Handle, error) {
	w := fs.w
	if name == "" {
		return nil, syscall.ENOENT
	}
	p := w.cur.proc
	abs := p.abs(name)
	base := classBase(abs)
	kind := KOpen
	if flag&(syscall.O_CREAT|syscall.O_TRUNC) != 0 {
		kind = KCreate
	}
	if f := fs.enter(kind, nil, base, flag); f != nil {
		return nil, f.errno()
	}
	n, e := fs.lookup(abs)
	wr := flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0
	if e == syscall.ENOENT && flag&syscall.O_CREAT != 0 {
		d, b, e2 := fs.parent(abs)
		if e2 != 0 {
			return nil, e2
		}
		n = fs.newInode(false, perm)
		fs.dset(d, b, n)
	} else if e != 0 {
		return nil, e
	} else {
		if flag&syscall.O_CREAT != 0 && flag&syscall.O_EXCL != 0 {
			return nil, syscall.EEXIST
		}
		if n.dir && (wr || flag&syscall.O_CREAT != 0) {
			return nil, syscall.EISDIR
		}
		if n.mode&0400 == 0 && !wr {
			return nil, syscall.EACCES
		}
	}
	if len(p.handles) >= maxFiles {
		return nil, syscall.EMFILE
	}
	if flag&syscall.O_TRUNC != 0 && wr && n.size() > 0 {
		fs.truncate(n, 0)
	}
	h := &Handle{fs: fs, ino: n, proc: p, Path: name, base: base,
		rd: flag&syscall.O_WRONLY == 0, wr: wr,
		app: flag&syscall.O_APPEND != 0, osync: flag&syscall.O_SYNC == syscall.O_SYNC || flag&syscall.O_DSYNC != 0}
	h.fd = w.fdNext
	w.fdNext++
	w.fdTab[h.fd] = h
	p.handles[h] = true
	return h, nil
}

// maxFiles is how many files a process may have open.
const maxFiles = 256

func (n *Inode) size() int64 { return n.lead + int64(len(n.data)) }

// maxLeadRead is how much of the emptiness in sparse files may be read in a run.
const maxLeadRead = 64 << 20

// readAt copies what is in the file from off on.
func (n *Inode) readAt(b []byte, off int64) int {
	if n.lead == 0 {
		return copy(b, n.data[off:])
	}
	if m := n.size() - off; int64(len(b)) > m {
		b = b[:m]
	}
	at := int64(0)
	if off < n.lead {
		at = min(n.lead-off, int64(len(b)))
		if len(n.pat) == 0 {
			clear(b[:at])
		}
		for k := int64(0); len(n.pat) > 0 && k < at; {
			k += int64(copy(b[k:at], n.pat[(off+k)%int64(len(n.pat)):]))
		}
		for _, o := range n.low {
			for i, c := range o.data {
				if j := o.off + int64(i) - off; j >= 0 && j < at {
					b[j] = c
				}
			}
		}
	}
	if at < int64(len(b)) {
		copy(b[at:], n.data[off+at-n.lead:])
	}
	return len(b)
}

func (fs *FS) truncate(n *Inode, size int64) {
	if n.lead > 0 {
		if size -= n.lead; size < 0 {
			n.lead += size
			size = 0
		}
	}
	if size <= int64(len(n.data)) {
		if fs.track {
			n.data = append([]byte(nil), n.data[:size]...)
		} else {
			n.data = n.data[:size]
		}
	} else {
		n.data = append(n.data, make([]byte, size-int64(len(n.data)))...)
	}
	if fs.track {
		n.pend = append(n.pend, wop{off: size, trnc: true})
	}
}

func applyWrite(data []byte, off int64, b []byte) []byte {
	if off > int64(len(data)) {
		data = append(data, make([]byte, off-int64(len(data)))...)
	}
	n := copy(data[off:], b)
	return append(data, b[n:]...)
}

func (fs *FS) put(h *Handle, off int64, b []byte) {
	n := h.ino
	if len(b) == 0 {
		return
	}
	if n.lead > 0 {
		if m := n.lead - off; m > 0 {
			m = min(m, int64(len(b)))
			n.low = append(n.low, wop{off: off, data: append([]byte(nil), b[:m]...)})
			b, off = b[m:], off+m
			if len(b) == 0 {
				return
			}
		}
		off -= n.lead
	}
	n.data = applyWrite(n.data, off, b)
	n.mtime = fs.w.Clock
	fs.Bytes += int64(len(b))
	if fs.track {
		if k := len(n.pend) - 1; k >= 0 && !n.pend[k].trnc && n.pend[k].off+int64(len(n.pend[k].data)) == off && len(n.pend[k].data) < 1<<16 {
			n.pend[k].data = append(n.pend[k].data, b...)
		} else {
			n.pend = append(n.pend, wop{off: off, data: append([]byte(nil), b...)})
		}
		if h.osync {
			fs.syncFile(n)
		}
	}
}

func (fs *FS) syncFile(n *Inode) {
	if !fs.track {
		return
	}
	if n.dir {
		n.dsynced = make(map[string]*Inode, len(n.ents))
		for k, v := range n.ents {
			n.dsynced[k] = v
		}
		n.dpend = nil
		return
	}
	for _, o := range n.pend {
		n.synced = applyOp(n.synced, o, len(o.data))
	}
	n.pend = nil
}

func applyOp(data []byte, o wop, upto int) []byte {
	if o.trnc {
		if o.off <= int64(len(data)) {
			return data[:o.off:o.off]
		}
		return append(data, make([]byte, o.off-int64(len(data)))...)
	}
	return applyWrite(data, o.off, o.data[:upto])
}

func (h *Handle) bad() error {
	if h == nil || h.closed {
		return syscall.EBADF
	}
	return nil
}

func (h *Handle) write(kind int, off int64, b []byte) (int, error) {
	fs := h.fs
	f := fs.enter(kind, h, "", len(b))
	if err := h.bad(); err != nil {
		return 0, err
	}
	if !h.wr {
		return 0, syscall.EBADF
	}
	if h.app || off < 0 {
		if h.app {
			off = h.ino.size()
		} else {
			off = h.off
		}
	}
	n := len(b)
	if f != nil {
		n = len(b) * f.Arg / 1000
		if n >= len(b) && len(b) > 0 {
			n = len(b) - 1
		}
		if f.Kind == "eio" {
			n = 0
		}
	}
	fs.put(h, off, b[:n])
	if kind == KWrite {
		h.off = off + int64(n)
	}
	if f != nil {
		switch f.Kind {
		case "torn":
			fs.w.cur.proc.Kill()
		case "power-torn":
			fs.w.PowerLoss()
		}
		return n, f.errno()
	}
	return n, nil
}

// StdWrite writes to the standard output of the running process.
func (fs *FS) StdWrite(b []byte) (int, error) {
	f := fs.enter(KWrite, nil, "stdout", len(b))
	n := len(b)
	if f != nil {
		n = len(b) * f.Arg / 1000
		if n >= len(b) && len(b) > 0 {
			n = len(b) - 1
		}
		if f.Kind == "eio" {
			n = 0
		}
	}
	p := fs.w.cur.proc
	p.Stdout = append(p.Stdout, b[:n]...)
	if f != nil {
		switch f.Kind {
		case "torn":
			p.Kill()
		case "power-torn":
			fs.w.PowerLoss()
		}
		return n, f.errno()
	}
	return n, nil
}

func (h *Handle) Write(b []byte) (int, error)              { return h.write(KWrite, -1, b) }
func (h *Handle) WriteAt(b []byte, off int64) (int, error) { return h.write(KWriteAt, off, b) }

func (h *Handle) Read(b []byte) (int, error) {
	f := h.fs.enter(KRead, h, "", len(b))
	if err := h.bad(); err != nil {
		return 0, err
	}
	if h.ino.dir {
		return 0, syscall.EISDIR
	}
	if !h.rd {
		return 0, syscall.EBADF
	}
	if f != nil {
		return 0, f.errno()
	}
	if len(b) == 0 {
		return 0, nil
	}
	if h.off >= h.ino.size() {
		return 0, io.EOF
	}
	w := h.fs.w
	if pl := w.cur.proc.Plan; pl != nil && pl.Armed && pl.ShortReads > 0 && len(b) > 1 && w.frng.P(1, pl.ShortReads) {
		b = b[:1+w.frng.N(len(b)-1)]
		pl.Fired = append(pl.Fired, "short-read")
	}
	if h.off < h.ino.lead && len(h.ino.pat) == 0 {
		// what is before the data of a sparse file is nobody's to read
		if w.leadRead += len(b); w.leadRead > maxLeadRead && w.failure == nil {
			w.Fail("memory", fmt.Sprintf("a file of %d bytes is read whole", h.ino.size()))
		}
	}
	n := h.ino.readAt(b, h.off)
	h.off += int64(n)
	return n, nil
}

func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	f := h.fs.enter(KReadAt, h, "", len(b))
	if err := h.bad(); err != nil {
		return 0, err
	}
	if !h.rd {
		return 0, syscall.EBADF
	}
	if f != nil {
		return 0, f.errno()
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	if off >= h.ino.size() {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := h.ino.readAt(b, off)
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	h.fs.enter(KSeek, h, "", int(off))
	if err := h.bad(); err != nil {
		return 0, err
	}
	switch whence {
	case 0:
	case 1:
		off += h.off
	case 2:
		off += h.ino.size()
	}
	if off < 0 {
		return 0, syscall.EINVAL
	}
	h.off = off
	h.dirpos = 0
	return off, nil
}

func (h *Handle) Truncate(size int64) error {
	f := h.fs.enter(KTrunc, h, "", int(size))
	if err := h.bad(); err != nil {
		return err
	}
	if !h.wr || size < 0 {
		return syscall.EINVAL
	}
	if f != nil {
		if f.Kind == "torn" {
			h.fs.w.cur.proc.Kill()
		}
		return f.errno()
	}
	h.fs.truncate(h.ino, size)
	return nil
}

func (h *Handle) Sync() error {
	f := h.fs.enter(KSync, h, "", 0)
	if err := h.bad(); err != nil {
		return err
	}
	if f != nil {
		return f.errno()
	}
	h.fs.syncFile(h.ino)
	return nil
}

func (h *Handle) Fd() int { return h.fd }

func (h *Handle) Close() error {
	f := h.fs.enter(KClose, h, "", 0)
	if err := h.bad(); err != nil {
		return err
	}
	h.closed = true
	h.fs.unlock(h)
	delete(h.fs.w.fdTab, h.fd)
	delete(h.proc.handles, h)
	if f != nil && f.Kind != "torn" && f.Kind != "power-torn" {
		// the file is closed all the same
		return f.errno()
	}
	return nil
}

// Info describes a file.
type Info struct {
	Name  string
	Size  int64
	Dir   bool
	Mode  uint32
	Ino   int
	Mtime int64
}

func (n *Inode) info(name string) Info {
	return Info{Name: path.Base(name), Size: n.size(), Dir: n.dir, Mode: n.mode, Ino: n.id, Mtime: n.mtime}
}

func (h *Handle) Stat() (Info, error) {
	f := h.fs.enter(KStat, h, "", 0)
	if err := h.bad(); err != nil {
		return Info{}, err
	}
	if f != nil {
		return Info{}, f.errno()
	}
	return h.ino.info(h.Path), nil
}

func (fs *FS) Stat(name string) (Info, error) {
	abs := fs.w.cur.proc.abs(name)
	f := fs.enter(KStat, nil, classBase(abs), 0)
	if f != nil {
		return Info{}, f.errno()
	}
	if name == "" {
		return Info{}, syscall.ENOENT
	}
	n, e := fs.lookup(abs)
	if e != 0 {
		return Info{}, e
	}
	return n.info(name), nil
}

// Getwd says where the process is.
func (fs *FS) Getwd() (string, error) {
	if f := fs.enter(KStat, nil, "cwd", 0); f != nil {
		return "", f.errno()
	}
	return fs.w.cur.proc.Cwd, nil
}

func (fs *FS) Mkdir(name string, perm uint32) error {
	abs := fs.w.cur.proc.abs(name)
	if f := fs.enter(KMkdir, nil, classBase(abs), 0); f != nil {
		return f.errno()
	}
	if _, e := fs.lookup(abs); e == 0 {
		return syscall.EEXIST
	}
	d, b, e := fs.parent(abs)
	if e != 0 {
		return e
	}
	fs.dset(d, b, fs.newInode(true, perm))
	return nil
}

// Remove removes a file or an empty directory.
func (fs *FS) Remove(name string) error {
	abs := fs.w.cur.proc.abs(name)
	if f := fs.enter(KRemove, nil, classBase(abs), 0); f != nil {
		return f.errno()
	}
	n, e := fs.lookup(abs)
	if e != 0 {
		return e
	}
	if n.dir && len(n.ents) > 0 {
		return syscall.ENOTEMPTY
	}
	d, b, e := fs.parent(abs)
	if e != 0 {
		return e
	}
	fs.ddel(d, b)
	return nil
}

func (fs *FS) Rename(from, to string) error {
	p := fs.w.cur.proc
	a, b := p.abs(from), p.abs(to)
	if f := fs.enter(KRename, nil, classBase(b), 0); f != nil {
		return f.errno()
	}
	n, e := fs.lookup(a)
	if e != 0 {
		return e
	}
	d1, b1, e := fs.parent(a)
	if e != 0 {
		return e
	}
	d2, b2, e := fs.parent(b)
	if e != 0 {
		return e
	}
	if t := d2.ents[b2]; t != nil {
		if t == n {
			return nil
		}
		if t.dir && !n.dir {
			return syscall.EISDIR
		}
		if !t.dir && n.dir {
			return syscall.ENOTDIR
		}
		if t.dir && len(t.ents) > 0 {
			return syscall.ENOTEMPTY
		}
	}
	delete(d1.ents, b1)
	d2.ents[b2] = n
	if fs.track {
		if d1 == d2 {
			d1.dpend = append(d1.dpend, dop{set: b2, del: b1, ino: n})
		} else {
			d2.dpend = append(d2.dpend, dop{set: b2, ino: n})
			d1.dpend = append(d1.dpend, dop{del: b1})
		}
	}
	return nil
}

func (fs *FS) Link(from, to string) error {
	p := fs.w.cur.proc
	a, b := p.abs(from), p.abs(to)
	if f := fs.enter(KCreate, nil, classBase(b), 0); f != nil {
		return f.errno()
	}
	n, e := fs.lookup(a)
	if e != 0 {
		return e
	}
	if _, e := fs.lookup(b); e == 0 {
		return syscall.EEXIST
	}
	d, bb, e := fs.parent(b)
	if e != 0 {
		return e
	}
	fs.dset(d, bb, n)
	return nil
}

func (fs *FS) Chmod(name string, mode uint32) error {
	abs := fs.w.cur.proc.abs(name)
	if f := fs.enter(KStat, nil, classBase(abs), 1); f != nil {
		return f.errno()
	}
	n, e := fs.lookup(abs)
	if e != 0 {
		return e
	}
	n.mode = mode
	return nil
}

func (fs *FS) TruncatePath(name string, size int64) error {
	abs := fs.w.cur.proc.abs(name)
	if f := fs.enter(KTrunc, nil, classBase(abs), int(size)); f != nil {
		return f.errno()
	}
	n, e := fs.lookup(abs)
	if e != 0 {
		return e
	}
	fs.truncate(n, size)
	return nil
}

func (n *Inode) list() []Info {
	var out []Info
	for k, c := range n.ents {
		out = append(out, c.info(k))
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// ReadDir lists up to max (all if <= 0) further entries of an open directory.
func (h *Handle) ReadDir(max int) ([]Info, error) {
	f := h.fs.enter(KReadDir, h, "", max)
	if err := h.bad(); err != nil {
		return nil, err
	}
	if f != nil {
		return nil, f.errno()
	}
	if !h.ino.dir {
		return nil, syscall.ENOTDIR
	}
	l := h.ino.list()
	if h.dirpos > len(l) {
		h.dirpos = len(l)
	}
	l = l[h.dirpos:]
	if max > 0 && len(l) > max {
		l = l[:max]
	}
	h.dirpos += len(l)
	return l, nil
}

// Flock locks as flock(2) does: per open file, blocking unless LOCK_NB.
func (w *World) Flock(fd, how int) error {
	h := w.fdTab[fd]
	if h == nil {
		w.checkKilled()
		return syscall.EBADF
	}
	f := w.FS.enter(KFlock, h, "", how)
	if err := h.bad(); err != nil {
		return err
	}
	if f != nil {
		// one that fails to unlock still has the lock, until it is closed
		return f.errno()
	}
	n := h.ino
	nb := how&syscall.LOCK_NB != 0
	switch how &^ syscall.LOCK_NB {
	case syscall.LOCK_UN:
		w.FS.unlock(h)
	case syscall.LOCK_SH:
		if n.sh[h] {
			return nil
		}
		if n.ex == h {
			n.ex = nil
		}
		if n.ex != nil && nb {
			return syscall.EWOULDBLOCK
		}
		if n.ex != nil {
			w.Probe("flock-waited")
		}
		w.Block("flock(SH) "+h.Path, func() bool { return n.ex == nil })
		if n.sh == nil {
			n.sh = make(map[*Handle]bool)
		}
		n.sh[h] = true
	case syscall.LOCK_EX:
		if n.ex == h {
			return nil
		}
		delete(n.sh, h)
		if (n.ex != nil || len(n.sh) > 0) && nb {
			return syscall.EWOULDBLOCK
		}
		if n.ex != nil || len(n.sh) > 0 {
			w.Probe("flock-waited")
		}
		w.Block("flock(EX) "+h.Path, func() bool { return n.ex == nil && len(n.sh) == 0 })
		n.ex = h
	default:
		return syscall.EINVAL
	}
	return nil
}

func (fs *FS) unlock(h *Handle) {
	n := h.ino
	if n.ex == h {
		n.ex = nil
	}
	delete(n.sh, h)
}

// HandleOf returns the open file with descriptor fd.
func (w *World) HandleOf(fd int) *Handle { return w.fdTab[fd] }

// PowerLoss stops every process but the harness and reverts the file system
// to something a disk could hold: what was synced, plus an arbitrary part of
// what was not.
func (w *World) PowerLoss() {
	w.PowerLosses++
	w.logf("power loss")
	w.mix(4, 0, 0)
	for _, p := range w.procs {
		if p != w.harness {
			w.markDead(p)
		}
	}
	w.FS.lose()
	w.checkKilled()
}

func (fs *FS) lose() {
	if !fs.track {
		return
	}
	r := fs.w.frng
	mode := r.N(5) // 0 nothing unsynced survives, 1 everything, 2 prefixes, 3,4 arbitrary parts
	// all inodes ever reachable in durable or current state
	seen := map[*Inode]bool{}
	var all []*Inode
	var walk func(n *Inode)
	walk = func(n *Inode) {
		if seen[n] {
			return
		}
		seen[n] = true
		all = append(all, n)
		if !n.dir {
			return
		}
		for _, m := range []map[string]*Inode{n.dsynced, n.ents} {
			keys := make([]string, 0, len(m))
			for k := range m {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				walk(m[k])
			}
		}
		for _, o := range n.dpend {
			if o.ino != nil {
				walk(o.ino)
			}
		}
	}
	walk(fs.root)
	keep := func(i, n, prefix int) bool {
		switch mode {
		case 0:
			return false
		case 1:
			return true
		case 2:
			return i < prefix
		default:
			return r.P(1, 2)
		}
	}
	for _, n := range all {
		n.ex, n.sh = nil, nil
		if n.dir {
			px := r.N(len(n.dpend) + 1)
			for i, o := range n.dpend {
				if !keep(i, len(n.dpend), px) {
					continue
				}
				if o.del != "" && (o.set == "" || n.dsynced[o.del] == o.ino) {
					delete(n.dsynced, o.del)
				}
				if o.set != "" {
					n.dsynced[o.set] = o.ino
				}
			}
			n.ents = make(map[string]*Inode)
			for k, v := range n.dsynced {
				n.ents[k] = v
			}
			n.dpend = nil
			continue
		}
		px := r.N(len(n.pend) + 1)
		data := append([]byte(nil), n.synced...)
		for i, o := range n.pend {
			if !keep(i, len(n.pend), px) {
				continue
			}
			upto := len(o.data)
			if mode >= 2 && upto > 0 && r.P(1, 4) {
				upto = r.N(upto + 1)
			}
			if mode >= 3 && upto > 0 && r.P(1, 8) {
				// the size made it to disk, the data did not
				data = applyWrite(data, o.off, make([]byte, upto))
				continue
			}
			data = applyOp(data, o, upto)
		}
		n.data = data
		n.synced = append([]byte(nil), data...)
		n.pend = nil
	}
}

// SyncAll makes the present state durable (harness).
func (fs *FS) SyncAll() {
	if !fs.track {
		return
	}
	var walk func(n *Inode)
	walk = func(n *Inode) {
		fs.syncFile(n)
		for _, c := range n.ents {
			walk(c)
		}
	}
	walk(fs.root)
}

// Put writes a file directly (harness), making parent directories.
func (fs *FS) Put(name string, data []byte) {
	d := fs.MkAll(path.Dir(path.Clean(name)))
	b := path.Base(path.Clean(name))
	n := d.ents[b]
	if n == nil {
		n = fs.newInode(false, 0644)
		fs.dset(d, b, n)
	}
	fs.truncate(n, 0)
	h := &Handle{fs: fs, ino: n, wr: true}
	fs.put(h, 0, data)
}

// PutAt writes a file with so many zero bytes before its data (harness).
func (fs *FS) PutAt(name string, lead int64, data []byte) {
	fs.Put(name, data)
	n, _ := fs.lookup(path.Clean(name))
	n.lead, n.low = lead, nil
}

// PutMany writes a file with pat so many times before its data (harness).
func (fs *FS) PutMany(name string, pat []byte, times int, data []byte) {
	fs.PutAt(name, int64(len(pat))*int64(times), data)
	n, _ := fs.lookup(path.Clean(name))
	n.pat = pat
}

// Lead is how many bytes of a file are before what Get gives (harness).
func (fs *FS) Lead(name string) int64 {
	n, e := fs.lookup(path.Clean(name))
	if e != 0 {
		return 0
	}
	return n.lead
}

// MkAll makes a directory and its parents (harness).
func (fs *FS) MkAll(name string) *Inode {
	n := fs.root
	for _, s := range split(name) {
		c := n.ents[s]
		if c == nil {
			c = fs.newInode(true, 0755)
			fs.dset(n, s, c)
		}
		n = c
	}
	return n
}

// Get reads a file directly (harness).
func (fs *FS) Get(name string) ([]byte, bool) {
	n, e := fs.lookup(path.Clean(name))
	if e != 0 || n.dir {
		return nil, false
	}
	return append([]byte(nil), n.data...), true
}

// SetMode changes permission bits directly (harness).
func (fs *FS) SetMode(name string, mode uint32) {
	if n, e := fs.lookup(path.Clean(name)); e == 0 {
		n.mode = mode
	}
}

// Exists reports whether name exists (harness).
func (fs *FS) Exists(name string) bool { _, e := fs.lookup(path.Clean(name)); return e == 0 }

// Tree lists every file below name with its contents (harness).
func (fs *FS) Tree(name string) map[string]string {
	m := make(map[string]string)
	n, e := fs.lookup(path.Clean(name))
	if e != 0 {
		return m
	}
	var walk func(p string, n *Inode)
	walk = func(p string, n *Inode) {
		if !n.dir {
			m[p] = string(n.data)
			return
		}
		m[p+"/"] = ""
		for k, c := range n.ents {
			walk(p+"/"+k, c)
		}
	}
	walk(strings.TrimSuffix(path.Clean(name), "/"), n)
	return m
}

// CopyTree copies a directory (harness).
func (fs *FS) CopyTree(from, to string) {
	n, e := fs.lookup(path.Clean(from))
	if e != 0 {
		return
	}
	var walk func(n *Inode, p string)
	walk = func(n *Inode, p string) {
		if !n.dir {
			fs.Put(p, n.data)
			return
		}
		fs.MkAll(p)
		keys := make([]string, 0, len(n.ents))
		for k := range n.ents {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			walk(n.ents[k], p+"/"+k)
		}
	}
	walk(n, path.Clean(to))
}

// Move renames directly (harness).
func (fs *FS) Move(from, to string) bool {
	d1, b1, e := fs.parent(path.Clean(from))
	if e != 0 || d1.ents[b1] == nil {
		return false
	}
	d2, b2, e := fs.parent(path.Clean(to))
	if e != 0 || d2.ents[b2] != nil {
		return false
	}
	n := d1.ents[b1]
	fs.ddel(d1, b1)
	fs.dset(d2, b2, n)
	return true
}

// Delete removes a tree directly (harness).
func (fs *FS) Delete(name string) {
	d, b, e := fs.parent(path.Clean(name))
	if e == 0 && d.ents[b] != nil {
		fs.ddel(d, b)
	}
}

// Snapshot returns a deep copy of the tree, to start other worlds from. Locks
// and unsynced state are not part of it.
func (fs *FS) Snapshot() *Inode { return fs.root.Clone() }

func (n *Inode) Clone() *Inode {
	c := &Inode{lead: n.lead, pat: n.pat, low: n.low, id: n.id, dir: n.dir, mode: n.mode, mtime: n.mtime}
	if n.dir {
		c.ents = make(map[string]*Inode, len(n.ents))
		c.dsynced = make(map[string]*Inode, len(n.ents))
		for k, v := range n.ents {
			x := v.Clone()
			c.ents[k] = x
			c.dsynced[k] = x
		}
		return c
	}
	c.data = append([]byte(nil), n.data...)
	c.synced = append([]byte(nil), n.data...)
	return c
}

// Restore starts this file system from a snapshot.
func (fs *FS) Restore(n *Inode) {
	fs.root = n.Clone()
	if fs.nextIno < 100000 {
		fs.nextIno = 100000
	}
}

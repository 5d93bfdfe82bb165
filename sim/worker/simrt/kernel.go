package simrt

import (
	"runtime"
	"syscall"
	"unsafe"
)

// The simulated kernel: an in-memory file system behind the system calls, with
// fault injection and process death. Standard output and error of a thread are
// collected per operation.

const (
	clOpen = iota
	clRead
	clWrite
	clClose
	clStat
	clSync
	clRename
	clUnlink
	clTrunc
	clSeek
	clMkdir
	clOut
	clOther
	nClass
)

var className = [nClass]string{"open", "read", "write", "close", "stat", "sync", "rename", "unlink", "trunc", "seek", "mkdir", "out", "other"}

// variants of a fault
const (
	VErr   = iota // the call fails with errno E
	VShort        // it transfers at most A bytes
	VEof          // a read returns end of file
	VPart         // a write transfers at most A bytes, the next one fails with E
	VLost         // close fails with E and the last A bytes written are lost
)

var variantName = [...]string{"err", "short", "eof", "part", "lost"}

type FaultKind struct {
	Class, Variant int
	E              int
}

type Fault struct {
	T, Op, N int
	FaultKind
	A int
	P bool
}

func (k FaultKind) Name() string { return className[k.Class] + ":" + variantName[k.Variant] }

// ParseKind understands "class:variant".
func ParseKind(s string) (k FaultKind, ok bool) {
	for i := 0; i < len(s); i++ {
		if s[i] == ':' {
			for c, n := range className {
				if n == s[:i] {
					for v, m := range variantName {
						if m == s[i+1:] {
							return FaultKind{c, v, 0}, true
						}
					}
				}
			}
		}
	}
	return
}

type inode struct {
	path  string
	data  []byte
	dir   bool
	links int // 1: has a name
	opens int
	mtime int64
	ino   uint64
	kind  int
}

// Kinds of files that are read like regular ones, but whose size is told as 0.
const (
	Fifo = 1 // a pipe
	Proc = 2 // a file made up when it is read
)

type fdesc struct {
	used   bool
	n      *inode
	off    int64
	flags  int
	t, op  int
	wrote  int64 // bytes written through it
	dirPos int
	// a duplicate shares what another one (counted from 1) says; refs counts
	// the descriptors that share this one's
	to, refs int
}

const fdBase = 1 << 20

var (
	inodes     []*inode
	fds        []fdesc
	inoSeq     uint64
	sysN       int
	capLeft    int64
	capHits    int
	nHard      int
	fired      [nClass][len(variantName)]int
	firedEintr int
	firedShort [nClass]int
	realised   []Fault
	nReal      int
	trace      []byte
	unknown    []int
	nUnknown   int
)

func setupKernel() {
	inodes = make([]*inode, 0, 4096)
	fds = make([]fdesc, 4096)
	realised = make([]Fault, 8192)
	unknown = make([]int, 64)
	std = [3]int{}
	nReal, nUnknown, sysN, capHits, nHard = 0, 0, 0, 0, 0
	capLeft = cfg.Cap
	for _, d := range []string{"/", "/cwd", "/tmp", "/sim", "/var", "/var/tmp"} {
		addInode(d, true)
	}
}

func addInode(p string, dir bool) *inode {
	inoSeq++
	n := &inode{path: p, dir: dir, links: 1, ino: inoSeq, mtime: now()}
	for i, x := range inodes { // reuse a dead slot
		if x.links == 0 && x.opens == 0 {
			inodes[i] = n
			return n
		}
	}
	k := len(inodes)
	if k == cap(inodes) {
		panic("simrt: too many files")
	}
	inodes = inodes[:k+1]
	inodes[k] = n
	return n
}

// AddFile and AddDir build the disk before the run.
func AddFile(p string, data []byte, kind int) {
	d := make([]byte, len(data))
	copy(d, data)
	p = clean(p)
	mkdirs(dirOf(p))
	if n := lookup(p); n != nil {
		n.data, n.kind = d, kind
		return
	}
	n := addInode(p, false)
	n.data, n.kind = d, kind
	n.mtime = now()
}

// Put replaces a file between two calls, as another program would. keep: with
// the modification time it had; fresh: by a new file.
func Put(p string, data []byte, keep, fresh bool) {
	p = clean(p)
	n := lookup(p)
	t := now()
	if n != nil && keep {
		t = n.mtime
	}
	if n != nil && fresh {
		n.links = 0
	}
	d := make([]byte, len(data))
	copy(d, data)
	if n == nil || fresh {
		mkdirs(dirOf(p))
		n = addInode(p, false)
	}
	n.data, n.mtime = d, t
}

// Remove removes a file between two calls.
func Remove(p string) {
	if n := lookup(clean(p)); n != nil && !n.dir {
		n.links = 0
	}
}

// now is the simulated time in units of the kernel's clock tick.
func now() int64 {
	t := cfg.Clock + passed() + wallOff
	return t - t%4e6
}

func AddDir(p string) {
	mkdirs(clean(p))
}

func mkdirs(p string) {
	if p == "/" || p == "" || lookup(p) != nil {
		return
	}
	mkdirs(dirOf(p))
	addInode(p, true)
}

type FileInfo struct {
	Path string
	Data []byte
	Dir  bool
}

// Files returns the disk.
func Files() []FileInfo {
	var out []FileInfo
	for _, n := range inodes {
		if n.links > 0 {
			out = append(out, FileInfo{n.path, n.data, n.dir})
		}
	}
	return out
}

// Content returns a copy of the content of the file at p.
func Content(p string) ([]byte, bool) {
	n := lookup(cleanIn("/cwd", p)) // wherever the process went
	if n == nil || n.dir {
		return nil, false
	}
	d := make([]byte, len(n.data))
	copy(d, n.data)
	return d, true
}

// OpenFiles lists files operation op of thread t (any, if t<0) left open.
func OpenFiles(t, op int) []string {
	var out []string
	for i := range fds {
		if fds[i].used && (t < 0 || fds[i].t == t && fds[i].op == op) {
			out = append(out, fds[i].n.path)
		}
	}
	return out
}

func lookup(p string) *inode {
	for _, n := range inodes {
		if n.links > 0 && n.path == p {
			return n
		}
	}
	return nil
}

// missing is the error of a path that names nothing.
func missing(p string) int {
	miss(p)
	if len(baseOf(p)) > 255 {
		return int(syscall.ENAMETOOLONG)
	}
	for d := dirOf(p); d != "/"; d = dirOf(d) {
		if n := lookup(d); n != nil && !n.dir {
			return int(syscall.ENOTDIR)
		}
	}
	return int(syscall.ENOENT)
}

func dirOf(p string) string {
	for i := len(p) - 1; i > 0; i-- {
		if p[i] == '/' {
			return p[:i]
		}
	}
	return "/"
}

func baseOf(p string) string {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i] == '/' {
			return p[i+1:]
		}
	}
	return p
}

// cwd is the working directory of the process.
var cwd = "/cwd"

// clean makes a path absolute and removes ".", ".." and repeated slashes.
func clean(p string) string { return cleanIn(cwd, p) }

func cleanIn(dir, p string) string {
	if len(p) == 0 || p[0] != '/' {
		p = dir + "/" + p
	}
	out := make([]byte, 0, len(p)+1)
	i := 0
	for i < len(p) {
		for i < len(p) && p[i] == '/' {
			i++
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		e := p[i:j]
		i = j
		switch e {
		case "", ".":
		case "..":
			for len(out) > 0 {
				c := out[len(out)-1]
				out = out[:len(out)-1]
				if c == '/' {
					break
				}
			}
		default:
			out = append(out, '/')
			out = append(out, e...)
		}
	}
	if len(out) == 0 {
		return "/"
	}
	return unsafe.String(&out[0], len(out))
}

func under(p, dir string) bool {
	return len(p) > len(dir) && p[:len(dir)] == dir && (dir == "/" || p[len(dir)] == '/')
}

func cstr(p uintptr) string {
	n := 0
	for *(*byte)(unsafe.Pointer(p + uintptr(n))) != 0 {
		n++
	}
	if n == 0 {
		return ""
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = *(*byte)(unsafe.Pointer(p + uintptr(i)))
	}
	return unsafe.String(&b[0], n)
}

func mem(p uintptr, n int) []byte {
	if n <= 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), n)
}

// pathAt resolves a path relative to a directory descriptor.
func pathAt(dirfd int, p string) string {
	if len(p) > 0 && p[0] == '/' || int32(dirfd) == -100 {
		return clean(p)
	}
	if f := getfd(dirfd); f != nil {
		return clean(f.n.path + "/" + p)
	}
	return clean(p)
}

// std says what the descriptors 1 and 2 are: standard output and error (0),
// closed (-1), or a file that was opened after they were closed (its index in
// fds plus 1).
var std [3]int

func isOut(fd int) bool { return (fd == 1 || fd == 2) && std[fd] == 0 }

func getfd(fd int) *fdesc {
	i := fd - fdBase
	if (fd == 1 || fd == 2) && std[fd] > 0 {
		i = std[fd] - 1
	}
	if i < 0 || i >= len(fds) || !fds[i].used {
		return nil
	}
	if k := fds[i].to; k > 0 {
		return &fds[k-1]
	}
	return &fds[i]
}

// slot is the entry of a descriptor for which there is one.
func slot(fd int) *fdesc {
	if (fd == 1 || fd == 2) && std[fd] > 0 {
		return &fds[std[fd]-1]
	}
	return &fds[fd-fdBase]
}

// dup duplicates a descriptor for a thread.
func dup(t *thread, fd int) (int, int) {
	f := getfd(fd)
	if f == nil {
		return -1, int(syscall.EBADF)
	}
	for i := range fds {
		if !fds[i].used && fds[i].refs == 0 {
			for k := range fds {
				if &fds[k] == f {
					fds[i] = fdesc{used: true, n: f.n, t: t.root().idx, op: t.op, to: k + 1}
				}
			}
			if t.dynamic {
				fds[i].op = t.bornOp
			}
			f.refs++
			f.n.opens++
			return fdBase + i, 0
		}
	}
	return -1, int(syscall.EMFILE)
}

type call struct {
	trap  uintptr
	class int
	fd    int
	n     int // bytes wanted
	path  string
}

func classify(trap, a1, a2, a3 uintptr) (c call) {
	c.trap, c.class, c.fd = trap, clOther, -1
	switch trap {
	case syscall.SYS_OPENAT:
		c.class, c.path = clOpen, pathAt(int(a1), cstr(a2))
	case syscall.SYS_LINK:
		c.path = clean(cstr(a1))
	case syscall.SYS_OPEN, syscall.SYS_CREAT:
		c.class, c.path = clOpen, clean(cstr(a1))
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		c.class, c.fd, c.n = clRead, int(a1), int(a3)
	case syscall.SYS_GETDENTS64:
		c.class, c.fd = clOther, int(a1)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		c.class, c.fd, c.n = clWrite, int(a1), int(a3)
		if (c.fd == 1 || c.fd == 2) && std[c.fd] <= 0 {
			c.class = clOut
		}
	case syscall.SYS_CLOSE:
		c.class, c.fd = clClose, int(a1)
	case syscall.SYS_FSTAT:
		c.class, c.fd = clStat, int(a1)
	case syscall.SYS_NEWFSTATAT:
		c.class, c.path = clStat, pathAt(int(a1), cstr(a2))
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		c.class, c.path = clStat, clean(cstr(a1))
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		c.class, c.fd = clSync, int(a1)
	case syscall.SYS_RENAME:
		c.class, c.path = clRename, clean(cstr(a1))
	case syscall.SYS_RENAMEAT, sysRenameat2:
		c.class, c.path = clRename, pathAt(int(a1), cstr(a2))
	case syscall.SYS_UNLINK, syscall.SYS_RMDIR:
		c.class, c.path = clUnlink, clean(cstr(a1))
	case syscall.SYS_UNLINKAT:
		c.class, c.path = clUnlink, pathAt(int(a1), cstr(a2))
	case syscall.SYS_FTRUNCATE:
		c.class, c.fd = clTrunc, int(a1)
	case syscall.SYS_TRUNCATE:
		c.class, c.path = clTrunc, clean(cstr(a1))
	case syscall.SYS_LSEEK:
		c.class, c.fd = clSeek, int(a1)
	case syscall.SYS_MKDIR:
		c.class, c.path = clMkdir, clean(cstr(a1))
	case syscall.SYS_MKDIRAT:
		c.class, c.path = clMkdir, pathAt(int(a1), cstr(a2))
	}
	return
}

const sysRenameat2 = 316

// hook receives every system call of the process while the simulation is on.
func hook(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, e syscall.Errno, ok bool) {
	if !on {
		over()
		return
	}
	g := runtime.SimG()
	t := cur
	if t == nil || t.g != g {
		t = current(g)
		if t == nil {
			return
		}
	}
	c := classify(trap, a1, a2, a3)
	sysYield(t)
	o := t.account()
	n := o.sysN
	o.sysN++
	gsys := sysN
	sysN++
	if int64(o.sysN) > cfg.SysLimit {
		end("syscalls", t.root())
	}
	kill := gsys == cfg.KillSys
	if kill && cfg.KillMode == 0 {
		tr(o, c, "KILLED before", 0, 0)
		end("kill", t.root())
	}
	f, have := decideFault(o, n, c)
	if kill && cfg.KillMode == 1 {
		if (c.class == clWrite) && c.n > 0 {
			m := cfg.KillA
			if m >= c.n {
				m = c.n - 1
			}
			if trap == syscall.SYS_WRITE {
				exec(o, c, trap, a1, a2, uintptr(m), a4, a5, a6)
			} else {
				exec(o, c, trap, a1, a2, uintptr(m), a4, a5, a6)
			}
			tr(o, c, "KILLED after bytes", m, 0)
		} else {
			tr(o, c, "KILLED before", 0, 0)
		}
		end("kill", t.root())
	}
	if jump(o.idx, o.op, n) {
		timePassed(t)
	}
	var r int
	var err int
	if have {
		r, err = execFault(o, c, f, trap, a1, a2, a3, a4, a5, a6)
	} else {
		r, err = exec(o, c, trap, a1, a2, a3, a4, a5, a6)
	}
	if cfg.Trace {
		s := ""
		if have {
			s = f.Name()
		}
		tr(o, c, s, r, err)
	}
	if kill && cfg.KillMode == 2 {
		tr(o, c, "KILLED after", 0, 0)
		end("kill", t.root())
	}
	sysYield(t)
	if err != 0 {
		return ^uintptr(0), 0, syscall.Errno(err), true
	}
	return uintptr(r), 0, 0, true
}

// sysYield is the yield point before and after a system call.
func sysYield(t *thread) {
	t.y++
	yields++
	runtime.SimNano += 100
	if cfg.Explicit {
		if t.y == t.nextY {
			d := t.decs[t.decPos]
			t.decPos++
			seekDec(t)
			switchTo(t, d.To, t.y)
		}
		return
	}
	if len(threads) > 1 && cfg.PSys > 0 && nDec < cfg.MaxSwap && uint32(next(&rs)&0xffff) < cfg.PSys {
		preempt(t, t.y)
	}
}

// timePassed lets what waits for that time to pass go on during the call.
func timePassed(t *thread) {
	runtime.Gosched()
	runtime.Gosched()
	t.y++
	if cfg.Explicit {
		if t.y == t.nextY {
			d := t.decs[t.decPos]
			t.decPos++
			seekDec(t)
			switchTo(t, d.To, t.y)
		}
	} else if len(threads) > 1 && next(&rs)&1 == 0 {
		preempt(t, t.y)
	}
}

func faultable(t *thread, c call) bool {
	if c.class == clOther || t.dynamic {
		return false
	}
	if c.fd >= 0 && c.class != clOut && getfd(c.fd) == nil {
		return false
	}
	if cfg.FOps != nil {
		for _, o := range cfg.FOps {
			if o == t.op {
				return true
			}
		}
		return false
	}
	return true
}

func decideFault(t *thread, n int, c call) (f Fault, have bool) {
	if t.persist[c.class] != 0 {
		f = Fault{T: t.idx, Op: t.op, N: n, FaultKind: FaultKind{c.class, VErr, t.persist[c.class]}}
		fired[c.class][VErr]++
		return f, true // not recorded: it follows from the fault that persists
	}
	if t.partErr[c.class] != 0 {
		f = Fault{T: t.idx, Op: t.op, N: n, FaultKind: FaultKind{c.class, VErr, t.partErr[c.class]}}
		t.partErr[c.class] = 0
		fired[c.class][VErr]++
		return f, true
	}
	if cfg.Explicit {
		for _, x := range t.faults {
			if x.Op == t.op && x.N == n && x.Class == c.class {
				f, have = x, true
				break
			}
		}
	} else if faultable(t, c) {
		f, have = draw(t, n, c)
	}
	if !have {
		return
	}
	if nReal < len(realised) {
		realised[nReal] = f
		nReal++
	}
	fired[f.Class][f.Variant]++
	if f.Variant == VErr && f.E == int(syscall.EINTR) {
		firedEintr++
	}
	if f.P && f.Variant != VLost {
		t.persist[f.Class] = f.E
	}
	return
}

func chance(p uint32) bool { return p > 0 && uint32(next(&fs)&0xffff) < p }

func draw(t *thread, n int, c call) (f Fault, have bool) {
	f = Fault{T: t.idx, Op: t.op, N: n}
	f.Class = c.class
	if nHard < cfg.FMax && chance(cfg.FP) {
		k := 0
		for _, x := range cfg.FKinds {
			if x.Class == c.class {
				k++
			}
		}
		if k > 0 {
			k = int(next(&fs) % uint64(k))
			for _, x := range cfg.FKinds {
				if x.Class == c.class {
					if k == 0 {
						f.FaultKind = x
						break
					}
					k--
				}
			}
			switch f.Variant {
			case VShort, VPart:
				f.A = shortLen(c.n)
			case VLost:
				f.A = 1 + int(next(&fs)%4096)
			}
			f.P = f.Variant == VErr && chance(cfg.FPers)
			nHard++
			return f, true
		}
	}
	switch c.class {
	case clRead, clWrite, clOut, clOpen:
		if c.class != clOut && chance(cfg.FEintr) {
			f.Variant, f.E = VErr, int(syscall.EINTR)
			return f, true
		}
		if c.class != clOpen && c.n > 1 && chance(cfg.FShort) {
			f.Variant, f.A = VShort, shortLen(c.n)
			return f, true
		}
	}
	return f, false
}

func shortLen(n int) int {
	if n <= 1 {
		return 1
	}
	hi := n - 1
	if cfg.MaxLen > 0 && cfg.MaxLen < hi {
		hi = cfg.MaxLen
	}
	lo := cfg.MinLen
	if lo < 1 {
		lo = 1
	}
	if lo > hi {
		lo = hi
	}
	switch next(&fs) % 4 {
	case 0:
		return lo
	case 1:
		return hi
	}
	return lo + int(next(&fs)%uint64(hi-lo+1))
}

func execFault(t *thread, c call, f Fault, trap, a1, a2, a3, a4, a5, a6 uintptr) (int, int) {
	switch f.Variant {
	case VErr:
		if c.class == clClose {
			exec(t, c, trap, a1, a2, a3, a4, a5, a6) // Linux frees the descriptor
		}
		return -1, f.E
	case VEof:
		return 0, 0
	case VShort, VPart:
		m := f.A
		if m > c.n {
			m = c.n
		}
		if m < 1 {
			m = 1
		}
		if c.n == 0 {
			m = 0
		}
		if f.Variant == VPart {
			t.partErr[c.class] = f.E
		}
		return exec(t, c, trap, a1, a2, uintptr(m), a4, a5, a6)
	case VLost:
		if d := getfd(c.fd); d != nil && d.wrote > 0 {
			k := int64(f.A)
			if k > d.wrote {
				k = d.wrote
			}
			if k > int64(len(d.n.data)) {
				k = int64(len(d.n.data))
			}
			d.n.data = d.n.data[:int64(len(d.n.data))-k]
		}
		exec(t, c, trap, a1, a2, a3, a4, a5, a6)
		return -1, f.E
	}
	return -1, int(syscall.EIO)
}

func exec(t *thread, c call, trap, a1, a2, a3, a4, a5, a6 uintptr) (int, int) {
	switch trap {
	case syscall.SYS_OPENAT:
		return open(t, c.path, int(a3))
	case syscall.SYS_OPEN:
		return open(t, c.path, int(a2))
	case syscall.SYS_CREAT:
		return open(t, c.path, syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC)
	case syscall.SYS_CLOSE:
		if isOut(int(a1)) {
			std[a1] = -1
			return 0, 0
		}
		f := getfd(int(a1))
		if f == nil {
			return -1, int(syscall.EBADF)
		}
		f.n.opens--
		f.refs--
		s := slot(int(a1))
		s.used, s.to = false, 0
		if a1 <= 2 {
			std[a1] = -1
		}
		return 0, 0
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		if int(a1) == 0 {
			return 0, 0
		}
		f := getfd(int(a1))
		if f == nil || f.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return -1, int(syscall.EBADF)
		}
		if f.n.dir {
			return -1, int(syscall.EISDIR)
		}
		off := f.off
		if trap == syscall.SYS_PREAD64 {
			if f.n.kind == Fifo {
				return -1, int(syscall.ESPIPE)
			}
			off = int64(a4)
		}
		if off >= int64(len(f.n.data)) {
			return 0, 0
		}
		n := copy(mem(a2, int(a3)), f.n.data[off:])
		if trap == syscall.SYS_READ {
			f.off += int64(n)
		}
		return n, 0
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if isOut(int(a1)) {
			buf := &t.out
			if a1 == 2 {
				buf = &t.err
			}
			grow(buf, mem(a2, int(a3)))
			return int(a3), 0
		}
		f := getfd(int(a1))
		if f == nil || f.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return -1, int(syscall.EBADF)
		}
		if trap == syscall.SYS_PWRITE64 {
			n, e := writeAt(f.n, int64(a4), mem(a2, int(a3)))
			if n > 0 {
				f.wrote += int64(n)
			}
			return n, e
		}
		if f.flags&syscall.O_APPEND != 0 {
			f.off = int64(len(f.n.data))
		}
		n, e := writeAt(f.n, f.off, mem(a2, int(a3)))
		if n > 0 {
			f.off += int64(n)
			f.wrote += int64(n)
		}
		return n, e
	case syscall.SYS_LSEEK:
		if isOut(int(a1)) {
			return -1, int(syscall.ESPIPE)
		}
		f := getfd(int(a1))
		if f == nil {
			return -1, int(syscall.EBADF)
		}
		p := int64(a2)
		switch int(a3) {
		case 1:
			p += f.off
		case 2:
			p += int64(len(f.n.data))
		}
		if f.n.kind == Fifo {
			return -1, int(syscall.ESPIPE)
		}
		if p < 0 {
			return -1, int(syscall.EINVAL)
		}
		f.off = p
		f.dirPos = 0
		return int(p), 0
	case syscall.SYS_FSTAT:
		if fd := int(a1); fd == 0 || isOut(fd) {
			if fd != 0 && t.persist[clOut] == int(syscall.EBADF) {
				return -1, int(syscall.EBADF)
			}
			st := (*syscall.Stat_t)(unsafe.Pointer(a2))
			*st = syscall.Stat_t{}
			st.Dev, st.Ino, st.Nlink, st.Mode, st.Blksize = 2, uint64(3+fd), 1, syscall.S_IFIFO|0600, 4096
			if fd == 0 {
				st.Mode, st.Rdev = syscall.S_IFCHR|0666, 0x103
			}
			return 0, 0
		}
		f := getfd(int(a1))
		if f == nil {
			return -1, int(syscall.EBADF)
		}
		return stat(f.n, a2)
	case syscall.SYS_NEWFSTATAT:
		if f := getfd(int(a1)); f != nil && a4&0x1000 != 0 && cstr(a2) == "" {
			return stat(f.n, a3)
		}
		return statPath(c.path, a3)
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		return statPath(c.path, a2)
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_FLOCK, syscall.SYS_FCHMOD, syscall.SYS_FCHOWN, syscall.SYS_FADVISE64:
		if isOut(int(a1)) {
			return -1, int(syscall.EINVAL)
		}
		if getfd(int(a1)) == nil {
			return -1, int(syscall.EBADF)
		}
		return 0, 0
	case syscall.SYS_FTRUNCATE:
		f := getfd(int(a1))
		if f == nil {
			return -1, int(syscall.EBADF)
		}
		return truncate(f.n, int64(a2))
	case syscall.SYS_TRUNCATE:
		n := lookup(c.path)
		if n == nil {
			return -1, missing(c.path)
		}
		return truncate(n, int64(a2))
	case syscall.SYS_FALLOCATE:
		f := getfd(int(a1))
		if f == nil {
			return -1, int(syscall.EBADF)
		}
		if a2 == 0 && int64(a3+a4) > int64(len(f.n.data)) {
			return truncate(f.n, int64(a3+a4))
		}
		return -1, int(syscall.EOPNOTSUPP)
	case syscall.SYS_RENAME:
		return rename(c.path, clean(cstr(a2)))
	case syscall.SYS_RENAMEAT, sysRenameat2:
		return rename(c.path, pathAt(int(a3), cstr(a4)))
	case syscall.SYS_LINK:
		return link(c.path, clean(cstr(a2)))
	case syscall.SYS_LINKAT:
		return link(pathAt(int(a1), cstr(a2)), pathAt(int(a3), cstr(a4)))
	case syscall.SYS_CHDIR, syscall.SYS_FCHDIR:
		p := clean(cwd)
		if trap == syscall.SYS_CHDIR {
			p = clean(cstr(a1))
		} else if f := getfd(int(a1)); f != nil {
			p = f.n.path
		} else {
			return -1, int(syscall.EBADF)
		}
		n := lookup(p)
		if n == nil {
			return -1, missing(p)
		}
		if !n.dir {
			return -1, int(syscall.ENOTDIR)
		}
		cwd = p
		return 0, 0
	case syscall.SYS_UMASK:
		return 022, 0
	case syscall.SYS_SYNC:
		return 0, 0
	case syscall.SYS_UNLINK:
		return unlink(c.path, false)
	case syscall.SYS_RMDIR:
		return unlink(c.path, true)
	case syscall.SYS_UNLINKAT:
		return unlink(c.path, a3&0x200 != 0)
	case syscall.SYS_MKDIR, syscall.SYS_MKDIRAT:
		if lookup(c.path) != nil {
			return -1, int(syscall.EEXIST)
		}
		if d := lookup(dirOf(c.path)); d == nil {
			return -1, int(syscall.ENOENT)
		} else if !d.dir {
			return -1, int(syscall.ENOTDIR)
		}
		addInode(c.path, true)
		return 0, 0
	case syscall.SYS_CHMOD, syscall.SYS_CHOWN, syscall.SYS_ACCESS:
		if p := clean(cstr(a1)); lookup(p) == nil {
			miss(p)
			return -1, int(syscall.ENOENT)
		}
		return 0, 0
	case syscall.SYS_FCHMODAT, syscall.SYS_FACCESSAT, syscall.SYS_UTIMENSAT:
		if p := pathAt(int(a1), cstr(a2)); lookup(p) == nil {
			miss(p)
			return -1, int(syscall.ENOENT)
		}
		return 0, 0
	case syscall.SYS_READLINK, syscall.SYS_READLINKAT:
		return -1, int(syscall.EINVAL)
	case syscall.SYS_GETDENTS64:
		return getdents(int(a1), mem(a2, int(a3)))
	case syscall.SYS_GETCWD:
		return copy(mem(a1, int(a2)), cwd+"\x00"), 0
	case syscall.SYS_DUP:
		if isOut(int(a1)) {
			return -1, int(syscall.EMFILE)
		}
		return dup(t, int(a1))
	case syscall.SYS_FCNTL:
		if isOut(int(a1)) {
			return 1, 0
		}
		f := getfd(int(a1))
		if f == nil {
			return -1, int(syscall.EBADF)
		}
		switch int(a2) {
		case syscall.F_GETFL:
			return f.flags, 0
		case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
			return dup(t, int(a1))
		}
		return 0, 0
	case syscall.SYS_IOCTL:
		return -1, int(syscall.ENOTTY)
	case 318: // getrandom
		b := mem(a1, int(a2))
		for i := range b {
			b[i] = byte(next(&fs))
		}
		return len(b), 0
	case syscall.SYS_MMAP, syscall.SYS_EPOLL_CTL, 326, syscall.SYS_SENDFILE, 275, 332, 439, 437:
		return -1, int(syscall.ENOSYS)
	}
	if nUnknown < len(unknown) {
		unknown[nUnknown] = int(trap)
		nUnknown++
	}
	return -1, int(syscall.ENOSYS)
}

func grow(buf *[]byte, b []byte) {
	o := *buf
	if len(o)+len(b) > cap(o) {
		x := make([]byte, len(o), 2*cap(o)+len(b))
		copy(x, o)
		o = x
	}
	n := len(o)
	o = o[:n+len(b)]
	copy(o[n:], b)
	*buf = o
}

// Touched are the names the code under test asked to create, open for
// writing, rename or remove.
var Touched []string

func touch(p string) {
	for _, x := range Touched {
		if x == p {
			return
		}
	}
	if len(Touched) < 256 {
		Touched = append(Touched, p)
	}
}

// Missed are the names the code under test looked for in vain.
var Missed []string

func miss(p string) {
	for _, x := range Missed {
		if x == p {
			return
		}
	}
	if len(Missed) < 64 {
		Missed = append(Missed, p)
	}
}

func open(t *thread, p string, flags int) (int, int) {
	n := lookup(p)
	if flags&(syscall.O_CREAT|syscall.O_TRUNC) != 0 || flags&syscall.O_ACCMODE != syscall.O_RDONLY {
		touch(p)
	}
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return -1, missing(p)
		}
		d := lookup(dirOf(p))
		if d == nil || len(baseOf(p)) > 255 {
			return -1, missing(p)
		}
		if !d.dir {
			return -1, int(syscall.ENOTDIR)
		}
		n = addInode(p, false)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, int(syscall.EEXIST)
		}
		if n.dir && flags&syscall.O_ACCMODE != syscall.O_RDONLY {
			return -1, int(syscall.EISDIR)
		}
		if !n.dir && flags&syscall.O_DIRECTORY != 0 {
			return -1, int(syscall.ENOTDIR)
		}
		if flags&syscall.O_TRUNC != 0 && !n.dir && flags&syscall.O_ACCMODE != syscall.O_RDONLY {
			truncate(n, 0)
		}
	}
	for i := range fds {
		if !fds[i].used && fds[i].refs == 0 {
			op := t.op
			if t.dynamic {
				op = t.bornOp
			}
			fds[i] = fdesc{used: true, n: n, flags: flags, t: t.root().idx, op: op, refs: 1}
			n.opens++
			for k := 1; k <= 2; k++ { // the lowest one
				if std[k] < 0 {
					std[k] = i + 1
					return k, 0
				}
			}
			return fdBase + i, 0
		}
	}
	return -1, int(syscall.EMFILE)
}

func writeAt(n *inode, off int64, b []byte) (int, int) {
	if len(b) == 0 {
		return 0, 0
	}
	end := off + int64(len(b))
	if g := end - int64(len(n.data)); g > 0 && capLeft >= 0 {
		if g > capLeft {
			capHits++
			if off > int64(len(n.data))+capLeft {
				return -1, cfg.CapErrno
			}
			end = int64(len(n.data)) + capLeft
			if end <= off {
				return -1, cfg.CapErrno
			}
			b = b[:end-off]
			g = end - int64(len(n.data))
		}
		capLeft -= g
	}
	if end > int64(cap(n.data)) {
		x := make([]byte, len(n.data), 2*end+64)
		copy(x, n.data)
		n.data = x
	}
	if end > int64(len(n.data)) {
		old := len(n.data)
		n.data = n.data[:end]
		for i := int64(old); i < off; i++ {
			n.data[i] = 0
		}
	}
	copy(n.data[off:end], b)
	n.mtime = now()
	return len(b), 0
}

func truncate(n *inode, size int64) (int, int) {
	if n.dir {
		return -1, int(syscall.EISDIR)
	}
	if size < 0 {
		return -1, int(syscall.EINVAL)
	}
	n.mtime = now()
	l := int64(len(n.data))
	if size <= l {
		if capLeft >= 0 {
			capLeft += l - size
		}
		x := make([]byte, size)
		copy(x, n.data)
		n.data = x
		return 0, 0
	}
	x := make([]byte, size)
	copy(x, n.data)
	n.data = x
	return 0, 0
}

func rename(a, b string) (int, int) {
	touch(a)
	touch(b)
	n := lookup(a)
	if n == nil {
		return -1, int(syscall.ENOENT)
	}
	d := lookup(dirOf(b))
	if d == nil {
		return -1, int(syscall.ENOENT)
	}
	if m := lookup(b); m != nil && m != n {
		if m.dir && !n.dir {
			return -1, int(syscall.EISDIR)
		}
		if !m.dir && n.dir {
			return -1, int(syscall.ENOTDIR)
		}
		m.links = 0
	}
	if n.dir {
		for _, x := range inodes {
			if x.links > 0 && under(x.path, a) {
				x.path = b + x.path[len(a):]
			}
		}
	}
	n.path = b
	return 0, 0
}

// link makes a copy: names do not share their content afterwards.
func link(a, b string) (int, int) {
	touch(b)
	n := lookup(a)
	if n == nil {
		return -1, missing(a)
	}
	if n.dir {
		return -1, int(syscall.EPERM)
	}
	if lookup(b) != nil {
		return -1, int(syscall.EEXIST)
	}
	if d := lookup(dirOf(b)); d == nil || !d.dir {
		return -1, missing(b)
	}
	m := addInode(b, false)
	m.data = make([]byte, len(n.data))
	copy(m.data, n.data)
	m.mtime = n.mtime
	return 0, 0
}

func unlink(p string, dir bool) (int, int) {
	touch(p)
	n := lookup(p)
	if n == nil {
		return -1, int(syscall.ENOENT)
	}
	if n.dir && !dir {
		return -1, int(syscall.EISDIR)
	}
	if !n.dir && dir {
		return -1, int(syscall.ENOTDIR)
	}
	if n.dir {
		for _, x := range inodes {
			if x.links > 0 && under(x.path, p) {
				return -1, int(syscall.ENOTEMPTY)
			}
		}
	}
	n.links = 0
	if capLeft >= 0 {
		capLeft += int64(len(n.data))
	}
	return 0, 0
}

func statPath(p string, buf uintptr) (int, int) {
	n := lookup(p)
	if n == nil {
		return -1, missing(p)
	}
	return stat(n, buf)
}

func stat(n *inode, buf uintptr) (int, int) {
	st := (*syscall.Stat_t)(unsafe.Pointer(buf))
	*st = syscall.Stat_t{}
	st.Dev, st.Ino, st.Nlink = 1, n.ino, 1
	if n.dir {
		st.Mode = syscall.S_IFDIR | 0755
	} else {
		st.Mode = syscall.S_IFREG | 0644
		st.Size = int64(len(n.data))
		if n.kind != 0 {
			st.Size = 0
		}
		if n.kind == Fifo {
			st.Mode = syscall.S_IFIFO | 0644
		}
	}
	st.Mtim.Sec, st.Mtim.Nsec = n.mtime/1e9, n.mtime%1e9
	st.Ctim, st.Atim = st.Mtim, st.Mtim
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	return 0, 0
}

func getdents(fd int, buf []byte) (int, int) {
	f := getfd(fd)
	if f == nil {
		return -1, int(syscall.EBADF)
	}
	if !f.n.dir {
		return -1, int(syscall.ENOTDIR)
	}
	n, k := 0, 0
	for _, x := range inodes {
		if x.links == 0 || x.path == "/" || dirOf(x.path) != f.n.path {
			continue
		}
		k++
		if k <= f.dirPos {
			continue
		}
		name := baseOf(x.path)
		rl := (19 + len(name) + 1 + 7) &^ 7
		if n+rl > len(buf) {
			break
		}
		b := buf[n : n+rl]
		for i := range b {
			b[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&b[0])) = x.ino
		*(*uint64)(unsafe.Pointer(&b[8])) = uint64(k)
		*(*uint16)(unsafe.Pointer(&b[16])) = uint16(rl)
		b[18] = 8
		if x.dir {
			b[18] = 4
		}
		copy(b[19:], name)
		n += rl
		f.dirPos = k
	}
	return n, 0
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	var b [20]byte
	i := len(b)
	for n > 0 {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
	}
	if neg {
		i--
		b[i] = '-'
	}
	x := make([]byte, len(b)-i)
	copy(x, b[i:])
	return unsafe.String(&x[0], len(x))
}

func put(s string) {
	if len(s) > 0 {
		grow(&trace, unsafe.Slice(unsafe.StringData(s), len(s)))
	}
}

func tr(t *thread, c call, note string, r, e int) {
	if !cfg.Trace {
		return
	}
	put("thread ")
	put(itoa(t.idx))
	put(" op ")
	put(itoa(t.op))
	put(" call ")
	put(itoa(t.sysN - 1))
	put(": ")
	put(className[c.class])
	put("[")
	put(itoa(int(c.trap)))
	put("]")
	if c.path != "" {
		put(" ")
		put(c.path)
	} else if c.fd >= 0 {
		put(" fd ")
		put(itoa(c.fd))
		if f := getfd(c.fd); f != nil {
			put(" (")
			put(f.n.path)
			put(")")
		}
	}
	if c.n > 0 {
		put(" n=")
		put(itoa(c.n))
	}
	put(" -> ")
	put(itoa(r))
	if e != 0 {
		put(" errno ")
		put(itoa(e))
	}
	if note != "" {
		put(" [")
		put(note)
		put("]")
	}
	put("\n")
}

// KernelStats reports what was injected and seen.
func KernelStats() (n int, real []Fault, cap int, tr string, unk []int) {
	return sysN, realised[:nReal], capHits, string(trace), unknown[:nUnknown]
}

// Fired reports how often each fault kind fired.
func Fired(f func(name string, n int)) {
	for c := range fired {
		for v, n := range fired[c] {
			if n > 0 {
				k := FaultKind{Class: c, Variant: v}
				f(k.Name(), n)
			}
		}
	}
	if firedEintr > 0 {
		f("of which EINTR", firedEintr)
	}
}

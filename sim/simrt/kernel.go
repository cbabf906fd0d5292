package simrt

import (
	"encoding/binary"
	"fmt"
	"path"
	"sort"
	"strings"
	"syscall"
	"unsafe"
)

// Kernel is the simulated operating system: it survives the processes.
type Kernel struct {
	w       *World
	root    *Inode
	nextIno uint64
	nextFD  int
	free    int64 // bytes left on disk, <0: plenty
	chunk   int64
	shm     map[int]*shmSeg
	nextShm int
	active  bool // faults and limits apply
	mapped  []*mapping
	backs   []*backing
}

type Inode struct {
	ID    uint64
	Dir   bool
	Data  []byte
	Kids  map[string]*Inode
	Nlink int
	gone  bool // a directory that was removed
	Mode  uint32
	Mtime int64
	ex    *OpenFile
	sh    map[*OpenFile]bool
	posix map[*Proc]int // fcntl locks, whole file: F_RDLCK or F_WRLCK
	back  *backing      // once the file is mapped shared
}

type OpenFile struct {
	ino   *Inode
	off   int64
	flags int
	path  string
	refs  int
	proc  *Proc
	dirs  []string
	dpos  int
	pend  syscall.Errno // the next read or write fails with this
}

type shmSeg struct {
	id, key int
	size    int
	back    *backing
	nattach int
	rm      bool
}
type shmAttach struct{ seg *shmSeg }

type mapping struct {
	addr uintptr
	n    int
	ino  *Inode
	of   *OpenFile // kept open, with its locks, by the mapping
	proc *Proc
	shm  bool
	live bool
	kept bool // undoing it was refused
}

func newKernel(w *World) *Kernel {
	k := &Kernel{w: w, nextFD: 1 << 20, free: -1, shm: map[int]*shmSeg{}}
	k.root = k.newInode(true)
	return k
}

func (k *Kernel) newInode(dir bool) *Inode {
	k.nextIno++
	n := &Inode{ID: k.nextIno, Dir: dir, Nlink: 1, Mode: 0644}
	if k.w != nil {
		n.Mtime = k.w.wall
	}
	if dir {
		n.Kids = map[string]*Inode{}
		n.Mode = 0755
	}
	return n
}

// ---- harness access (no scheduling, no faults) ----

func split(p string) []string {
	p = path.Clean("/" + p)
	if p == "/" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func (k *Kernel) lookup(p string) *Inode {
	n := k.root
	for _, c := range split(p) {
		if !n.Dir {
			return nil
		}
		n = n.Kids[c]
		if n == nil {
			return nil
		}
	}
	return n
}

// MkdirAll creates a directory and its parents.
func (k *Kernel) MkdirAll(p string) {
	n := k.root
	for _, c := range split(p) {
		m := n.Kids[c]
		if m == nil {
			m = k.newInode(true)
			n.Kids[c] = m
		}
		n = m
	}
}

// WriteFile sets the content of a file, creating its directories.
func (k *Kernel) WriteFile(p string, data []byte) {
	k.MkdirAll(path.Dir(p))
	d := k.lookup(path.Dir(p))
	n := d.Kids[path.Base(p)]
	if n == nil {
		n = k.newInode(false)
		d.Kids[path.Base(p)] = n
	}
	n.setData(append([]byte(nil), data...))
}

// Age sets the time of the last change to some time ago.
func (k *Kernel) Age(p string, ns int64) {
	if n := k.lookup(p); n != nil {
		n.Mtime = k.w.wall - ns
	}
}

// Touch sets the time of the last change to now.
func (k *Kernel) Touch(p string) {
	if n := k.lookup(p); n != nil {
		n.Mtime = k.w.wall
	}
}

func (n *Inode) setData(b []byte) {
	if n.back != nil && len(b) <= len(n.back.mem) {
		m := copy(n.back.mem, b)
		for i := m; i < len(n.back.mem); i++ {
			n.back.mem[i] = 0
		}
		n.Data = n.back.mem[:len(b)]
		return
	}
	n.Data = b
}

// ReadFile returns a copy of a file; ok is false when there is none.
func (k *Kernel) ReadFile(p string) (b []byte, ok bool) {
	n := k.lookup(p)
	if n == nil || n.Dir {
		return nil, false
	}
	return append([]byte{}, n.Data...), true
}

func (k *Kernel) Exists(p string) bool { return k.lookup(p) != nil }
func (k *Kernel) IsDir(p string) bool  { n := k.lookup(p); return n != nil && n.Dir }

// Remove unlinks a file (harness use).
func (k *Kernel) Remove(p string) {
	if d := k.lookup(path.Dir(p)); d != nil && d.Kids[path.Base(p)] != nil {
		d.Kids[path.Base(p)].Nlink--
		delete(d.Kids, path.Base(p))
	}
}

// List returns the sorted names in a directory.
func (k *Kernel) List(p string) []string {
	n := k.lookup(p)
	if n == nil || !n.Dir {
		return nil
	}
	var r []string
	for c := range n.Kids {
		r = append(r, c)
	}
	sort.Strings(r)
	return r
}

// Walk returns every file path with its content.
func (k *Kernel) Walk() map[string]string {
	r := map[string]string{}
	var f func(p string, n *Inode)
	f = func(p string, n *Inode) {
		if n.Dir {
			for c, m := range n.Kids {
				f(p+"/"+c, m)
			}
			return
		}
		r[p] = string(n.Data)
	}
	f("", k.root)
	return r
}

// Dirs returns every directory.
func (k *Kernel) Dirs() map[string]bool {
	r := map[string]bool{}
	var f func(p string, n *Inode)
	f = func(p string, n *Inode) {
		if n.Dir {
			r[p] = true
			for c, m := range n.Kids {
				f(p+"/"+c, m)
			}
		}
	}
	f("", k.root)
	return r
}

// SetActive switches limits (disk space, read chunking) and fault injection.
func (k *Kernel) SetActive(on bool) {
	k.active = on
	k.free, k.chunk = -1, 0
	if on {
		if k.w.Plan.DiskFree > 0 {
			k.free = k.w.Plan.DiskFree - 1
		}
		k.chunk = k.w.Plan.Chunk
	}
}

// OpenFDs lists the paths of the descriptors process p has open.
func (k *Kernel) OpenFDs(p *Proc) []string {
	var r []string
	for _, f := range p.fds {
		r = append(r, f.path)
	}
	sort.Strings(r)
	return r
}

// Locks lists the locks process p holds.
func (k *Kernel) Locks(p *Proc) []string {
	var r []string
	var f func(pp string, n *Inode)
	f = func(pp string, n *Inode) {
		for c, m := range n.Kids {
			f(pp+"/"+c, m)
		}
		if n.ex != nil && n.ex.proc == p {
			r = append(r, pp+" (exclusive)")
		}
		for of := range n.sh {
			if of.proc == p {
				r = append(r, pp+" (shared)")
			}
		}
		if _, ok := n.posix[p]; ok {
			r = append(r, pp+" (record)")
		}
	}
	f("", k.root)
	sort.Strings(r)
	return r
}

// LiveMappings counts mappings and attachments process p still has.
func (k *Kernel) LiveMappings(p *Proc) int {
	n := 0
	for _, m := range k.mapped {
		if m.live && !m.kept && m.proc == p {
			n++
		}
	}
	return n
}

func (k *Kernel) release(of *OpenFile) {
	if of.refs--; of.refs > 0 {
		return
	}
	if of.ino.ex == of {
		of.ino.ex = nil
	}
	delete(of.ino.sh, of)
}

// CloseAll is the end of a process as far as the kernel is concerned.
func (k *Kernel) CloseAll(p *Proc) { k.closeAll(p) }

func (k *Kernel) closeAll(p *Proc) {
	for fd, of := range p.fds {
		k.release(of)
		delete(p.fds, fd)
		k.dropPosix(of.ino, p)
	}
	for _, m := range k.mapped {
		if m.proc == p {
			k.unmapped(m)
		}
	}
	for a, at := range p.shm {
		at.seg.nattach--
		delete(p.shm, a)
		if at.seg.rm && at.seg.nattach == 0 {
			delete(k.shm, at.seg.id)
		}
	}
}

func (k *Kernel) unmapped(m *mapping) {
	if m.live && m.of != nil {
		k.release(m.of)
	}
	m.live = false
}

func (k *Kernel) dropPosix(n *Inode, p *Proc) {
	delete(n.posix, p)
}

// ---- system calls ----

var sysNames = map[uintptr]string{
	syscall.SYS_READ: "read", syscall.SYS_WRITE: "write", syscall.SYS_PREAD64: "pread", syscall.SYS_PWRITE64: "pwrite",
	syscall.SYS_READV: "readv", syscall.SYS_WRITEV: "writev",
	syscall.SYS_OPEN: "open", syscall.SYS_OPENAT: "openat", syscall.SYS_CLOSE: "close", syscall.SYS_FSTAT: "fstat",
	syscall.SYS_STAT: "stat", syscall.SYS_LSTAT: "lstat", syscall.SYS_NEWFSTATAT: "fstatat", syscall.SYS_LSEEK: "lseek",
	syscall.SYS_FTRUNCATE: "ftruncate", syscall.SYS_TRUNCATE: "truncate", syscall.SYS_UNLINK: "unlink", syscall.SYS_UNLINKAT: "unlinkat",
	syscall.SYS_RMDIR: "rmdir", syscall.SYS_RENAME: "rename", syscall.SYS_RENAMEAT: "renameat", 316: "renameat2",
	syscall.SYS_MKDIR: "mkdir", syscall.SYS_MKDIRAT: "mkdirat", syscall.SYS_GETDENTS64: "getdents", syscall.SYS_FLOCK: "flock",
	syscall.SYS_FCNTL: "fcntl", syscall.SYS_FSYNC: "fsync", syscall.SYS_FDATASYNC: "fdatasync", syscall.SYS_CHMOD: "chmod",
	syscall.SYS_FCHMOD: "fchmod", syscall.SYS_FCHMODAT: "fchmodat", syscall.SYS_LINK: "link", syscall.SYS_LINKAT: "linkat",
	syscall.SYS_ACCESS: "access", syscall.SYS_FACCESSAT: "faccessat", 439: "faccessat2", syscall.SYS_DUP: "dup", syscall.SYS_DUP2: "dup2", syscall.SYS_DUP3: "dup3",
	326: "copy_file_range", syscall.SYS_SENDFILE: "sendfile", syscall.SYS_SPLICE: "splice", syscall.SYS_FALLOCATE: "fallocate",
	syscall.SYS_MMAP: "mmap", syscall.SYS_MUNMAP: "munmap", syscall.SYS_MSYNC: "msync", syscall.SYS_MADVISE: "madvise",
	syscall.SYS_SHMGET: "shmget", syscall.SYS_SHMAT: "shmat", syscall.SYS_SHMDT: "shmdt", syscall.SYS_SHMCTL: "shmctl",
	318: "getrandom", syscall.SYS_GETPID: "getpid", syscall.SYS_GETCWD: "getcwd", syscall.SYS_READLINKAT: "readlinkat", syscall.SYS_READLINK: "readlink",
	syscall.SYS_UTIMENSAT: "utimensat", syscall.SYS_FADVISE64: "fadvise", 332: "statx", syscall.SYS_GETUID: "getuid",
	syscall.SYS_SYMLINK: "symlink", syscall.SYS_SYMLINKAT: "symlinkat", syscall.SYS_FCHOWN: "fchown", syscall.SYS_FCHOWNAT: "fchownat", syscall.SYS_CHOWN: "chown",
	syscall.SYS_SYNC_FILE_RANGE: "sync_file_range", syscall.SYS_CHDIR: "chdir", syscall.SYS_FCHDIR: "fchdir", syscall.SYS_UMASK: "umask",
	syscall.SYS_SYNC: "sync", 306: "syncfs", syscall.SYS_GETPPID: "getppid", syscall.SYS_GETTID: "gettid", syscall.SYS_GETGID: "getgid",
	syscall.SYS_GETEUID: "geteuid", syscall.SYS_GETEGID: "getegid", syscall.SYS_SCHED_YIELD: "sched_yield", syscall.SYS_KILL: "kill",
	syscall.SYS_GETXATTR: "getxattr", syscall.SYS_SETXATTR: "setxattr", syscall.SYS_LGETXATTR: "lgetxattr", syscall.SYS_FGETXATTR: "fgetxattr",
	syscall.SYS_MKNOD: "mknod", syscall.SYS_MKNODAT: "mknodat", syscall.SYS_STATFS: "statfs", syscall.SYS_FSTATFS: "fstatfs",
	syscall.SYS_INOTIFY_INIT1: "inotify_init1", syscall.SYS_INOTIFY_INIT: "inotify_init", syscall.SYS_MLOCK: "mlock", syscall.SYS_MUNLOCK: "munlock",
	syscall.SYS_SEMGET: "semget", syscall.SYS_MSGGET: "msgget", 319: "memfd_create", syscall.SYS_GETPGID: "getpgid", syscall.SYS_GETPGRP: "getpgrp",
	syscall.SYS_PREADV: "preadv", syscall.SYS_PWRITEV: "pwritev",
}

// sysClass groups calls for fault injection.
func sysClass(name string) string {
	switch name {
	case "read", "pread", "readv", "preadv":
		return "read"
	case "write", "pwrite", "writev", "pwritev":
		return "write"
	case "stat", "lstat", "fstat", "fstatat", "statx", "access", "faccessat", "faccessat2":
		return "stat"
	case "ftruncate", "truncate":
		return "trunc"
	case "unlink", "unlinkat", "rmdir":
		return "unlink"
	case "rename", "renameat", "renameat2":
		return "rename"
	case "mkdir", "mkdirat":
		return "mkdir"
	case "fsync", "fdatasync":
		return "fsync"
	case "link", "linkat", "symlink", "symlinkat":
		return "link"
	case "open", "openat":
		return "open"
	}
	return name
}

func cstr(p uintptr) string {
	if p == 0 {
		return ""
	}
	b := (*[4096]byte)(unsafe.Pointer(p))
	for i := 0; i < 4096; i++ {
		if b[i] == 0 {
			return string(b[:i])
		}
	}
	return ""
}

func mem(p uintptr, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(unsafe.Pointer(p)), int(n))
}

const atFdcwd = ^uintptr(99) // -100

func errRet(e syscall.Errno) (uintptr, uintptr, syscall.Errno) { return ^uintptr(0), 0, e }

func sysHook(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, e syscall.Errno, handled bool) {
	w := W
	if w == nil {
		return 0, 0, 0, false
	}
	t := w.self()
	if t == nil {
		return 0, 0, 0, false
	}
	r1, r2, e = w.syscall(t, trap, a1, a2, a3, a4, a5, a6)
	return r1, r2, e, true
}

func (w *World) syscall(t *Task, trap, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, uintptr, syscall.Errno) {
	k := w.K
	name := sysNames[trap]
	if name == "" {
		name = fmt.Sprintf("sys_%d", trap)
	}
	// Standard streams belong to the simulated process and never block.
	if (name == "write" || name == "read") && a1 < 3 {
		if t.dying {
			return a3, 0, 0
		}
		if name == "read" {
			return 0, 0, 0
		}
		if a1 == 1 {
			t.Proc.Stdout = append(t.Proc.Stdout, mem(a2, a3)...)
		} else {
			if len(t.Proc.Stderr) > 1<<16 {
				t.Proc.Stderr = nil
			}
			t.Proc.Stderr = append(t.Proc.Stderr, mem(a2, a3)...)
		}
		return a3, 0, 0
	}
	switch name {
	case "getpid":
		return uintptr(1000 + t.Proc.ID), 0, 0
	case "getuid", "getgid", "geteuid", "getegid", "sched_yield", "sync", "mlock", "munlock":
		return 0, 0, 0
	case "getppid":
		return 1, 0, 0
	case "gettid", "getpgid", "getpgrp":
		return uintptr(1000 + t.Proc.ID), 0, 0
	case "umask":
		return 022, 0, 0
	case "kill": // only to see whether somebody is there
		for _, p := range w.procs {
			if int(int32(a1)) == 1000+p.ID && a2 == 0 && !p.Dead {
				return 0, 0, 0
			}
		}
		return errRet(syscall.ESRCH)
	case "getxattr", "setxattr", "lgetxattr", "fgetxattr":
		return errRet(syscall.EOPNOTSUPP)
	case "mknod", "mknodat":
		return errRet(syscall.EPERM)
	case "statfs", "fstatfs", "inotify_init", "inotify_init1", "semget", "msgget", "memfd_create":
		return errRet(syscall.ENOSYS)
	case "getrandom":
		b := mem(a1, a2)
		for i := range b {
			b[i] = byte(w.frng.s>>5) + byte(i*7)
		}
		return a2, 0, 0
	}
	if t.dying && t.unwinding {
		if name == "close" {
			return 0, 0, 0
		}
		return errRet(syscall.EBADF)
	}
	if t.Proc.Dead && !t.dying {
		t.dying = true
		w.checkDying(t)
	}

	class := sysClass(name)
	pth := ""
	var of *OpenFile
	var raws []string
	abs := func(fd, p uintptr) string {
		s := cstr(p)
		if !strings.HasPrefix(s, "/") {
			if d := t.Proc.fds[int(int32(fd))]; d != nil {
				s = d.path + "/" + s
			} else {
				s = t.Proc.cwd + "/" + s
			}
		}
		raws = append(raws, s)
		return path.Clean(s)
	}
	pth2 := ""
	badName := false
	flags := 0
	switch name {
	case "chdir":
		pth = abs(atFdcwd, a1)
		badName = cstr(a1) == ""
	case "open", "stat", "lstat", "truncate", "unlink", "rmdir", "rename", "mkdir", "chmod", "link", "access", "readlink", "symlink", "chown":
		pth = abs(atFdcwd, a1)
		badName = tooLong(cstr(a1)) || cstr(a1) == ""
		switch name {
		case "open":
			flags = int(a2)
		case "rename", "link":
			pth2 = abs(atFdcwd, a2)
			badName = badName || tooLong(cstr(a2)) || cstr(a2) == ""
		}
	case "openat", "fstatat", "unlinkat", "mkdirat", "fchmodat", "faccessat", "faccessat2", "readlinkat", "utimensat", "statx", "fchownat":
		if cstr(a2) == "" { // AT_EMPTY_PATH
			of = t.Proc.fds[int(int32(a1))]
			if of != nil {
				pth = of.path
			} else {
				badName = true
			}
		} else {
			pth = abs(a1, a2)
			badName = tooLong(cstr(a2))
		}
		if name == "openat" {
			flags = int(a3)
		}
	case "renameat", "renameat2", "linkat":
		pth, pth2 = abs(a1, a2), abs(a3, a4)
		badName = tooLong(cstr(a2)) || tooLong(cstr(a4)) || cstr(a2) == "" || cstr(a4) == ""
	case "symlinkat":
		pth = abs(a2, a3)
	case "read", "pread", "readv", "write", "pwrite", "writev", "close", "fstat", "lseek", "ftruncate", "getdents", "flock", "fcntl", "fsync",
		"fdatasync", "fchmod", "dup", "dup2", "dup3", "fallocate", "fadvise", "fchown", "sync_file_range", "fchdir", "syncfs", "preadv", "pwritev":
		of = t.Proc.fds[int(int32(a1))]
		if (name == "pread" || name == "pwrite") && int64(a4) < 0 || name == "ftruncate" && int64(a2) < 0 {
			return errRet(syscall.EINVAL)
		}
		if of == nil {
			return errRet(syscall.EBADF)
		}
		pth = of.path
	case "copy_file_range":
		of = t.Proc.fds[int(int32(a1))]
		if of != nil {
			pth = of.path
		}
	case "mmap":
		of = t.Proc.fds[int(int32(a5))]
		if of != nil {
			pth = of.path
		}
	case "sendfile", "splice":
		return errRet(syscall.EINVAL)
	case "munmap", "msync", "madvise", "shmget", "shmat", "shmdt", "shmctl", "getcwd":
	default:
		if w.Unsupported == "" {
			w.Unsupported = name
		}
		return errRet(syscall.ENOSYS)
	}
	if class == "open" && flags&syscall.O_CREAT != 0 {
		class = "create"
	}

	// Scheduling point.
	w.step(t, true)
	if t.dying {
		return errRet(syscall.EBADF)
	}
	if w.OnSys != nil {
		w.OnSys(t, class, pth)
	}

	// Faults.
	var flt *Fault
	if w.killing {
		flt = nil
	} else {
		cnt := a3
		if strings.HasSuffix(name, "v") && (class == "read" || class == "write") {
			cnt = 0
			for _, v := range unsafe.Slice((*[2]uintptr)(unsafe.Pointer(a2)), int(a3)) {
				cnt += v[1]
			}
		}
		flt = w.faultFor(t, class, name, pth, of, cnt, flags)
	}
	w.hash = mix(w.hash, uint64(t.ID)<<32^uint64(trap)<<8)
	if of != nil {
		w.ihash = mix(w.ihash, uint64(t.ID)<<40^uint64(trap)<<20^of.ino.ID)
	} else {
		w.ihash = mix(w.ihash, uint64(t.ID)<<40^uint64(trap)<<20^0xfffff)
	}
	var r1 uintptr
	var e syscall.Errno
	crashAfter := false
	limit := int64(-1)
	if flt != nil {
		w.hash = mix(w.hash, uint64(len(flt.Kind))<<16^uint64(flt.Arg))
		w.Stats.Faults[flt.Kind]++
		switch flt.Kind {
		case "short", "stall", "eintr":
			t.met(false, "")
		default:
			if class == "flock" && a2&8 != 0 {
				t.met(true, "flock-un")
			} else {
				t.met(true, class)
			}
		}
		w.note("task %d %s %s: fault %s %d", t.ID, name, pth, flt.Kind, flt.Arg)
		switch flt.Kind {
		case "crash":
			w.Kill(t.Proc, "crash before "+name)
			w.checkDying(t)
		case "crash-after":
			crashAfter = true
		case "torn":
			crashAfter = true
			limit = flt.Arg
		case "short":
			limit = flt.Arg
		case "shortnospc":
			limit, of.pend = flt.Arg, syscall.ENOSPC
		case "shorteio":
			limit, of.pend = flt.Arg, syscall.EIO
		case "stall":
			t.stalled = true
			if flt.Arg > 0 {
				t.Pause(flt.Arg)
			} else if r := w.runnable(); len(r) > 0 && r[0] != t {
				t.state = stParked
				if x := w.choose(t.ID, -2000000-t.steps, w.runnable()); x != nil && x != t {
					w.resume(x)
					<-t.wake
					w.checkDying(t)
				} else {
					t.state = stRunning
				}
			}
			t.stalled = false
		default:
			e = errnoOf(flt.Kind)
			if name == "munmap" || name == "shmdt" {
				for _, m := range k.mapped {
					m.kept = m.kept || m.addr == a1 && m.proc == t.Proc
				}
			}
		}
	}
	if e == 0 {
		if badName && name == "truncate" && int64(a2) < 0 {
			e = syscall.EINVAL
		} else if badName {
			e = syscall.ENOENT
			if tooLong(pth) || tooLong(pth2) {
				e = syscall.ENAMETOOLONG
			}
		} else if e = k.nameErr(name, raws, flags, int64(a2)); e == 0 {
			r1, e = k.do(t, name, pth, pth2, of, flags, limit, a1, a2, a3, a4, a5, a6)
		}
	} else if name == "close" {
		k.do(t, name, pth, pth2, of, flags, limit, a1, a2, a3, a4, a5, a6)
	}
	w.hash = mix(w.hash, uint64(e)<<1^uint64(r1*boolU(name != "mmap" && name != "shmat")))
	if w.Tracing {
		arg := ""
		switch name {
		case "write", "read", "pread", "pwrite":
			arg = fmt.Sprintf("(%d)", a3)
		case "ftruncate", "lseek":
			arg = fmt.Sprintf("(%d,%d)", int64(a2), a3)
		case "flock":
			arg = map[uintptr]string{1: "(SH)", 2: "(EX)", 8: "(UN)"}[a2&^4]
		}
		if pth2 != "" {
			arg = " -> " + pth2
		}
		if e != 0 {
			w.note("task %d %s %s%s = %v", t.ID, name, pth, arg, e)
		} else if name == "mmap" || name == "shmat" {
			w.note("task %d %s %s%s ok", t.ID, name, pth, arg)
		} else {
			w.note("task %d %s %s%s = %d", t.ID, name, pth, arg, int64(r1))
		}
	}
	if crashAfter {
		w.Kill(t.Proc, "crash after "+name)
		w.checkDying(t)
	}
	if e != 0 {
		return errRet(e)
	}
	return r1, 0, 0
}

func boolU(b bool) uintptr {
	if b {
		return 1
	}
	return 0
}

func tooLong(p string) bool {
	if len(p) > 4000 {
		return true
	}
	for _, c := range strings.Split(p, "/") {
		if len(c) > 255 {
			return true
		}
	}
	return false
}

// nameErr finds what is wrong with names that path.Clean would repair: a way
// through something that is no directory, and a slash behind a file.
func (k *Kernel) nameErr(name string, raws []string, flags int, arg int64) syscall.Errno {
	if name == "truncate" && arg < 0 {
		return syscall.EINVAL
	}
	var first *Inode
	for i, raw := range raws {
		var comps []string
		slash := strings.HasSuffix(raw, "/") || strings.HasSuffix(raw, "/.")
		for _, c := range strings.Split(raw, "/") {
			if c != "" && c != "." {
				comps = append(comps, c)
			}
		}
		stack := []*Inode{k.root}
		for j, c := range comps {
			d := stack[len(stack)-1]
			if !d.Dir {
				return syscall.ENOTDIR
			}
			if c == ".." {
				if len(stack) > 1 {
					stack = stack[:len(stack)-1]
				}
				continue
			}
			n := d.Kids[c]
			if n == nil && j < len(comps)-1 {
				return syscall.ENOENT
			}
			stack = append(stack, n)
		}
		n := stack[len(stack)-1]
		if i == 0 {
			if first = n; n == nil && strings.HasPrefix(name, "link") {
				return syscall.ENOENT
			}
		}
		if !slash {
			continue
		}
		switch {
		case (name == "open" || name == "openat") && flags&syscall.O_CREAT != 0 && (strings.HasSuffix(raw, "/") || n == nil || flags&syscall.O_EXCL == 0):
			return syscall.EISDIR
		case i == 1 && strings.HasPrefix(name, "rename") && first == nil:
			return syscall.ENOENT
		case i == 1 && strings.HasPrefix(name, "rename") && !first.Dir:
			return syscall.ENOTDIR
		case n == nil && strings.HasPrefix(name, "link") && i == 1:
			return syscall.ENOENT
		case n != nil && strings.HasPrefix(name, "link") && i == 1:
			return syscall.EEXIST
		case n != nil && !n.Dir && !strings.HasPrefix(name, "mkdir"):
			return syscall.ENOTDIR
		}
	}
	return 0
}

// walk resolves a path to its parent directory and entry.
func (k *Kernel) walk(p string) (dir *Inode, base string, n *Inode, e syscall.Errno) {
	comps := split(p)
	if len(comps) == 0 {
		return nil, "", k.root, 0
	}
	d := k.root
	for _, c := range comps[:len(comps)-1] {
		if !d.Dir {
			return nil, "", nil, syscall.ENOTDIR
		}
		d = d.Kids[c]
		if d == nil {
			return nil, "", nil, syscall.ENOENT
		}
	}
	if !d.Dir {
		return nil, "", nil, syscall.ENOTDIR
	}
	base = comps[len(comps)-1]
	return d, base, d.Kids[base], 0
}

func (k *Kernel) do(t *Task, name, pth, pth2 string, of *OpenFile, flags int, limit int64, a1, a2, a3, a4, a5, a6 uintptr) (uintptr, syscall.Errno) {
	w := k.w
	p := t.Proc
	switch name {
	case "open", "openat":
		return k.open(t, pth, flags)
	case "close":
		delete(p.fds, int(int32(a1)))
		k.dropPosix(of.ino, p)
		k.release(of)
		return 0, 0
	case "read", "pread":
		if of.ino.Dir {
			return 0, syscall.EISDIR
		}
		if of.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
			return 0, syscall.EBADF
		}
		if e := of.pend; e != 0 && limit < 0 {
			of.pend = 0
			t.met(true, "")
			return 0, e
		}
		b := mem(a2, a3)
		off := of.off
		if name == "pread" {
			off = int64(a4)
		}
		n := 0
		if off < int64(len(of.ino.Data)) {
			src := of.ino.Data[off:]
			if limit >= 0 && int64(len(src)) > limit && limit > 0 {
				src = src[:limit]
			}
			if k.chunk > 0 && int64(len(src)) > k.chunk && int64(len(b)) > k.chunk {
				w.Stats.Faults["chunk"]++
			}
			if k.chunk > 0 && int64(len(src)) > k.chunk {
				src = src[:k.chunk]
			}
			n = copy(b, src)
		}
		if name == "read" {
			of.off += int64(n)
		}
		t.moved(n)
		return uintptr(n), 0
	case "write", "pwrite":
		if of.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EBADF
		}
		if e := of.pend; e != 0 && limit < 0 {
			of.pend = 0
			t.met(true, "")
			return 0, e
		}
		b := mem(a2, a3)
		if limit >= 0 && int64(len(b)) > limit {
			b = b[:limit]
		}
		off := of.off
		if name == "pwrite" {
			off = int64(a4)
		}
		if of.flags&syscall.O_APPEND != 0 {
			off = int64(len(of.ino.Data))
		}
		if len(b) == 0 {
			return 0, 0
		}
		n, e := k.writeAt(of.ino, off, b)
		if e != 0 {
			return 0, e
		}
		if name == "write" {
			of.off = off + int64(n)
		}
		t.moved(n)
		return uintptr(n), 0
	case "readv", "writev", "preadv", "pwritev":
		// Like one call for the whole, made of one call per part.
		tot := uintptr(0)
		if acc := of.flags & syscall.O_ACCMODE; acc == syscall.O_RDONLY && strings.Contains(name, "write") || acc == syscall.O_WRONLY && strings.Contains(name, "read") {
			return 0, syscall.EBADF
		}
		for _, v := range unsafe.Slice((*[2]uintptr)(unsafe.Pointer(a2)), int(a3)) {
			lim := limit
			if limit >= 0 {
				if lim -= int64(tot); lim <= 0 && tot > 0 {
					break
				}
			}
			if v[1] == 0 {
				continue
			}
			n, e := k.do(t, map[string]string{"readv": "read", "writev": "write", "preadv": "pread", "pwritev": "pwrite"}[name], pth, pth2, of, flags, lim, a1, v[0], v[1], a4+tot, 0, 0)
			if e != 0 {
				if tot > 0 {
					break
				}
				return 0, e
			}
			tot += n
			if n < v[1] {
				break
			}
		}
		return tot, 0
	case "lseek":
		var base int64
		switch a3 {
		case 0:
		case 1:
			base = of.off
		case 2:
			base = int64(len(of.ino.Data))
		default:
			return 0, syscall.EINVAL
		}
		if of.ino.Dir {
			of.dirs, of.dpos = nil, 0
		}
		if base+int64(a2) < 0 {
			return 0, syscall.EINVAL
		}
		of.off = base + int64(a2)
		return uintptr(of.off), 0
	case "fstat":
		k.fillStat(of.ino, a2)
		return 0, 0
	case "stat", "lstat":
		_, _, n, e := k.walk(pth)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return 0, e
		}
		k.fillStat(n, a2)
		return 0, 0
	case "fstatat":
		n := (*Inode)(nil)
		e := syscall.Errno(0)
		if of != nil {
			n = of.ino
		} else {
			_, _, n, e = k.walk(pth)
		}
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e != 0 {
			return 0, e
		}
		k.fillStat(n, a3)
		return 0, 0
	case "access", "faccessat", "faccessat2":
		_, _, n, e := k.walk(pth)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		return 0, e
	case "readlink", "readlinkat":
		_, _, n, e := k.walk(pth)
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		if e == 0 {
			e = syscall.EINVAL
		}
		return 0, e
	case "statx":
		return 0, syscall.ENOSYS
	case "ftruncate", "truncate":
		var n *Inode
		if of != nil {
			if of.flags&syscall.O_ACCMODE == syscall.O_RDONLY || int64(a2) < 0 {
				return 0, syscall.EINVAL
			}
			n = of.ino
		} else {
			_, _, m, e := k.walk(pth)
			if e == 0 && m == nil {
				e = syscall.ENOENT
			}
			if e != 0 {
				return 0, e
			}
			n = m
		}
		return 0, k.truncate(n, int64(a2))
	case "unlink", "unlinkat", "rmdir":
		d, base, n, e := k.walk(pth)
		if e != 0 {
			return 0, e
		}
		if n == nil {
			return 0, syscall.ENOENT
		}
		rmdir := name == "rmdir" || (name == "unlinkat" && a3&0x200 != 0)
		if rmdir {
			if !n.Dir {
				return 0, syscall.ENOTDIR
			}
			if len(n.Kids) > 0 {
				return 0, syscall.ENOTEMPTY
			}
			n.gone = true
		} else if n.Dir {
			return 0, syscall.EISDIR
		}
		n.Nlink--
		delete(d.Kids, base)
		return 0, 0
	case "rename", "renameat", "renameat2":
		d1, b1, n1, e := k.walk(pth)
		if e != 0 {
			return 0, e
		}
		d2, b2, n2, e := k.walk(pth2)
		if e != 0 {
			return 0, e
		}
		if n1 == nil || d1 == nil || d2 == nil {
			return 0, syscall.ENOENT
		}
		if name == "renameat2" && a5&1 != 0 && n2 != nil {
			return 0, syscall.EEXIST
		}
		if n1 == n2 {
			return 0, 0
		}
		if n1.Dir && strings.HasPrefix(pth2, pth+"/") {
			return 0, syscall.EINVAL
		}
		if strings.HasPrefix(pth, pth2+"/") {
			return 0, syscall.ENOTEMPTY
		}
		if n2 != nil {
			if n2.Dir && !n1.Dir {
				return 0, syscall.EISDIR
			}
			if !n2.Dir && n1.Dir {
				return 0, syscall.ENOTDIR
			}
			if n2.Dir && len(n2.Kids) > 0 {
				return 0, syscall.ENOTEMPTY
			}
			n2.Nlink--
			n2.gone = n2.Dir
		}
		delete(d1.Kids, b1)
		d2.Kids[b2] = n1
		return 0, 0
	case "link", "linkat":
		_, _, n1, e := k.walk(pth)
		if e != 0 {
			return 0, e
		}
		d2, b2, n2, e := k.walk(pth2)
		if e != 0 {
			return 0, e
		}
		if n1 == nil {
			return 0, syscall.ENOENT
		}
		if n2 != nil {
			return 0, syscall.EEXIST
		}
		if n1.Dir {
			return 0, syscall.EPERM
		}
		n1.Nlink++
		d2.Kids[b2] = n1
		return 0, 0
	case "symlink", "symlinkat":
		return 0, syscall.EPERM
	case "mkdir", "mkdirat":
		d, base, n, e := k.walk(pth)
		if e != 0 {
			return 0, e
		}
		if n != nil {
			return 0, syscall.EEXIST
		}
		d.Kids[base] = k.newInode(true)
		return 0, 0
	case "getdents":
		if !of.ino.Dir {
			return 0, syscall.ENOTDIR
		}
		return k.getdents(of, mem(a2, a3))
	case "flock":
		return k.flock(t, of, int(a2))
	case "fcntl":
		return k.fcntl(t, of, int(a2), a3)
	case "fsync", "fdatasync", "fchmod", "fadvise", "fchown", "sync_file_range", "madvise", "msync", "syncfs":
		if name == "fchmod" {
			of.ino.Mode = uint32(a2) & 0777
		}
		return 0, 0
	case "chmod", "fchmodat", "utimensat", "fchownat", "chown":
		_, _, n, e := k.walk(pth)
		if of != nil {
			n, e = of.ino, 0
		}
		if e == 0 && n == nil {
			e = syscall.ENOENT
		}
		return 0, e
	case "dup", "dup3", "dup2":
		k.nextFD++
		of.refs++
		p.fds[k.nextFD] = of
		return uintptr(k.nextFD), 0
	case "fallocate":
		return 0, syscall.EOPNOTSUPP
	case "copy_file_range":
		src, dst := p.fds[int(int32(a1))], p.fds[int(int32(a3))]
		if src == nil || dst == nil {
			return 0, syscall.EBADF
		}
		if a2 != 0 || a4 != 0 {
			return 0, syscall.EINVAL
		}
		if src.ino.Dir || dst.ino.Dir {
			return 0, syscall.EISDIR
		}
		if src.flags&syscall.O_ACCMODE == syscall.O_WRONLY || dst.flags&syscall.O_ACCMODE == syscall.O_RDONLY || dst.flags&syscall.O_APPEND != 0 {
			return 0, syscall.EBADF
		}
		if src.off >= int64(len(src.ino.Data)) {
			return 0, 0
		}
		n := int64(a5)
		if m := int64(len(src.ino.Data)) - src.off; n > m {
			n = m
		}
		if limit > 0 && n > limit {
			n = limit
		}
		if src.ino == dst.ino && src.off < dst.off+n && dst.off < src.off+n {
			return 0, syscall.EINVAL
		}
		b := append([]byte(nil), src.ino.Data[src.off:src.off+n]...)
		m, e := k.writeAt(dst.ino, dst.off, b)
		if e != 0 {
			return 0, e
		}
		src.off += int64(m)
		dst.off += int64(m)
		return uintptr(m), 0
	case "getcwd":
		b := mem(a1, a2)
		if len(p.cwd)+1 > int(a2) {
			return 0, syscall.ERANGE
		}
		copy(b, p.cwd+"\x00")
		return uintptr(len(p.cwd) + 1), 0
	case "chdir", "fchdir":
		n, e := (*Inode)(nil), syscall.Errno(0)
		if of != nil {
			n = of.ino
		} else {
			_, _, n, e = k.walk(pth)
		}
		switch {
		case e != 0:
			return 0, e
		case n == nil:
			return 0, syscall.ENOENT
		case !n.Dir:
			return 0, syscall.ENOTDIR
		}
		p.cwd = pth
		return 0, 0
	case "mmap":
		return k.mmap(t, of, a1, a2, a3, a4, a6)
	case "munmap":
		return k.munmap(t, a1, a2)
	case "shmget":
		return k.shmget(int(int32(a1)), int(a2), int(a3))
	case "shmat":
		return k.shmat(t, int(int32(a1)))
	case "shmdt":
		return k.shmdt(t, a1)
	case "shmctl":
		return k.shmctl(int(int32(a1)), int(a2), a3)
	}
	if w.Unsupported == "" {
		w.Unsupported = name
	}
	return 0, syscall.ENOSYS
}

func (k *Kernel) open(t *Task, pth string, flags int) (uintptr, syscall.Errno) {
	lim := k.w.Plan.FDLimit
	if lim > 0 && k.active && len(t.Proc.fds) >= lim {
		t.met(true, "")
		k.w.Stats.Faults["fd-limit"]++
		return 0, syscall.EMFILE
	}
	d, base, n, e := k.walk(pth)
	if e != 0 {
		return 0, e
	}
	acc := flags & syscall.O_ACCMODE
	if n == nil {
		if flags&syscall.O_CREAT == 0 {
			return 0, syscall.ENOENT
		}
		if flags&0x400000 != 0 && flags&syscall.O_DIRECTORY != 0 {
			return 0, syscall.EOPNOTSUPP // O_TMPFILE
		}
		n = k.newInode(false)
		n.Mtime = k.w.wall
		d.Kids[base] = n
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if n.Dir && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return 0, syscall.EISDIR
		}
		if !n.Dir && flags&syscall.O_DIRECTORY != 0 {
			return 0, syscall.ENOTDIR
		}
		if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
			k.truncate(n, 0)
		}
	}
	k.nextFD++
	t.Proc.fds[k.nextFD] = &OpenFile{ino: n, flags: flags, path: pth, refs: 1, proc: t.Proc}
	return uintptr(k.nextFD), 0
}

func (k *Kernel) writeAt(n *Inode, off int64, b []byte) (int, syscall.Errno) {
	if off < 0 {
		return 0, syscall.EINVAL
	}
	if len(b) == 0 {
		return 0, 0
	}
	end := off + int64(len(b))
	if grow := end - int64(len(n.Data)); grow > 0 && len(b) > 0 {
		if k.free >= 0 && grow > k.free {
			room := int64(len(b)) - (grow - k.free)
			k.w.Stats.Faults["disk-full"]++
			if t := k.w.cur; t != nil {
				t.met(true, "")
			}
			if room <= 0 {
				return 0, syscall.ENOSPC
			}
			b = b[:room]
			end = off + room
		}
		if grow = end - int64(len(n.Data)); grow > 0 {
			if k.free >= 0 {
				k.free -= grow
			}
			if end > 64<<20 {
				return 0, syscall.EFBIG
			}
			n.resize(end)
		}
	}
	copy(n.Data[off:], b)
	n.Mtime = k.w.wall
	return len(b), 0
}

func (n *Inode) resize(size int64) {
	if size <= int64(len(n.Data)) {
		tail := n.Data[size:]
		for i := range tail {
			tail[i] = 0
		}
		n.Data = n.Data[:size]
		return
	}
	if size <= int64(cap(n.Data)) {
		old := len(n.Data)
		n.Data = n.Data[:size]
		for i := old; i < int(size); i++ {
			n.Data[i] = 0
		}
		return
	}
	d := make([]byte, size, size*2) // detaches a mapped file from its mapping; the code under test never grows one
	copy(d, n.Data)
	n.Data = d
}

func (k *Kernel) truncate(n *Inode, size int64) syscall.Errno {
	if n.Dir {
		return syscall.EISDIR
	}
	if size > 64<<20 {
		return syscall.EFBIG
	}
	if k.free >= 0 && size < int64(len(n.Data)) {
		k.free += int64(len(n.Data)) - size
	}
	n.resize(size)
	n.Mtime = k.w.wall
	return 0
}

func (k *Kernel) fillStat(n *Inode, p uintptr) {
	st := (*syscall.Stat_t)(unsafe.Pointer(p))
	*st = syscall.Stat_t{}
	st.Ino = n.ID
	st.Dev = 7
	st.Nlink = uint64(n.Nlink)
	st.Mode = n.Mode | syscall.S_IFREG
	if n.Dir {
		st.Mode = n.Mode | syscall.S_IFDIR
	}
	st.Size = int64(len(n.Data))
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	st.Mtim = syscall.NsecToTimespec(n.Mtime)
	st.Ctim, st.Atim = st.Mtim, st.Mtim
}

func (k *Kernel) getdents(of *OpenFile, b []byte) (uintptr, syscall.Errno) {
	if of.ino.gone {
		return 0, syscall.ENOENT
	}
	if of.dirs == nil {
		of.dirs = []string{".", ".."}
		var names []string
		for c := range of.ino.Kids {
			names = append(names, c)
		}
		sort.Strings(names)
		of.dirs = append(of.dirs, names...)
	}
	n := 0
	for of.dpos < len(of.dirs) {
		nm := of.dirs[of.dpos]
		l := (19 + len(nm) + 1 + 7) &^ 7
		if n+l > len(b) {
			break
		}
		ino, typ := uint64(1), byte(4)
		if m := of.ino.Kids[nm]; m != nil {
			ino = m.ID
			if !m.Dir {
				typ = 8
			}
		}
		binary.LittleEndian.PutUint64(b[n:], ino)
		binary.LittleEndian.PutUint64(b[n+8:], uint64(of.dpos+1))
		binary.LittleEndian.PutUint16(b[n+16:], uint16(l))
		b[n+18] = typ
		for i := n + 19; i < n+l; i++ {
			b[i] = 0
		}
		copy(b[n+19:], nm)
		n += l
		of.dpos++
	}
	return uintptr(n), 0
}

func (k *Kernel) flock(t *Task, of *OpenFile, how int) (uintptr, syscall.Errno) {
	n := of.ino
	nb := how&4 != 0
	free := func(ex bool) bool {
		if n.ex != nil && n.ex != of {
			return false
		}
		if ex {
			for o := range n.sh {
				if o != of {
					return false
				}
			}
		}
		return true
	}
	switch how &^ 4 {
	case 8:
		if n.ex == of {
			n.ex = nil
		}
		delete(n.sh, of)
		return 0, 0
	case 1, 2:
		ex := how&^4 == 2
		// Converting a lock drops the old one first.
		if n.ex == of && !ex || n.sh[of] && ex {
			if n.ex == of {
				n.ex = nil
			}
			delete(n.sh, of)
		}
		if !free(ex) {
			if nb {
				return 0, syscall.EAGAIN
			}
			k.w.block(t, "lock on "+of.path, func() bool { return free(ex) })
		}
		if ex {
			n.ex = of
		} else {
			if n.sh == nil {
				n.sh = map[*OpenFile]bool{}
			}
			if n.ex == of {
				n.ex = nil
			}
			n.sh[of] = true
		}
		return 0, 0
	}
	return 0, syscall.EINVAL
}

func (k *Kernel) fcntl(t *Task, of *OpenFile, cmd int, arg uintptr) (uintptr, syscall.Errno) {
	switch cmd {
	case syscall.F_GETFL:
		return uintptr(of.flags), 0
	case syscall.F_SETFL, syscall.F_SETFD, syscall.F_GETFD:
		return 0, 0
	case syscall.F_DUPFD, syscall.F_DUPFD_CLOEXEC:
		k.nextFD++
		of.refs++
		t.Proc.fds[k.nextFD] = of
		return uintptr(k.nextFD), 0
	case syscall.F_SETLK, syscall.F_SETLKW:
		fl := (*syscall.Flock_t)(unsafe.Pointer(arg))
		n := of.ino
		if n.posix == nil {
			n.posix = map[*Proc]int{}
		}
		if fl.Type == syscall.F_UNLCK {
			delete(n.posix, t.Proc)
			return 0, 0
		}
		free := func() bool {
			for p, ty := range n.posix {
				if p != t.Proc && (ty == syscall.F_WRLCK || fl.Type == syscall.F_WRLCK) {
					return false
				}
			}
			return true
		}
		if !free() {
			if cmd == syscall.F_SETLK {
				return 0, syscall.EAGAIN
			}
			k.w.block(t, "record lock on "+of.path, free)
		}
		n.posix[t.Proc] = int(fl.Type)
		return 0, 0
	case 37, 38: // F_OFD_SETLK, F_OFD_SETLKW
		fl := (*syscall.Flock_t)(unsafe.Pointer(arg))
		how := map[int16]int{syscall.F_RDLCK: 1, syscall.F_WRLCK: 2, syscall.F_UNLCK: 8}[fl.Type]
		if cmd == 37 {
			how |= 4
		}
		return k.flock(t, of, how)
	}
	return 0, syscall.EINVAL
}

// ---- memory ----
//
// Shared memory is backed by an anonymous in-memory file so that the kernel's
// view and every simulated mapping are the same bytes, with the protection the
// mapping asked for; unmapped ranges fault.

const page = 4096

func roundPage(n int) int { return (n + page - 1) &^ (page - 1) }

func realMmap(fd, n int, prot int, off uintptr) (uintptr, syscall.Errno) {
	flags := syscall.MAP_SHARED
	if fd < 0 {
		flags = syscall.MAP_ANON | syscall.MAP_PRIVATE
	}
	r, _, e := syscall.RawSyscall6(syscall.SYS_MMAP, 0, uintptr(n), uintptr(prot), uintptr(flags), uintptr(fd), off)
	return r, e
}

func memfd(n int) (int, syscall.Errno) {
	name := [4]byte{'s', 'i', 'm', 0}
	r, _, e := syscall.RawSyscall(319, uintptr(unsafe.Pointer(&name[0])), 0, 0)
	if e != 0 {
		return -1, e
	}
	_, _, e = syscall.RawSyscall(syscall.SYS_FTRUNCATE, r, uintptr(n), 0)
	return int(r), e
}

type backing struct {
	fd  int
	mem []byte
}

func (k *Kernel) newBacking(n int) (*backing, syscall.Errno) {
	n = roundPage(n)
	fd, e := memfd(n)
	if e != 0 {
		return nil, e
	}
	a, e := realMmap(fd, n, syscall.PROT_READ|syscall.PROT_WRITE, 0)
	if e != 0 {
		return nil, e
	}
	b := &backing{fd: fd, mem: unsafe.Slice((*byte)(unsafe.Pointer(a)), n)}
	k.backs = append(k.backs, b)
	return b, 0
}

func (k *Kernel) mmap(t *Task, of *OpenFile, addr, length, prot, flags, off uintptr) (uintptr, syscall.Errno) {
	if of == nil && flags&syscall.MAP_ANON == 0 {
		return 0, syscall.EBADF
	}
	if length == 0 || length > 256<<20 {
		return 0, syscall.EINVAL
	}
	n := roundPage(int(length))
	if flags&syscall.MAP_ANON != 0 {
		a, e := realMmap(-1, n, syscall.PROT_READ|syscall.PROT_WRITE, 0)
		if e != 0 {
			return 0, e
		}
		k.mapped = append(k.mapped, &mapping{addr: a, n: int(length), proc: t.Proc, live: true})
		return a, 0
	}
	if off%page != 0 {
		return 0, syscall.EINVAL
	}
	acc := of.flags & syscall.O_ACCMODE
	shared := flags&syscall.MAP_SHARED != 0
	if acc == syscall.O_WRONLY || (shared && prot&syscall.PROT_WRITE != 0 && acc != syscall.O_RDWR) {
		return 0, syscall.EACCES
	}
	if of.ino.Dir {
		return 0, syscall.ENODEV
	}
	ino := of.ino
	have := 0 // bytes of this mapping that are backed by file pages
	if int(off) < len(ino.Data) {
		have = roundPage(len(ino.Data) - int(off))
		if have > n {
			have = n
		}
	}
	var a uintptr
	var e syscall.Errno
	if shared {
		if ino.back == nil {
			b, e := k.newBacking(len(ino.Data) + 1<<20)
			if e != 0 {
				return 0, e
			}
			copy(b.mem, ino.Data)
			ino.Data = b.mem[:len(ino.Data)]
			ino.back = b
		}
		a, e = realMmap(ino.back.fd, n, int(prot), off)
		if e != 0 {
			return 0, e
		}
	} else {
		a, e = realMmap(-1, n, syscall.PROT_READ|syscall.PROT_WRITE, 0)
		if e != 0 {
			return 0, e
		}
		if have > 0 {
			copy(unsafe.Slice((*byte)(unsafe.Pointer(a)), n), ino.Data[off:])
		}
	}
	if have < n {
		syscall.RawSyscall(syscall.SYS_MPROTECT, a+uintptr(have), uintptr(n-have), syscall.PROT_NONE)
	}
	k.mapped = append(k.mapped, &mapping{addr: a, n: int(length), ino: ino, of: of, proc: t.Proc, live: true})
	of.refs++
	return a, 0
}

func (k *Kernel) munmap(t *Task, addr, length uintptr) (uintptr, syscall.Errno) {
	if addr%page != 0 || length == 0 {
		return 0, syscall.EINVAL
	}
	for _, m := range k.mapped {
		if m.addr == addr && m.live && m.proc == t.Proc {
			n := roundPage(int(length))
			if n >= roundPage(m.n) {
				n = roundPage(m.n)
				k.unmapped(m)
			}
			syscall.RawSyscall(syscall.SYS_MPROTECT, m.addr, uintptr(n), syscall.PROT_NONE)
			return 0, 0
		}
	}
	return 0, 0 // unmapping nothing succeeds
}

func (k *Kernel) shmget(key, size, flags int) (uintptr, syscall.Errno) {
	for _, s := range k.shm {
		if s.key == key && !s.rm && key != 0 {
			if flags&0x200 != 0 && flags&0x400 != 0 {
				return 0, syscall.EEXIST
			}
			if size > s.size {
				return 0, syscall.EINVAL
			}
			return uintptr(s.id), 0
		}
	}
	if flags&0x200 == 0 && key != 0 {
		return 0, syscall.ENOENT
	}
	if size <= 0 || size > 256<<20 {
		return 0, syscall.EINVAL
	}
	b, e := k.newBacking(size)
	if e != 0 {
		return 0, e
	}
	s := &shmSeg{id: k.nextShm, key: key, size: size, back: b}
	k.nextShm++
	k.shm[s.id] = s
	return uintptr(s.id), 0
}

func (k *Kernel) shmat(t *Task, id int) (uintptr, syscall.Errno) {
	s := k.shm[id]
	if s == nil {
		return 0, syscall.EINVAL
	}
	a, e := realMmap(s.back.fd, roundPage(s.size), syscall.PROT_READ|syscall.PROT_WRITE, 0)
	if e != 0 {
		return 0, e
	}
	s.nattach++
	t.Proc.shm[a] = &shmAttach{s}
	k.mapped = append(k.mapped, &mapping{addr: a, n: s.size, proc: t.Proc, shm: true, live: true})
	return a, 0
}

func (k *Kernel) shmdt(t *Task, addr uintptr) (uintptr, syscall.Errno) {
	at := t.Proc.shm[addr]
	if at == nil {
		return 0, syscall.EINVAL
	}
	at.seg.nattach--
	delete(t.Proc.shm, addr)
	for _, m := range k.mapped {
		if m.addr == addr && m.shm && m.live {
			m.live = false
			syscall.RawSyscall(syscall.SYS_MPROTECT, m.addr, uintptr(roundPage(m.n)), syscall.PROT_NONE)
		}
	}
	if at.seg.rm && at.seg.nattach == 0 {
		delete(k.shm, at.seg.id)
	}
	return 0, 0
}

func (k *Kernel) shmctl(id, cmd int, buf uintptr) (uintptr, syscall.Errno) {
	s := k.shm[id]
	if s == nil {
		return 0, syscall.EINVAL
	}
	switch cmd {
	case 0: // IPC_RMID
		s.rm = true
		if s.nattach == 0 {
			delete(k.shm, id)
		}
		return 0, 0
	case 2: // IPC_STAT
		if buf != 0 {
			b := mem(buf, 112)
			for i := range b {
				b[i] = 0
			}
			binary.LittleEndian.PutUint64(b[48:], uint64(s.size))
			binary.LittleEndian.PutUint64(b[88:], uint64(s.nattach))
		}
		return 0, 0
	}
	return 0, syscall.EINVAL
}

// ShmCreate lets the harness play the process that owns the segment.
func (k *Kernel) ShmCreate(key, size int) []byte {
	id, e := k.shmget(key, size, 0x200)
	if e != 0 {
		return nil
	}
	return k.shm[int(id)].back.mem[:size]
}

// ShmAttached is the number of attachments of the segment with this key, -1
// when there is no such segment.
func (k *Kernel) ShmAttached(key int) int {
	for _, s := range k.shm {
		if s.key == key {
			return s.nattach
		}
	}
	return -1
}

// ShmSegments is the number of segments.
func (k *Kernel) ShmSegments() int { return len(k.shm) }

// Release returns the real memory used for mappings.
func (k *Kernel) Release() {
	for _, m := range k.mapped {
		syscall.RawSyscall(syscall.SYS_MUNMAP, m.addr, uintptr(roundPage(m.n)), 0)
	}
	k.mapped = nil
	for _, b := range k.backs {
		syscall.RawSyscall(syscall.SYS_MUNMAP, uintptr(unsafe.Pointer(&b.mem[0])), uintptr(len(b.mem)), 0)
		syscall.RawSyscall(syscall.SYS_CLOSE, uintptr(b.fd), 0, 0)
	}
	k.backs = nil
	k.shm = map[int]*shmSeg{}
	k.root = nil
}

package main

import (
	"encoding/binary"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"unsafe"

	"simrt"
)

// The kernel test: random sequences of system calls are made to the simulated
// kernel and to the real one, in a scratch directory, and have to give the
// same results, errors and contents.

type kcall func(trap uintptr, a ...uintptr) (uintptr, syscall.Errno)

type kside struct {
	call kcall
	dir  string
	fds  [6]int
	buf  []byte
	maps [2]kmap
	keep []interface{}
}

type kmap struct {
	addr uintptr
	n    int
}

var knames = []string{"a", "b", "c", "d", "d/x", "d/y", "a/z", "e", "e/f", "missing/x", "d/../a", "", ".", "d/", strings.Repeat("n", 256)}

func (k *kside) path(i int) uintptr {
	n := knames[i%len(knames)]
	if n != "" {
		n = k.dir + "/" + n
	}
	b := append([]byte(n), 0)
	k.keep = append(k.keep, b)
	return uintptr(unsafe.Pointer(&b[0]))
}

func kres(r uintptr, e syscall.Errno) string {
	if e != 0 {
		return e.Error()
	}
	return fmt.Sprint(int64(r))
}

func (k *kside) stat(e syscall.Errno, b []byte) string {
	if e != 0 {
		return e.Error()
	}
	st := (*syscall.Stat_t)(unsafe.Pointer(&b[0]))
	if st.Mode&syscall.S_IFMT == syscall.S_IFDIR {
		return "dir"
	}
	return fmt.Sprintf("file %d links %d", st.Size, st.Nlink)
}

// step does the i-th random thing and says what came of it.
func (k *kside) step(g *simrt.Rng) string {
	s := g.N(len(k.fds))
	fd := uintptr(k.fds[s])
	if k.fds[s] < 0 {
		fd = 9999
	}
	p, p2 := g.N(len(knames)), g.N(len(knames))
	for g.N(8) > 0 && p > 8 {
		p = g.N(len(knames))
	}
	if p2 > 8 && p > 8 { // which of two faults is reported is of no interest
		p2 = g.N(8)
	}
	if p2 > 10 && p2 != 13 {
		p2 = 13
	}
	if p > 8 && p2 > 3 {
		p2 = g.N(4)
	}
	n := g.N(40)
	buf := make([]byte, 4096)
	k.keep = append(k.keep[:0], buf)
	bp := uintptr(unsafe.Pointer(&buf[0]))
	at := ^uintptr(99)
	set := func(r uintptr, e syscall.Errno) string {
		if e != 0 {
			return e.Error()
		}
		if k.fds[s] >= 0 {
			k.call(syscall.SYS_CLOSE, uintptr(k.fds[s]))
		}
		k.fds[s] = int(r)
		return "opened"
	}
	switch c := g.N(34); c {
	case 0, 1, 2, 3:
		fl := g.PickI(syscall.O_RDONLY, syscall.O_WRONLY, syscall.O_RDWR)
		for _, x := range []int64{syscall.O_CREAT, syscall.O_CREAT, syscall.O_TRUNC, syscall.O_APPEND, syscall.O_EXCL} {
			if g.N(3) == 0 {
				fl |= x
			}
		}
		if g.N(12) == 0 {
			fl |= syscall.O_DIRECTORY
			fl &^= syscall.O_CREAT
		}
		if fl&syscall.O_EXCL != 0 && fl&syscall.O_CREAT == 0 {
			fl &^= syscall.O_EXCL
		}
		if fl&syscall.O_ACCMODE == syscall.O_RDONLY {
			fl &^= syscall.O_TRUNC // not defined
		}
		r, e := k.call(syscall.SYS_OPENAT, at, k.path(p), uintptr(fl), 0644)
		return fmt.Sprintf("open %d %q %#x: %s", s, knames[p], fl, set(r, e))
	case 4:
		r, e := k.call(syscall.SYS_CLOSE, fd)
		k.fds[s] = -1
		return fmt.Sprintf("close %d: %s", s, kres(r, e))
	case 5, 6:
		r, e := k.call(syscall.SYS_READ, fd, bp, uintptr(n))
		return fmt.Sprintf("read %d %d: %s %q", s, n, kres(r, e), buf[:n])
	case 7:
		off := g.N(60) - 3
		r, e := k.call(syscall.SYS_PREAD64, fd, bp, uintptr(n), uintptr(off))
		return fmt.Sprintf("pread %d %d @%d: %s %q", s, n, off, kres(r, e), buf[:n])
	case 8, 9, 10:
		for i := 0; i < n; i++ {
			buf[i] = byte('a' + g.N(26))
		}
		r, e := k.call(syscall.SYS_WRITE, fd, bp, uintptr(n))
		return fmt.Sprintf("write %d %d: %s", s, n, kres(r, e))
	case 11:
		for i := 0; i < n; i++ {
			buf[i] = byte('A' + g.N(26))
		}
		off := g.N(60) - 3
		r, e := k.call(syscall.SYS_PWRITE64, fd, bp, uintptr(n), uintptr(off))
		return fmt.Sprintf("pwrite %d %d @%d: %s", s, n, off, kres(r, e))
	case 12, 13:
		off, wh := g.N(80)-20, g.N(4)
		if wh == 3 {
			wh = 77
		}
		if k.isDir(s) {
			return "lseek on a directory" // where that leads is up to the file system
		}
		r, e := k.call(syscall.SYS_LSEEK, fd, uintptr(off), uintptr(wh))
		return fmt.Sprintf("lseek %d %d %d: %s", s, off, wh, kres(r, e))
	case 14:
		sz := g.N(100) - 3
		r, e := k.call(syscall.SYS_FTRUNCATE, fd, uintptr(sz))
		return fmt.Sprintf("ftruncate %d %d: %s", s, sz, kres(r, e))
	case 15:
		sz := g.N(100) - 3
		r, e := k.call(syscall.SYS_TRUNCATE, k.path(p), uintptr(sz))
		return fmt.Sprintf("truncate %q %d: %s", knames[p], sz, kres(r, e))
	case 16:
		_, e := k.call(syscall.SYS_FSTAT, fd, bp)
		return fmt.Sprintf("fstat %d: %s", s, k.stat(e, buf))
	case 17:
		_, e := k.call(syscall.SYS_NEWFSTATAT, at, k.path(p), bp, 0)
		return fmt.Sprintf("stat %q: %s", knames[p], k.stat(e, buf))
	case 18:
		fl := uintptr(0)
		if g.N(2) == 0 {
			fl = 0x200
		}
		if knames[p] == "." {
			p = 0
		}
		r, e := k.call(syscall.SYS_UNLINKAT, at, k.path(p), fl)
		return fmt.Sprintf("unlink %q %#x: %s", knames[p], fl, kres(r, e))
	case 19, 20:
		if knames[p] == "." || knames[p2] == "." {
			return "rename of ."
		}
		r, e := k.call(syscall.SYS_RENAMEAT, at, k.path(p), at, k.path(p2))
		return fmt.Sprintf("rename %q %q: %s", knames[p], knames[p2], kres(r, e))
	case 21:
		if knames[p] == "." || knames[p2] == "." {
			return "link of ."
		}
		r, e := k.call(syscall.SYS_LINKAT, at, k.path(p), at, k.path(p2), 0)
		return fmt.Sprintf("link %q %q: %s", knames[p], knames[p2], kres(r, e))
	case 22, 23:
		r, e := k.call(syscall.SYS_MKDIRAT, at, k.path(p), 0755)
		return fmt.Sprintf("mkdir %q: %s", knames[p], kres(r, e))
	case 24, 25, 26:
		how := uintptr(g.PickI(1, 2, 8, 1, 2)) | 4
		r, e := k.call(syscall.SYS_FLOCK, fd, how)
		return fmt.Sprintf("flock %d %d: %s", s, how, kres(r, e))
	case 27:
		s2 := g.N(len(k.fds))
		r, e := k.call(syscall.SYS_DUP, fd)
		if e == 0 {
			if k.fds[s2] >= 0 {
				k.call(syscall.SYS_CLOSE, uintptr(k.fds[s2]))
			}
			k.fds[s2] = int(r)
			return fmt.Sprintf("dup %d %d", s, s2)
		}
		return fmt.Sprintf("dup %d %d: %s", s, s2, e.Error())
	case 28:
		return fmt.Sprintf("list %d: %s", s, k.list(fd))
	case 29:
		r, e := k.call(syscall.SYS_FACCESSAT, at, k.path(p), 0)
		return fmt.Sprintf("access %q: %s", knames[p], kres(r, e))
	case 30: // map, once
		m := &k.maps[g.N(2)]
		if m.addr != 0 {
			r, e := k.call(syscall.SYS_MUNMAP, m.addr, uintptr(m.n))
			m.addr = 0
			return "munmap: " + kres(r, e)
		}
		prot := uintptr(g.PickI(1, 3))
		fl := uintptr(g.PickI(syscall.MAP_SHARED, syscall.MAP_SHARED, syscall.MAP_PRIVATE))
		ln := g.N(100)
		r, e := k.call(syscall.SYS_MMAP, 0, uintptr(ln), prot, fl, fd, 0)
		if e != 0 {
			return fmt.Sprintf("mmap %d %d %d %d: %s", s, ln, prot, fl, e.Error())
		}
		// Only the bytes up to the end of the file at this moment may be looked at.
		*m = kmap{r, ln}
		st := make([]byte, 256)
		k.keep = append(k.keep, st)
		k.call(syscall.SYS_FSTAT, fd, uintptr(unsafe.Pointer(&st[0])))
		have := int((*syscall.Stat_t)(unsafe.Pointer(&st[0])).Size)
		if have > ln {
			have = ln
		}
		x := string(unsafe.Slice((*byte)(unsafe.Pointer(r)), ln)[:have])
		if have > 0 && prot == 3 {
			unsafe.Slice((*byte)(unsafe.Pointer(r)), ln)[g.N(have)] = byte('0' + g.N(10))
		}
		return fmt.Sprintf("mmap %d %d %d %d: %q", s, ln, prot, fl, x)
	case 31: // an iovec
		v := [][2]uintptr{{bp, uintptr(n)}, {bp + 100, 0}, {bp + 200, uintptr(g.N(20))}}
		k.keep = append(k.keep, v)
		trap := uintptr(syscall.SYS_READV)
		if g.N(2) == 0 {
			trap = syscall.SYS_WRITEV
			for i := 0; i < 300; i++ {
				buf[i] = byte('0' + g.N(10))
			}
		}
		r, e := k.call(trap, fd, uintptr(unsafe.Pointer(&v[0])), 3)
		return fmt.Sprintf("iov %d %d: %s %q", trap, s, kres(r, e), buf[:300])
	case 32:
		r, e := k.call(syscall.SYS_FSYNC, fd)
		return fmt.Sprintf("fsync %d: %s", s, kres(r, e))
	default:
		if knames[p] == "." {
			p = 0
		}
		r, e := k.call(syscall.SYS_RMDIR, k.path(p))
		return fmt.Sprintf("rmdir %q: %s", knames[p], kres(r, e))
	}
}

func (k *kside) isDir(s int) bool {
	b := make([]byte, 256)
	if k.fds[s] < 0 {
		return false
	}
	_, e := k.call(syscall.SYS_FSTAT, uintptr(k.fds[s]), uintptr(unsafe.Pointer(&b[0])))
	return k.stat(e, b) == "dir"
}

func (k *kside) list(fd uintptr) string {
	b := make([]byte, 4096)
	var l []string
	for i := 0; i < 20; i++ {
		r, e := k.call(syscall.SYS_GETDENTS64, fd, uintptr(unsafe.Pointer(&b[0])), 4096)
		if e != 0 {
			return e.Error()
		}
		if r == 0 {
			break
		}
		for o := 0; o < int(r); {
			n := int(binary.LittleEndian.Uint16(b[o+16:]))
			nm := string(b[o+19 : o+n])
			l = append(l, fmt.Sprint(nm[:strings.IndexByte(nm, 0)], b[o+18]))
			o += n
		}
	}
	sort.Strings(l)
	k.call(syscall.SYS_LSEEK, fd, 0, 0)
	return strings.Join(l, ",")
}

// shmSteps is a sequence about shared memory segments.
func (k *kside) shmSteps(g *simrt.Rng, keys []uintptr) (out []string) {
	var at []kmap
	ids := map[uintptr]uintptr{}
	for i := 0; i < 40; i++ {
		key := keys[g.N(len(keys))]
		sz := g.N(6000)
		switch g.N(6) {
		case 0, 1:
			fl := uintptr(g.PickI(0, 0x200, 0x600)) | 0600
			r, e := k.call(syscall.SYS_SHMGET, key, uintptr(sz), fl)
			if e == 0 {
				ids[key] = r
				out = append(out, fmt.Sprintf("shmget %d %#x ok", sz, fl))
			} else {
				out = append(out, fmt.Sprintf("shmget %d %#x %s", sz, fl, e.Error()))
			}
		case 2:
			id, ok := ids[key]
			if !ok {
				continue
			}
			r, e := k.call(syscall.SYS_SHMAT, id, 0, 0)
			if e != 0 {
				out = append(out, "shmat "+e.Error())
				continue
			}
			b := make([]byte, 112)
			_, e = k.call(syscall.SYS_SHMCTL, id, 2, uintptr(unsafe.Pointer(&b[0])))
			n := int(binary.LittleEndian.Uint64(b[48:]))
			at = append(at, kmap{r, n})
			out = append(out, fmt.Sprintf("shmat: %s size %d attached %d", kres(0, e), n, binary.LittleEndian.Uint64(b[88:])))
		case 3:
			if len(at) > 0 {
				m := at[g.N(len(at))]
				if m.n > 0 {
					j := g.N(m.n)
					p := (*byte)(unsafe.Pointer(m.addr + uintptr(j)))
					out = append(out, fmt.Sprintf("byte %d was %d", j, *p))
					*p += byte(1 + g.N(100))
				}
			}
		case 4:
			if len(at) > 0 {
				j := g.N(len(at))
				r, e := k.call(syscall.SYS_SHMDT, at[j].addr)
				out = append(out, "shmdt "+kres(r, e))
				at = append(at[:j], at[j+1:]...)
			}
		case 5:
			if id, ok := ids[key]; ok && g.N(2) == 0 {
				r, e := k.call(syscall.SYS_SHMCTL, id, 0, 0)
				out = append(out, "rmid "+kres(r, e))
				if g.N(2) == 0 {
					delete(ids, key)
				}
			}
		}
	}
	for _, m := range at {
		k.call(syscall.SYS_SHMDT, m.addr)
	}
	for _, id := range ids {
		k.call(syscall.SYS_SHMCTL, id, 0, 0)
	}
	return out
}

func (k *kside) tree() string {
	var l []string
	for _, n := range []string{"a", "b", "c", "d", "d/x", "d/y", "e", "e/f"} {
		b := make([]byte, 4096)
		p := append([]byte(k.dir+"/"+n), 0)
		r, e := k.call(syscall.SYS_OPENAT, ^uintptr(99), uintptr(unsafe.Pointer(&p[0])), 0, 0)
		if e != 0 {
			continue
		}
		m, e := k.call(syscall.SYS_READ, r, uintptr(unsafe.Pointer(&b[0])), 4096)
		k.call(syscall.SYS_CLOSE, r)
		if e != 0 {
			l = append(l, n+": "+e.Error())
		} else {
			l = append(l, fmt.Sprintf("%s: %q", n, b[:m]))
		}
	}
	return strings.Join(l, " ")
}

func krun(call kcall, dir string, seed uint64, shm []uintptr) (out []string) {
	k := &kside{call: call, dir: dir}
	for i := range k.fds {
		k.fds[i] = -1
	}
	g := simrt.NewRng(seed)
	if len(shm) > 0 {
		return k.shmSteps(g, shm)
	}
	for i := 0; i < 120; i++ {
		out = append(out, k.step(g))
	}
	for i, f := range k.fds {
		if f >= 0 {
			call(syscall.SYS_CLOSE, uintptr(f))
			k.fds[i] = -1
		}
	}
	for _, m := range k.maps {
		if m.addr != 0 {
			call(syscall.SYS_MUNMAP, m.addr, uintptr(m.n))
		}
	}
	return append(out, k.tree())
}

func real(trap uintptr, a ...uintptr) (uintptr, syscall.Errno) {
	var x [6]uintptr
	copy(x[:], a)
	r, _, e := syscall.RawSyscall6(trap, x[0], x[1], x[2], x[3], x[4], x[5])
	return r, e
}

func simulated(trap uintptr, a ...uintptr) (uintptr, syscall.Errno) {
	var x [6]uintptr
	copy(x[:], a)
	r, _, e := syscall.Syscall6(trap, x[0], x[1], x[2], x[3], x[4], x[5])
	return r, e
}

// kernelTest returns how many sequences gave different results.
func kernelTest(first uint64, max int) (bad int) {
	base, err := os.MkdirTemp("", "vsim-kernel")
	if err != nil {
		fmt.Println(err)
		return 1
	}
	defer os.RemoveAll(base)
	calls := map[string]int{}
	for i := 0; i < max; i++ {
		seed := first + uint64(i)
		var shm []uintptr
		if i%4 == 3 {
			shm = []uintptr{uintptr(0x5a000000 + os.Getpid()<<4&0xfffff0), uintptr(0x5a000001 + os.Getpid()<<4&0xfffff0)}
		}
		dir := fmt.Sprintf("%s/%d", base, i)
		os.Mkdir(dir, 0755)
		want := krun(real, dir, seed, shm)
		p := &simrt.Plan{Prop: "kernel", Seed: seed, Fixed: true, Clock: 1600000000e9}
		w := simrt.NewWorld(p)
		w.K.MkdirAll(dir)
		var got []string
		w.Run(func() {
			w.RunTasks(0, []simrt.Spawn{{ID: 0, Proc: w.Proc(0), Name: "0", Fn: func(t *simrt.Task) { got = krun(simulated, dir, seed, shm) }}})
		})
		w.K.Release()
		os.RemoveAll(dir)
		for j := range want {
			calls[strings.SplitN(want[j], " ", 2)[0]]++
			if j >= len(got) || got[j] != want[j] {
				x := "nothing"
				if j < len(got) {
					x = got[j]
				}
				bad++
				if bad <= 20 {
					if os.Getenv("VSIM_KTRACE") != "" {
						fmt.Println(strings.Join(want[:j+1], "\n"))
					}
					fmt.Printf("sequence %d step %d\n  real      %.300s\n  simulated %.300s\n", seed, j, want[j], x)
				}
				break
			}
		}
		if w.Fail != nil {
			fmt.Println("sequence", seed, w.Fail.Class, w.Fail.Detail)
			bad++
		}
	}
	fmt.Printf("kernel: %d sequences of calls to the real and to the simulated kernel, %d differ\n", max, bad)
	return bad
}

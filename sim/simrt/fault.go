package simrt

import (
	"fmt"
	"sort"
	"strings"
	"syscall"
)

var errnos = map[string]syscall.Errno{
	"eio": syscall.EIO, "enospc": syscall.ENOSPC, "edquot": syscall.EDQUOT, "emfile": syscall.EMFILE, "enfile": syscall.ENFILE,
	"eacces": syscall.EACCES, "eintr": syscall.EINTR, "enolck": syscall.ENOLCK, "enomem": syscall.ENOMEM, "erofs": syscall.EROFS,
	"keepmap": syscall.ENOMEM, "noctl": syscall.EACCES,
	"eperm": syscall.EPERM, "estale": syscall.ESTALE, "ebusy": syscall.EBUSY, "enotsup": syscall.EOPNOTSUPP,
}

func errnoOf(kind string) syscall.Errno {
	if e, ok := errnos[kind]; ok {
		return e
	}
	return syscall.EIO
}

// eligible says whether a fault kind makes sense for a call.
func eligible(kind, class string, n int64) bool {
	switch kind {
	case "crash", "crash-after", "stall":
		return class != "close" || kind != "stall"
	case "torn":
		return class == "write" && n > 1
	case "short":
		return (class == "write" || class == "read" || class == "copy_file_range") && n > 1
	case "shortnospc", "shorteio":
		return (class == "write" || class == "read" && kind == "shorteio") && n > 1
	case "eio":
		switch class {
		case "read", "write", "trunc", "fsync", "getdents", "stat", "open", "create", "unlink", "rename", "close", "copy_file_range", "lseek":
			return class != "lseek"
		}
	case "enospc", "edquot":
		return class == "create" || class == "write" || class == "mkdir" || class == "rename" || class == "link" || class == "close"
	case "emfile", "enfile":
		return class == "open" || class == "create"
	case "eacces", "erofs":
		return class == "create" || class == "unlink" || class == "rename" || class == "trunc" || class == "mkdir" || (kind == "eacces" && (class == "open" || class == "stat"))
	case "estale":
		return class == "read" || class == "write" || class == "stat" || class == "open"
	case "eintr":
		return class == "open" || class == "create" || class == "read" || class == "write" || class == "flock" // the kernel never interrupts ftruncate and fsync of a local file
	case "enolck":
		return class == "flock" || class == "fcntl"
	case "keepmap":
		return class == "munmap" || class == "shmdt"
	case "noctl":
		return class == "shmctl"
	case "enomem":
		return class == "mmap" || class == "shmat" || class == "shmget" || class == "open" || class == "create"
	}
	return false
}

func (w *World) faultFor(t *Task, class, name, pth string, of *OpenFile, cnt uintptr, flags int) *Fault {
	p := w.Plan
	if !w.K.active {
		return nil
	}
	for i := range p.Standing {
		s := &p.Standing[i]
		if s.Phase == w.Phase && (s.Call == "any" && class != "close" && class != "flock" || s.Call == class) && (s.Path == "" || strings.HasSuffix(pth, s.Path) || strings.Contains(pth, s.Path) && strings.HasSuffix(s.Path, "/")) {
			for nm, e := range errnos {
				if int(e) == s.Errno && nm != "keepmap" && nm != "noctl" {
					return &Fault{T: t.ID, N: t.sysn, Kind: nm, Call: "standing"}
				}
			}
		}
	}
	if p.Fixed {
		if l := w.fltMap[[2]int{t.ID, t.sysn}]; len(l) > 0 {
			return &l[0]
		}
		return nil
	}
	g := &p.Gen
	if len(g.Kinds) == 0 || w.nfault >= g.Max || w.Phase != g.Phase {
		return nil
	}
	if g.Path != "" && !strings.HasSuffix(pth, g.Path) {
		return nil
	}
	kinds := make([]string, 0, len(g.Kinds))
	for kd := range g.Kinds {
		kinds = append(kinds, kd)
	}
	sort.Strings(kinds)
	n := int64(cnt)
	if class == "read" && of != nil {
		if m := int64(len(of.ino.Data)) - of.off; n > m {
			n = m
		}
	}
	for _, kd := range kinds {
		if !eligible(kd, class, n) || !w.frng.Chance(g.Kinds[kd]) {
			continue
		}
		f := Fault{T: t.ID, N: t.sysn, Kind: kd, Call: fmt.Sprintf("%s %s", name, pth)}
		switch kd {
		case "stall":
			if w.frng.Chance(0.3) {
				f.Arg = 1e6 << w.frng.N(17)
			}
		case "torn", "short", "shortnospc", "shorteio":
			if n < 2 {
				continue
			}
			f.Arg = 1 + int64(w.frng.N(int(n-1)))
			if w.frng.Chance(0.3) && n > 128 {
				f.Arg = 128 * (1 + int64(w.frng.N(int(n/128))))
				if f.Arg >= n {
					f.Arg = n - 1
				}
			}
		}
		w.nfault++
		p.Faults = append(p.Faults, f)
		return &f
	}
	return nil
}

package main

import (
	"fmt"
	"sort"
	"strings"

	"simapi"
	"simrt"
)

// C14: shared memory and mapped files.

func init() {
	add("C14", &Scenario{Name: "shared", Gen: genC14, Check: checkC14})
}

// shmLayout is where pttbbs keeps things in its shared memory.
type shmLayout struct {
	align, users, idlen, cool, bits int64
}

func (l shmLayout) args() []int64 { return []int64{l.align, l.users, l.idlen, l.cool, l.bits} }

func (l shmLayout) userID() int64 { return 8 }
func (l shmLayout) money() int64 {
	n := 8 + (l.users+1)*(l.idlen+1)
	if l.align > 1 {
		n = (n + l.align - 1) / l.align * l.align
	}
	return n + 4*l.users + 4
}
func (l shmLayout) info() int64 {
	n := l.money() + 4*l.users + 4
	if l.cool != 0 {
		n += 4 * l.users
	}
	return n + 4 + 4<<uint(l.bits) + 4 + 8
}

// oneOf n: among the last ones when they are many.
func (g *Gen) oneOf(n int64) int64 {
	if n > 20 && g.Chance(0.7) {
		return n - 1 - int64(g.N(20))
	}
	return int64(g.N(int(n)))
}

func genC14(g *Gen) {
	l := shmLayout{align: g.PickI(1, 2, 4, 8, 0), users: int64(g.Range(1, 20)), idlen: g.PickI(12, 12, 8), cool: int64(g.N(2)), bits: int64(g.Range(0, 8))}
	infos := int64(g.N(3))
	if g.Chance(0.015) { // a large site
		l.users = g.PickI(300, 5100, 20000, 20000)
	}
	few := l.users <= 20
	for i, v := range l.args() {
		g.P.Params[fmt.Sprintf("l%d", i)] = v
	}
	g.P.Params["infos"] = infos
	// Objects: those big enough for the layout and small ones.
	type object struct {
		conn []string
		size int64
		big  bool
	}
	var objs []object
	var setup, closing []simrt.Op
	n := g.Range(1, 3)
	for i := 0; i < n; i++ {
		o := object{big: g.Chance(0.5)}
		o.size = g.PickI(1, 2, 20, 4095, 4096, 4097, 9000, int64(g.Range(1, 20000)))
		if o.big {
			o.size = l.info() + 3484*infos + int64(g.N(100))
		}
		h := fmt.Sprintf("own%d", i)
		switch g.N(3) {
		case 0:
			key := int64(1000 + i)
			o.conn = []string{fmt.Sprintf("shmkey:%d", key)}
			setup = append(setup, opI("shm-create", []int64{key, o.size}, h))
		case 1:
			f := fmt.Sprintf("@/shm%d", i)
			o.conn = []string{f, "file:" + f}
			setup = append(setup, opI("mmap-create", []int64{o.size}, h, f))
		default:
			f := fmt.Sprintf("@/dump%d.shm", i)
			o.conn = []string{f, "file:" + f}
			g.File(f, string(g.Bytes(int(o.size))))
			setup = append(setup, op("cache-open", h, "file:"+f))
		}
		setup = append(setup, opB("cache-set", string(g.Bytes(int(o.size))), h))
		setup[len(setup)-1].I = []int64{0}
		if o.big { // user IDs are text
			for u := int64(0); u < l.users; u++ {
				if !few && u < l.users-20 {
					continue
				}
				id := g.Word(g.N(int(l.idlen + 1)))
				x := opB("cache-set", id+"\x00", h)
				x.I = []int64{l.userID() + u*(l.idlen+1)}
				setup = append(setup, x)
			}
		}
		objs = append(objs, o)
		if g.Chance(0.5) {
			setup = append(setup, op("cache-close", h))
		} else {
			closing = append(closing, op("cache-close", h))
		}
	}
	if g.Chance(0.3) {
		g.File("@/empty", "")
	}
	if g.Chance(0.3) {
		g.Dir("@/dir")
	}
	old := 0 // files made anew while nobody uses them
	if g.Chance(0.3) {
		old = g.Range(1, 2)
		for i := 0; i < old; i++ {
			g.File(fmt.Sprintf("@/shmold%d", i), string(g.Bytes(g.Range(1, 9000))))
		}
	}
	g.Task(2, -1, setup...)
	for t, nt := 0, g.Range(1, 4); t < nt; t++ {
		var ops []simrt.Op
		var open []string
		for k := g.Range(1, 3); k > 0; k-- {
			if g.Chance(0.12) {
				bad := g.Pick("shmkey:4711", "shmkey:x1", "shmkey:", "file:@/missing", "@/missing", "memory:5", "file:@/empty", "file:@/dir", "@/no/such")
				ops = append(ops, op("cache-open", fmt.Sprintf("bad%d", g.Uniq()), bad))
				continue
			}
			if g.Chance(0.08) {
				h := fmt.Sprintf("new%d", g.Uniq())
				sz := int64(g.Range(1, 9000))
				ops = append(ops, opI("mmap-create", []int64{sz}, h, "@/"+h), op("cache-len", h), opI("cache-get", []int64{0, sz}, h), op("cache-close", h))
				continue
			}
			if old > 0 && g.Chance(0.3) {
				old--
				h := fmt.Sprintf("new%d", g.Uniq())
				sz := int64(g.Range(1, 9000))
				ops = append(ops, opI("mmap-create", []int64{sz}, h, fmt.Sprintf("@/shmold%d", old)), op("cache-len", h), opI("cache-get", []int64{0, sz}, h), op("cache-close", h))
				continue
			}
			o := objs[g.N(len(objs))]
			h := fmt.Sprintf("h%d", g.Uniq())
			if strings.HasPrefix(o.conn[0], "shmkey:") && g.Chance(0.12) { // what there is already
				var key int64
				fmt.Sscanf(o.conn[0], "shmkey:%d", &key)
				sz := g.PickI(o.size, int64(g.Range(1, int(o.size))), o.size, o.size+1)
				ops = append(ops, opI("shm-create", []int64{key, sz}, h), op("cache-len", h), opI("cache-get", []int64{0, min(sz, o.size)}, h), op("cache-close", h))
				continue
			}
			conn := o.conn[g.N(len(o.conn))]
			pc := o.big && g.Chance(0.6)
			if pc {
				ops = append(ops, opI("pcache-open", l.args(), h, conn))
			} else {
				ops = append(ops, op("cache-open", h, conn))
			}
			for j := g.Range(1, 6); j > 0; j-- {
				off := int64(g.N(int(o.size)))
				if o.big && g.Chance(0.5) { // where something is
					off = []int64{0, 8 + int64(g.N(int(l.users*(l.idlen+1)))), l.money() + 4*int64(g.N(int(l.users))), l.info() + int64(g.N(3484))}[g.N(4)]
					if off >= o.size {
						off = o.size - 1
					}
				}
				m := int64(g.Range(1, 64))
				if off+m > o.size {
					m = o.size - off
				}
				switch x := g.N(10); {
				case x < 3:
					b := string(g.Bytes(int(m)))
					if o.big && off >= 8 && off < l.money() { // keep the IDs text
						b = strings.Repeat(g.Pick("a", "Z", "0"), int(m))
					}
					y := opB("cache-set", b, h)
					y.I = []int64{off}
					ops = append(ops, y)
				case x < 5:
					ops = append(ops, opI("cache-get", []int64{off, m}, h))
				case x < 6:
					ops = append(ops, op("cache-len", h))
				case !pc:
				case x < 7:
					ops = append(ops, op("pcache-version", h))
				case x < 8:
					ops = append(ops, opI("pcache-user", []int64{g.oneOf(l.users)}, h))
				case x < 9:
					ops = append(ops, opI("pcache-money", []int64{g.oneOf(l.users)}, h))
				case infos > 0:
					ops = append(ops, opI("pcache-info", []int64{int64(g.N(int(infos)))}, h))
				}
			}
			if g.Chance(0.3) {
				open = append(open, h)
			} else {
				ops = append(ops, op("cache-close", h), op("info-kept", h))
			}
		}
		for _, h := range open {
			ops = append(ops, op("cache-close", h), op("info-kept", h))
		}
		g.Task(g.N(3), 0, ops...)
	}
	// Afterwards, one after the other: everything is as it was left; then each
	// object is removed and made anew while somebody still has the old one.
	last := closing
	var hold, renew, look, end []simrt.Op
	for i, o := range objs {
		h := fmt.Sprintf("last%d", i)
		last = append(last, op("cache-open", h, o.conn[0]), opI("cache-get", []int64{0, o.size}, h), op("cache-close", h))
		key := int64(1000 + i)
		shm := strings.HasPrefix(o.conn[0], "shmkey:")
		rm, mk := op("mmap-rm", o.conn[0]), func(h string, n int64) simrt.Op { return opI("mmap-create", []int64{n}, h, o.conn[0]) }
		if shm {
			rm, mk = opI("shm-rm", []int64{key}), func(h string, n int64) simrt.Op { return opI("shm-create", []int64{key, n}, h) }
		}
		set := func(h string, n int64) simrt.Op {
			x := opB("cache-set", string(g.Bytes(int(n))), h)
			x.I = []int64{0}
			return x
		}
		part := func() int64 { return int64(g.Range(1, int(o.size))) }
		if h, r := fmt.Sprintf("old%d", i), fmt.Sprintf("re%d", i); g.Chance(0.5) {
			size := g.PickI(1, o.size, o.size+1, o.size+4096, int64(g.Range(1, 20000)))
			hold = append(hold, op("cache-open", h, o.conn[0]), set(h, part()))
			renew = append(renew, rm, op("cache-open", r+"gone", o.conn[0]), mk(r, size), set(r, int64(g.Range(1, int(size)))), op("cache-len", r))
			if g.Chance(0.5) {
				renew = append(renew, op("cache-close", r))
			} else {
				end = append(end, op("cache-close", r))
			}
			look = append(look, opI("cache-get", []int64{0, o.size}, h), set(h, part()), op("cache-open", h+"new", o.conn[0]), op("cache-len", h+"new"),
				opI("cache-get", []int64{0, size}, h+"new"), op("cache-close", h), opI("cache-get", []int64{0, size}, h+"new"), op("cache-close", h+"new"))
		}
		end = append(end, rm, op("cache-open", h+"x", o.conn[0]))
	}
	g.Task(2, 1, last...)
	g.Task(0, 2, hold...)
	g.Task(1, 3, renew...)
	g.Task(0, 4, look...)
	g.Task(1, 5, end...)
	g.Schedule(true)
	g.FaultMix(0.1, 0.35, 0.2)
	if g.Chance(0.2) {
		g.P.Gen.Kinds = map[string]float64{"noctl": 0.25}
		g.P.Gen.Max = 2
		g.P.Gen.Phase = []int{0, 3, 5}[g.N(3)]
	}
}

func checkC14(c *Ctx) {
	if !c.allReturned() {
		return
	}
	var a [5]int64
	for i := range a {
		a[i] = c.P.Params[fmt.Sprintf("l%d", i)]
	}
	l := shmLayout{a[0], a[1], a[2], a[3], a[4]}
	// Everything takes effect where it returns.
	var ev []*Event
	for _, e := range c.Ev {
		if e.Done {
			ev = append(ev, e)
		}
	}
	sort.SliceStable(ev, func(i, j int) bool { return ev[i].Ret < ev[j].Ret })
	mem := map[string][]byte{}    // object -> bytes
	cur := map[string]string{}    // name -> object
	handle := map[string]string{} // process and handle -> object
	was := map[string]string{}    // also those which are closed
	view := map[string]int64{}    // of those opened with a size
	kept := map[string]simapi.Rec{}
	name := func(conn string) string { return strings.TrimPrefix(conn, "file:") }
	for f, s := range c.Init {
		mem[f] = []byte(s)
		cur[f] = f
	}
	bad := func(class string, e *Event, f string, x ...interface{}) {
		c.W.Violate(class, "%s: %s", e, fmt.Sprintf(f, x...))
	}
	touched := func(e *Event, o string, from, n int64) bool {
		for _, s := range ev {
			if s != e && s.Op.K == "cache-set" && s.OK() && s.Inv < e.Ret && s.Ret > e.Inv && was[idx(s.Op.S[0]+"/", s.Proc)] == o && s.Op.I[0] < from+n && from < s.Op.I[0]+int64(len(s.Op.B)) {
				return true
			}
		}
		return false
	}
	for _, e := range ev {
		o := e.Op
		hk := ""
		if len(o.S) > 0 {
			hk = idx(o.S[0]+"/", e.Proc)
		}
		if e.Res.Err == "harness: no such handle" {
			continue
		}
		obj, isOpen := handle[hk]
		b := mem[obj]
		switch o.K {
		case "shm-create", "mmap-create":
			n := o.I[len(o.I)-1]
			obj = fmt.Sprintf("shmkey:%d", o.I[0])
			if o.K == "mmap-create" {
				obj = o.S[1]
			}
			if l := int64(len(mem[cur[obj]])); cur[obj] != "" && o.K == "shm-create" { // there is one
				switch {
				case e.OK() && n > l:
					bad("false-success", e, "there is one of %d bytes", l)
					return
				case e.OK():
					handle[hk], was[hk], view[hk] = cur[obj], cur[obj], n
				case n <= l && !c.noSpurious(e):
					return
				}
				continue
			}
			if !e.OK() {
				if !c.noSpurious(e) {
					return
				}
				delete(cur, obj)
				continue
			}
			if mem[obj] != nil {
				cur[obj], obj = fmt.Sprintf("%s %d", obj, e.Ret), fmt.Sprintf("%s %d", obj, e.Ret)
			} else {
				cur[obj] = obj
			}
			mem[obj] = make([]byte, n)
			handle[hk], was[hk] = obj, obj
		case "cache-open", "pcache-open":
			obj = cur[name(o.S[1])]
			b, ok := mem[obj]
			ok = ok && len(b) > 0
			switch {
			case e.OK() && !ok:
				bad("false-success", e, "there is no such shared memory")
				return
			case e.OK():
				handle[hk], was[hk] = obj, obj
			case ok:
				if !c.noSpurious(e) {
					return
				}
			}
		case "shm-rm", "mmap-rm":
			obj := o.S
			n := ""
			if o.K == "shm-rm" {
				n = fmt.Sprintf("shmkey:%d", o.I[0])
			} else {
				n = obj[0]
			}
			if e.OK() {
				if cur[n] == "" {
					bad("false-success", e, "there was no such shared memory")
					return
				}
				delete(cur, n)
			} else if cur[n] != "" && !c.noSpurious(e) {
				return
			}
		case "info-kept":
			if w, ok := kept[hk]; ok && !sameRec(e.Res.Recs[0], w) {
				bad("changed-later", e, "what was read as %s is now %s", show(w), show(e.Res.Recs[0]))
				return
			}
		case "cache-close":
			delete(handle, hk)
			if !c.noSpurious(e) {
				return
			}
		default:
			if o.K == "cache-get" && isOpen && o.I[0]+o.I[1] > int64(len(b)) {
				continue
			}
			if !isOpen || !e.OK() {
				bad("failed", e, "the handle is open")
				return
			}
			switch o.K {
			case "cache-set":
				copy(b[o.I[0]:], o.B)
			case "cache-len":
				n, ok := view[hk]
				if !ok {
					n = int64(len(b))
				}
				if e.Res.N[0] != n {
					bad("wrong-size", e, "%d bytes instead of %d", e.Res.N[0], n)
				}
			case "cache-get":
				if w := string(b[o.I[0] : o.I[0]+o.I[1]]); string(e.Res.Raw) != w {
					bad("wrong-bytes", e, "%q instead of %q", e.Res.Raw, w)
				}
			case "pcache-version":
				if w := int64(u32(string(b), 0)); e.Res.N[0] != w && !touched(e, obj, 0, 4) {
					bad("wrong-field", e, "%d instead of %d", e.Res.N[0], w)
				}
			case "pcache-user":
				p := l.userID() + o.I[0]*(l.idlen+1)
				if w := cstr(string(b[p : p+l.idlen+1])); e.Res.S != w && !touched(e, obj, p, l.idlen+1) {
					bad("wrong-field", e, "%q instead of %q", e.Res.S, w)
				}
			case "pcache-money":
				p := l.money() + 4*o.I[0]
				if w := int64(int32(u32(string(b), int(p)))); e.Res.N[0] != w && !touched(e, obj, p, 4) {
					bad("wrong-field", e, "%d instead of %d", e.Res.N[0], w)
				}
			case "pcache-info":
				p := l.info() + 3484*o.I[0]
				kept[hk] = e.Res.Recs[0]
				if why := sameInfo(e.Res.Recs[0], decUserInfo(string(b[p:p+3484]))); why != "" && !touched(e, obj, p, 3484) {
					bad("wrong-field", e, "%s", why)
				}
			}
			if c.W.Fail != nil {
				return
			}
			for h, x := range handle {
				if x == obj && !strings.HasSuffix(h, fmt.Sprintf("/%d", e.Proc)) && o.K == "cache-get" {
					c.Hit("read what another process maps too")
				}
			}
		}
	}
	for _, e := range c.Ev {
		if !e.Done && e.Op.K == "mmap-create" {
			delete(cur, e.Op.S[1])
		}
	}
	for f, obj := range cur {
		if b := mem[obj]; strings.HasPrefix(f, "/") && len(b) > 0 {
			if s, ok := c.W.K.ReadFile(f); !ok || string(s) != string(b) {
				c.W.Violate("file-differs", "%s does not hold what its mappings show", c.rel(f))
				return
			}
		}
	}
	for i := 0; i < 3; i++ {
		p := c.W.Proc(i)
		if p.Dead {
			continue
		}
		left := false
		for h := range handle {
			left = left || strings.HasSuffix(h, fmt.Sprintf("/%d", i))
		}
		if n, m := c.W.K.LiveMappings(p), len(c.W.K.OpenFDs(p)); !left && n+m > 0 {
			c.W.Violate("leak", "everything is closed, but process %d still has %d mappings and %d descriptors: %v", i, n, m, c.W.K.OpenFDs(p))
			return
		}
	}
	for f := range c.W.K.Walk() {
		if _, ok := c.Init[f]; !ok && !strings.Contains(f, "/new") && !strings.Contains(f, "/shm") {
			c.W.Violate("stray", "%s appeared", c.rel(f))
			return
		}
	}
}

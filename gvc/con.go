package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Locks, workers and shared memory.
//
// The lock state is concrete on every path. Guarded memory is what a protocol
// declaration names: fields of the type, the maps and slices behind them, and
// ghost state standing for the objects behind an interface. Memory allocated
// by the operation and not yet stored in guarded memory is its own.

type lockInfo struct {
	class string // field of the protocol type, "" for a local lock
	mode  int    // 1 read, 2 write
	task  bool   // taken by the running worker
}

type acc struct {
	w, r     bool
	locks    map[*Term]bool // held at every access; nil before the first
	appends  bool           // only appended to
	slots    bool           // written element by element, without a lock
	lastTask int
	many     bool // touched by more than one worker
}

func (a *acc) clone() *acc {
	b := *a
	if a.locks != nil {
		b.locks = map[*Term]bool{}
		for k := range a.locks {
			b.locks[k] = true
		}
	}
	return &b
}

type taskState struct {
	id       int
	alloc    *Term // allocation counter when it started
	cell0    int   // cells from here on are its own
	wg       *Term
	done     bool
	appended map[*Term]*Term
	reads    []*Term
	branched []*Term
	cells    map[int]bool
}

type conState struct {
	proto    *Protocol
	repo     *Term
	held     map[*Term]lockInfo
	wrote    bool // guarded state has been changed
	released bool // a protocol lock has been given back since the last restart
	base     *Term
	pend     map[*Term]bool // wait groups with workers under way (Zero: workers nobody awaits)
	wgs      []*Term
	task     *taskState
	tasks    int
	taskLock map[*Term]bool
	cells    map[int]*acc
	slices   map[string]*acc
}

func (c *conState) clone() *conState {
	d := *c
	d.held = map[*Term]lockInfo{}
	for k, v := range c.held {
		d.held[k] = v
	}
	d.pend = map[*Term]bool{}
	for k := range c.pend {
		d.pend[k] = true
	}
	d.taskLock = map[*Term]bool{}
	for k := range c.taskLock {
		d.taskLock[k] = true
	}
	d.wgs = append([]*Term(nil), c.wgs...)
	d.cells = map[int]*acc{}
	for k, v := range c.cells {
		d.cells[k] = v.clone()
	}
	d.slices = map[string]*acc{}
	for k, v := range c.slices {
		d.slices[k] = v.clone()
	}
	if c.task != nil {
		t := *c.task
		t.appended = map[*Term]*Term{}
		for k, v := range c.task.appended {
			t.appended[k] = v
		}
		t.cells = map[int]bool{}
		for k := range c.task.cells {
			t.cells[k] = true
		}
		t.reads = append([]*Term(nil), c.task.reads...)
		t.branched = append([]*Term(nil), c.task.branched...)
		d.task = &t
	}
	return &d
}

func joinAcc(a, b *acc) (*acc, bool) {
	if a == nil {
		return b.clone(), true
	}
	g := false
	or := func(p *bool, q bool) {
		if q && !*p {
			*p, g = true, true
		}
	}
	or(&a.w, b.w)
	or(&a.r, b.r)
	or(&a.slots, b.slots)
	or(&a.many, b.many)
	if a.appends && !b.appends {
		a.appends, g = false, true
	}
	for k := range a.locks {
		if !b.locks[k] {
			delete(a.locks, k)
			g = true
		}
	}
	if b.lastTask > a.lastTask {
		a.lastTask = b.lastTask
	}
	return a, g
}

// join widens c by what b has done; known tells which cells exist in c's state.
func (c *conState) join(b *conState, known func(int) bool) bool {
	g := false
	or := func(p *bool, q bool) {
		if q && !*p {
			*p, g = true, true
		}
	}
	or(&c.wrote, b.wrote)
	or(&c.released, b.released)
	for w := range b.pend {
		mine := w == Zero
		for _, k := range c.wgs {
			mine = mine || k == w
		}
		if !mine {
			w = Zero
		}
		if !c.pend[w] {
			c.pend[w] = true
			g = true
		}
	}
	for l := range b.taskLock {
		if !c.taskLock[l] {
			c.taskLock[l] = true
			g = true
		}
	}
	for id, a := range b.cells {
		if !known(id) {
			continue
		}
		n, ch := joinAcc(c.cells[id], a)
		c.cells[id] = n
		g = g || ch
	}
	for k, a := range b.slices {
		n, ch := joinAcc(c.slices[k], a)
		c.slices[k] = n
		g = g || ch
	}
	if b.tasks > c.tasks {
		c.tasks = b.tasks
		if c.tasks == 1 {
			g = true
		}
	}
	return g
}

var tagC18 = map[string]bool{"C18": true, "C20": true}

// Workers are run one after the other where they are started; what the
// operation is shown to do rests on their not interfering.
var tagRace = map[string]bool{"C18": true, "C20": true, "C12": true, "C13": true}
var tagC19 = map[string]bool{"C19": true}
var tagC20 = map[string]bool{"C20": true}

const pubKey = "G:_pub"

func setSort() Sort { return ArrSort(SInt, SBool) }

func (x *Exec) pub(st *State) *Term { return x.heap(st, pubKey, setSort()) }

func (x *Exec) initCon(st *State, fc *FuncContract, env map[string]DV) {
	if fc.Conc == nil {
		return
	}
	c := &conState{held: map[*Term]lockInfo{}, pend: map[*Term]bool{}, taskLock: map[*Term]bool{}, cells: map[int]*acc{}, slices: map[string]*acc{}, base: x.A0}
	for _, p := range fc.Params {
		if t, ok := env[p].v.(*Term); ok && env[p].t != nil {
			if pt, ok := env[p].t.Underlying().(*types.Pointer); ok {
				if n, ok := types.Unalias(pt.Elem()).(*types.Named); ok && x.ct.Protos[n.Obj().Name()] != nil {
					c.proto = x.ct.Protos[n.Obj().Name()]
					c.repo = t
				}
			}
		}
	}
	if c.proto == nil {
		return
	}
	st.con = c
	none := ConstArr(setSort(), False)
	for _, k := range []string{pubKey, "G:_tw", "G:_tr"} {
		st.heap[k] = none
	}
	st.heap["G:_slots"] = ConstArr(ArrSort(SInt, setSort()), none)
	x.setTasks(st, Zero)
}

// how many workers have been started since none was under way
func (x *Exec) tasks(st *State) *Term { return Select(x.heap(st, tasksKey, ArrSort(SInt, SInt)), Zero) }

func (x *Exec) setTasks(st *State, n *Term) {
	st.heap[tasksKey] = Store(ConstArr(ArrSort(SInt, SInt), Zero), Zero, n)
}

const tasksKey = "G:_tasks"

// classOf finds the protocol lock a reference denotes.
func (x *Exec) classOf(st *State, l *Term) string {
	if st.con == nil {
		return ""
	}
	p := "F:" + st.con.proto.Type + "."
	for _, f := range st.con.proto.Locks {
		if l.op == "faddr_"+san(st.con.proto.Type)+"_"+f {
			return f
		}
		hk := p + f
		h := x.heap(st, hk, ArrSort(SInt, SInt))
		if l == Select(h, st.con.repo) {
			return f
		}
	}
	return ""
}

func (c *conState) mode(class string) int {
	m := 0
	for _, h := range c.held {
		if h.class == class && h.mode > m {
			m = h.mode
		}
	}
	return m
}

func (x *Exec) bad(st *State, kind, label string, in ssa.Instruction, tags map[string]bool) {
	s := st.clone()
	x.obligT(s, kind, label, False, in, tags)
}

func (x *Exec) acquire(st *State, l *Term, mode int, in ssa.Instruction) {
	x.nonNil(st, l, in)
	if st.con == nil {
		return
	}
	c := st.con
	class := x.classOf(st, l)
	if _, dup := c.held[l]; dup {
		x.bad(st, "lock", "acquired while already held", in, tagC19)
	}
	if class != "" {
		if c.task != nil && c.task.done {
			x.bad(st, "race", "worker goes on after signalling its end", in, tagRace)
		}
		rank := func(f string) int {
			for i, o := range c.proto.Locks {
				if o == f {
					return i
				}
			}
			return -1
		}
		for o, h := range c.held {
			if o != l && (h.class == "" || rank(h.class) > rank(class)) {
				x.bad(st, "lock", "order: "+class+" taken while another lock is held", in, tagC19)
			}
		}
		if c.released && x.cfg.prop == "C20" {
			x.restart(st, in)
		}
	}
	st.con.held[l] = lockInfo{class, mode, st.con.task != nil}
	if st.con.task != nil {
		st.con.taskLock[l] = true
	}
}

func (x *Exec) release(st *State, l *Term, mode int, in ssa.Instruction) {
	x.nonNil(st, l, in)
	if st.con == nil {
		return
	}
	c := st.con
	h, ok := c.held[l]
	if !ok || h.mode != mode || (c.task != nil && !h.task) {
		x.bad(st, "lock", "released in a mode it is not held in", in, tagC19)
	}
	if class := x.classOf(st, l); class != "" {
		c.released = true
		if len(c.pend) > 0 {
			x.bad(st, "race", "lock given back before the workers have ended", in, tagRace)
		}
	}
	delete(c.held, l)
}

// restart: a lock is taken after one was given back. What was learnt before
// may be outdated, so the operation starts over from an arbitrary state that
// satisfies its precondition; this is only an atomic operation if nothing has
// been changed so far.
func (x *Exec) restart(st *State, in ssa.Instruction) {
	c := st.con
	if c.wrote {
		x.bad(st, "atomic", "takes a lock after changing state and giving a lock back", in, tagC20)
		c.released = false
		return
	}
	if st.old == nil {
		st.trace = append(st.trace, "restarts at "+x.pos(in))
	}
	na := x.fresh(st, "alloc", SInt)
	st.assume(Le(st.alloc, na))
	oldAlloc := st.alloc
	_ = oldAlloc
	st.alloc = na
	pub := x.pub(st)
	for _, lock := range c.proto.Locks {
		if c.mode(lock) > 0 {
			continue
		}
		for _, f := range c.proto.Guards[lock] {
			ft := x.protoField(f)
			if ft == nil {
				continue
			}
			k, hs := fieldKey(x.protoType(), x.protoIdx(f))
			ref := Select(x.heap(st, k, hs), c.repo)
			if x.fieldMutable(f) {
				ref = x.fresh(st, "restart_"+f, fieldSort(ft))
				st.heap[k] = Store(x.heap(st, k, hs), c.repo, ref)
			}
			if _, ok := ft.Underlying().(*types.Map); ok {
				ms := mapSortsOf(ft)
				ms.set(st, ref, x.fresh(st, "restart_dom", ArrSort(ms.k, SBool)), x.fresh(st, "restart_val", ArrSort(ms.k, ms.v)), x.fresh(st, "restart_card", SInt))
			}
		}
		for _, d := range c.proto.Deep[lock] {
			kind, n, _ := strings.Cut(d, ":")
			var key string
			var hs Sort
			if kind == "slice" {
				es := sortOf((&evalCtx{p: x.p, ct: x.ct}).goType(n))
				key, hs = sliceKey(es), sliceHeapSort(es)
			} else {
				key, hs = "G:"+n, parseSort(x.ct.GhostT[n], x.p)
			}
			cur := x.heap(st, key, hs)
			nh := x.fresh(st, "restart_h", hs)
			r := BVar("r", SInt)
			sel := app("select", Select(nh, r).sort, nh, r)
			st.assume(Forall([]*Term{r}, Imp(And(Le(c.base, r), Not(Select(pub, r))), Eq(sel, Select(cur, r))), []*Term{sel}))
			st.heap[key] = nh
		}
	}
	c.base = na
	c.released = false
	st.old = st.snap()
	st.restarted++
	// the contract's view of the new beginning
	env := map[string]DV{}
	for _, p := range x.fc.Params {
		env[p] = x.env0[p]
	}
	st.env = env
	cx := x.ctx(st, env)
	for _, l := range x.fc.Lets {
		env[l.Label] = x.must(func() DV { return cx.eval(l.Expr) }, x.fc, l)
	}
	for _, rq := range x.fc.Requires {
		t, err := cx.evalBool(rq.Expr)
		if err != nil {
			fail("requires %s: %v", rq.Label, err)
		}
		st.assume(t)
	}
	st.old = st.snap()
}

func (x *Exec) protoType() types.Type {
	o := x.p.pkg.Pkg.Scope().Lookup(x.protoName())
	return o.Type()
}

func (x *Exec) protoName() string {
	for n := range x.ct.Protos {
		return n
	}
	return ""
}

func (x *Exec) protoIdx(f string) int {
	u := x.protoType().Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			return i
		}
	}
	return -1
}

func (x *Exec) protoField(f string) types.Type {
	i := x.protoIdx(f)
	if i < 0 {
		return nil
	}
	return x.protoType().Underlying().(*types.Struct).Field(i).Type()
}

// fieldMutable: some function stores to the field of an object it did not create.
func (x *Exec) fieldMutable(f string) bool {
	i := x.protoIdx(f)
	for fn := range x.p.allFuncs() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				a, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || a.Field != i {
					continue
				}
				if !types.Identical(ptrElem(a.X.Type()), x.protoType()) {
					continue
				}
				if _, own := a.X.(*ssa.Alloc); !own {
					return true
				}
			}
		}
	}
	return false
}

// own: memory the operation allocated and has not published.
func (x *Exec) own(st *State, ref *Term) *Term {
	return Or(Eq(ref, Zero), And(Le(st.con.base, ref), Not(Select(x.pub(st), ref))))
}

func (x *Exec) guardedAccess(st *State, lock string, ref *Term, write bool, what string, in ssa.Instruction) {
	c := st.con
	need := 1
	if write {
		need = 2
	}
	if c.task != nil && c.task.done {
		x.bad(st, "race", "worker goes on after signalling its end", in, tagRace)
	}
	if c.mode(lock) < need {
		verb := "read"
		if write {
			verb = "changed"
		}
		x.obligT(st, "race", what+" "+verb+" without "+lock, x.own(st, ref), in, tagC18)
	}
	if write {
		c.wrote = true
	}
}

func (x *Exec) access(st *State, key string, ref *Term, write bool, in ssa.Instruction) {
	if st.con == nil {
		return
	}
	p := "F:" + st.con.proto.Type + "."
	if !strings.HasPrefix(key, p) {
		return
	}
	f := key[len(p):]
	for lock, fs := range st.con.proto.Guards {
		for _, g := range fs {
			if g == f && (write || x.fieldMutable(f)) {
				x.guardedAccess(st, lock, ref, write, f, in)
			}
		}
	}
	for _, l := range st.con.proto.Locks {
		if l == f && write {
			x.obligT(st, "race", "lock replaced", Le(st.con.base, ref), in, tagC18)
		}
	}
}

func (x *Exec) accessMap(st *State, m *Term, t types.Type, write bool, in ssa.Instruction) {
	if st.con == nil {
		return
	}
	for lock, fs := range st.con.proto.Guards {
		for _, f := range fs {
			if ft := x.protoField(f); ft != nil && types.Identical(ft.Underlying(), t.Underlying()) {
				x.guardedAccess(st, lock, m, write, f, in)
				return
			}
		}
	}
}

func (c *conState) deepLock(kind, n string) string {
	for lock, ds := range c.proto.Deep {
		for _, d := range ds {
			if d == kind+":"+n {
				return lock
			}
		}
	}
	return ""
}

func (x *Exec) accessSlice(st *State, s SliceV, elem types.Type, idx *Term, write bool, in ssa.Instruction) {
	if st.con == nil {
		return
	}
	c := st.con
	if lock := c.deepLock("slice", types.TypeString(elem, func(*types.Package) string { return "" })); lock != "" {
		x.guardedAccess(st, lock, s.ref, write, "list", in)
	}
	x.sharedSlice(st, s, elem, idx, write, in)
}

func (x *Exec) accessAppend(st *State, s SliceV, elem types.Type, fits *Term, in ssa.Instruction) {
	if st.con == nil {
		return
	}
	c := st.con
	if lock := c.deepLock("slice", types.TypeString(elem, func(*types.Package) string { return "" })); lock != "" && c.mode(lock) < 2 {
		x.obligT(st, "race", "list changed without "+lock, Or(Not(fits), x.own(st, s.ref)), in, tagC18)
	}
	if c.task != nil || len(c.pend) > 0 {
		x.sharedSlice(st, s, elem, nil, true, in)
	}
}

// sharedSlice: elements of memory that workers, or a worker and its starter, may share.
func (x *Exec) sharedSlice(st *State, s SliceV, elem types.Type, idx *Term, write bool, in ssa.Instruction) {
	c := st.con
	if c.task == nil && len(c.pend) == 0 {
		return
	}
	key := sliceKey(sortOf(elem))
	if c.task != nil {
		if x.light == 0 {
			if v := x.prove(st.pc, []*Term{Or(Eq(s.ref, Zero), Le(c.task.alloc, s.ref))}, 1_000_000); v[0] == Proved {
				return
			}
		} else if s.ref == Zero || provablyAfter(s.ref, c.task.alloc) {
			return
		}
		if c.task.done {
			x.bad(st, "race", "worker goes on after signalling its end", in, tagRace)
		}
		slots := x.heap(st, "G:_slots", ArrSort(SInt, setSort()))
		a := c.slices[key]
		if idx != nil && len(c.localLocks()) == 0 && (write || a != nil && a.slots) {
			i := Add(s.off, idx)
			x.obligT(st, "race", "element shared by workers", Not(Select(Select(slots, s.ref), i)), in, tagRace)
			if write {
				st.heap["G:_slots"] = Store(slots, s.ref, Store(Select(slots, s.ref), i, True))
				if a == nil {
					a = &acc{appends: true}
					c.slices[key] = a
				}
				a.slots = true
			}
			return
		}
		c.slices[key] = x.touch(st, a, write, in, key)
		return
	}
	if a := c.slices[key]; a != nil {
		if a.slots && idx != nil {
			slots := x.heap(st, "G:_slots", ArrSort(SInt, setSort()))
			x.obligT(st, "race", "element used while workers run", Not(Select(Select(slots, s.ref), Add(s.off, idx))), in, tagRace)
		} else if (a.slots || a.w || a.r && write) && !c.shares(a) {
			x.obligT(st, "race", "memory used while workers run", Or(Eq(s.len, Zero), Le(c.base, Zero)), in, tagRace)
		}
	}
}

func provablyAfter(ref, alloc *Term) bool {
	b, k := addParts(ref)
	c, l := addParts(alloc)
	return b == c && k >= l
}

func (c *conState) localLocks() map[*Term]bool {
	m := map[*Term]bool{}
	for l, h := range c.held {
		if h.class == "" {
			m[l] = true
		}
	}
	return m
}

// shares: a lock held at all accesses of a is held now.
func (c *conState) shares(a *acc) bool {
	for l := range c.localLocks() {
		if a.locks[l] {
			return true
		}
	}
	return false
}

// touch records a worker's access to shared memory.
func (x *Exec) touch(st *State, a *acc, write bool, in ssa.Instruction, what string) *acc {
	c := st.con
	if a == nil {
		a = &acc{appends: true, lastTask: c.task.id}
	}
	if a.lastTask != c.task.id {
		a.many = true
		a.lastTask = c.task.id
	}
	held := c.localLocks()
	if a.locks == nil {
		a.locks = held
	} else {
		for l := range a.locks {
			if !held[l] {
				delete(a.locks, l)
			}
		}
	}
	a.w = a.w || write
	a.r = a.r || !write
	if a.many && (a.w || a.slots) && len(a.locks) == 0 {
		x.bad(st, "race", "workers share "+what+" without a lock", in, tagRace)
	}
	return a
}

func (x *Exec) accessCell(st *State, id int, write bool, v Val, in ssa.Instruction) {
	c := st.con
	if c == nil || c.task == nil && len(c.pend) == 0 {
		return
	}
	if c.task != nil {
		if id >= c.task.cell0 {
			return
		}
		if c.task.done {
			x.bad(st, "race", "worker goes on after signalling its end", in, tagRace)
		}
		a := x.touch(st, c.cells[id], write, in, "a variable")
		c.cells[id] = a
		c.task.cells[id] = true
		if write {
			cur, _ := st.cells[id].(cellVal)
			t, ok := v.(*Term)
			ct, ok2 := cur.v.(*Term)
			if !ok || !ok2 || c.task.appended[t] != ct {
				a.appends = false
			}
		} else if cur, ok := st.cells[id].(cellVal); ok {
			if t, ok := cur.v.(*Term); ok {
				c.task.reads = append(c.task.reads, t)
			}
		}
		return
	}
	if a := c.cells[id]; a != nil && (a.w || a.r && write) && !c.shares(a) {
		x.bad(st, "race", "variable used while workers run", in, tagRace)
	}
}

func (x *Exec) pubStore(st *State, m *Term, t types.Type, v *Term) {
	if st.con == nil {
		return
	}
	for _, fs := range st.con.proto.Guards {
		for _, f := range fs {
			if ft := x.protoField(f); ft != nil && types.Identical(ft.Underlying(), t.Underlying()) {
				r := v
				if v.sort == SSlice {
					r = Field(v, 0)
				}
				if r.sort == SInt {
					st.heap[pubKey] = Store(x.pub(st), r, True)
				}
			}
		}
	}
}

// callbackAccess: what a call through an interface does to the object behind it.
func (x *Exec) callbackAccess(st *State, fc *FuncContract, env map[string]DV, in ssa.Instruction) {
	if st.con == nil || fc.Opts["object"] == "" {
		return
	}
	c := st.con
	kind, ghost, _ := strings.Cut(fc.Opts["object"], " ")
	write := kind == "write"
	ref, ok := env[fc.Params[0]].v.(*Term)
	if !ok {
		return
	}
	x.objectAccess(st, c.deepLock("ghost", ghost), ref, write, in)
}

func (x *Exec) objectAccess(st *State, lock string, ref *Term, write bool, in ssa.Instruction) {
	c := st.con
	if lock != "" {
		x.guardedAccess(st, lock, ref, write, "index contents", in)
	}
	if c.task == nil && len(c.pend) == 0 {
		return
	}
	tw, tr := x.heap(st, "G:_tw", setSort()), x.heap(st, "G:_tr", setSort())
	if write {
		x.obligT(st, "race", "index changed by two workers", And(Not(Select(tw, ref)), Not(Select(tr, ref))), in, tagRace)
		if c.task != nil {
			st.heap["G:_tw"] = Store(tw, ref, True)
		}
	} else {
		x.obligT(st, "race", "index read and changed by workers", Not(Select(tw, ref)), in, tagRace)
		if c.task != nil {
			st.heap["G:_tr"] = Store(tr, ref, True)
		}
	}
}

func (x *Exec) initOpaque(st *State, r *Term, t types.Type) {
	if n, ok := types.Unalias(t).(*types.Named); ok && strings.HasPrefix(n.Obj().Pkg().Path(), jsonPkg) {
		x.initJSON(st, r, n)
		return
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "WaitGroup" {
		k := "G:_wg"
		st.heap[k] = Store(x.heap(st, k, ArrSort(SInt, SInt)), r, Zero)
		if st.con != nil {
			st.con.wgs = append(st.con.wgs, r)
		}
	}
}

// spawn runs a worker's body where it is started. This is one legal schedule;
// that all others lead to the same result up to the order of what was appended
// under a lock follows from the workers sharing nothing else, which is checked.
func (x *Exec) spawn(st *State, in ssa.Instruction, call *ssa.CallCommon, fn Val, args []Val, wg *Term, k func(*State)) {
	if st.con == nil {
		fail("go statement")
	}
	c := st.con
	if c.task != nil {
		fail("a worker starts a worker")
	}
	if len(c.pend) == 0 {
		none := ConstArr(setSort(), False)
		st.heap["G:_tw"], st.heap["G:_tr"] = none, none
		st.heap["G:_slots"] = ConstArr(ArrSort(SInt, setSort()), none)
		c.cells, c.slices = map[int]*acc{}, map[string]*acc{}
		c.tasks = 0
	}
	c.tasks++
	x.setTasks(st, Add(x.tasks(st), One))
	c.task = &taskState{id: c.tasks, alloc: st.alloc, cell0: st.nextCell, appended: map[*Term]*Term{}, cells: map[int]bool{}}
	// locks of the starter protect the worker as long as they are held
	x.callVal(st, in, call, fn, args, func(s *State, _ Val) {
		c := s.con
		if wg != nil {
			x.wgDone(s, wg, in)
		}
		t := c.task
		for _, h := range c.held {
			if h.task {
				x.bad(s, "lock", "still held when the worker ends", in, tagC19)
			}
		}
		for l, h := range c.held {
			if h.task {
				delete(c.held, l)
			}
		}
		for _, b := range t.branched {
			for _, r := range t.reads {
				if dependsOn(b, r) {
					for id := range t.cells {
						if c.cells[id] != nil {
							c.cells[id].appends = false
						}
					}
				}
			}
		}
		w := t.wg
		if w == nil {
			w = Zero
		}
		c.pend[w] = true
		c.task = nil
		k(s)
	})
}

// dependsOn: b mentions the length or contents of the slice value r.
func dependsOn(b, r *Term) bool {
	if r.sort == SSlice {
		for i := 0; i < 2; i++ {
			f := Field(r, i)
			if _, isNum := f.num(); !isNum && contains(b, f) {
				return true
			}
		}
		return false
	}
	if _, isNum := r.num(); isNum {
		return false
	}
	return contains(b, r)
}

func (x *Exec) wgAdd(st *State, wg, n *Term, in ssa.Instruction) {
	k := "G:_wg"
	h := x.heap(st, k, ArrSort(SInt, SInt))
	v := Add(Select(h, wg), n)
	x.obligT(st, "lock", "wait group counter negative", Le(Zero, v), in, tagC19)
	st.heap[k] = Store(h, wg, v)
}

func (x *Exec) wgDone(st *State, wg *Term, in ssa.Instruction) {
	x.wgAdd(st, wg, Num(-1), in)
	if st.con != nil && st.con.task != nil {
		st.con.task.wg = wg
		st.con.task.done = true
	}
}

func (x *Exec) wgWait(st *State, wg *Term, in ssa.Instruction) {
	h := x.heap(st, "G:_wg", ArrSort(SInt, SInt))
	x.obligT(st, "lock", "waits for more ends than workers signal", Eq(Select(h, wg), Zero), in, tagC19)
	if st.con == nil {
		return
	}
	c := st.con
	if c.task != nil {
		fail("a worker waits")
	}
	for l, hl := range c.held {
		if hl.class == "" && c.taskLock[l] {
			x.bad(st, "lock", "waits holding a lock the workers need", in, tagC19)
		}
	}
	delete(c.pend, wg)
	if len(c.pend) > 0 {
		return
	}
	var ids []int
	for id, a := range c.cells {
		if a.w && (a.many || c.tasks > 1) {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	for _, id := range ids {
		cv, ok := st.cells[id].(cellVal)
		if !ok {
			continue
		}
		u, isSl := cv.t.Underlying().(*types.Slice)
		t, isT := cv.v.(*Term)
		if !c.cells[id].appends || !isSl || !isT {
			st.cells[id] = cellVal{x.havocVal(st, cv.v, cv.t, "shared"), cv.t}
			continue
		}
		// what the workers appended, in any order
		es := sortOf(u.Elem())
		s := asSlice(t)
		old := x.content(st, s.ref, es)
		ref := x.newRef(st)
		nc := x.fresh(st, "anyorder", old.sort)
		b := BVar("v", es)
		on := x.ct.Theory.apply("occ", "", []*Term{nc, s.len, b}, x.p)
		oo := x.ct.Theory.apply("occ", "", []*Term{old, s.len, b}, x.p)
		st.assume(Forall([]*Term{b}, Eq(on, oo), []*Term{on}, []*Term{oo}))
		st.assume(Imp(Le(x.tasks(st), One), Eq(nc, old)))
		x.setContent(st, ref, es, nc)
		ncap := x.fresh(st, "cap", SInt)
		st.assume(And(Le(s.len, ncap), Le(ncap, Num(maxLen))))
		st.cells[id] = cellVal{Mk(SSlice, ref, s.len, ncap), cv.t}
	}
	c.cells, c.slices = map[int]*acc{}, map[string]*acc{}
	c.tasks = 0
	x.setTasks(st, Zero)
}

func (x *Exec) exitCon(st *State, env map[string]DV) {
	if st.con == nil {
		return
	}
	for _, h := range st.con.held {
		n := h.class
		if n == "" {
			n = "a local lock"
		}
		x.bad(st, "lock", n+" still held on return", nil, tagC19)
	}
	if len(st.con.pend) > 0 {
		x.bad(st, "race", "returns before the workers have ended", nil, map[string]bool{"C12": true, "C13": true, "C18": true, "C19": true, "C20": true})
	}
}

func (x *Exec) loopConCheck(hs, b *State) {
	if hs.con == nil || b.con == nil {
		return
	}
	same := len(hs.con.held) == len(b.con.held)
	for l, h := range hs.con.held {
		same = same && b.con.held[l].mode == h.mode
	}
	if !same {
		x.bad(b, "lock", "lock state changes around a loop", nil, tagC19)
	}
}

// conCands: wait group counters, worker sets.
func (x *Exec) conCands(st, hs *State, mod *modSet, ints []named, add func(string, bool, func(*State, map[*ssa.Phi]Val) *Term)) {
	if st.con == nil {
		return
	}
	if _, ch := mod.heaps["G:_wg"]; ch {
		srt := ArrSort(SInt, SInt)
		for _, w := range st.con.wgs {
			w := w
			cur := func(s *State) *Term { return Select(heapOf(s.heap, "G:_wg", srt), w) }
			e := cur(st)
			add("wg-kept", true, func(s *State, _ map[*ssa.Phi]Val) *Term { return Eq(cur(s), e) })
			for _, i := range ints {
				i := i
				for _, k := range []int64{0, 1} {
					k := k
					add("wg-down "+i.name, true, func(s *State, p map[*ssa.Phi]Val) *Term {
						t, ok := i.v(s, p).(*Term)
						if !ok {
							return nil
						}
						return Eq(Add(cur(s), Add(t, Num(k))), e)
					})
					add("wg-up "+i.name, true, func(s *State, p map[*ssa.Phi]Val) *Term {
						t, ok := i.v(s, p).(*Term)
						if !ok {
							return nil
						}
						return Eq(cur(s), Add(e, Add(t, Num(k))))
					})
				}
			}
		}
	}
	if _, ch := mod.heaps[tasksKey]; ch {
		e := x.tasks(st)
		for _, i := range ints {
			i := i
			for _, k := range []int64{0, 1} {
				k := k
				add("workers "+i.name, true, func(s *State, p map[*ssa.Phi]Val) *Term {
					t, ok := i.v(s, p).(*Term)
					if !ok {
						return nil
					}
					return Eq(x.tasks(s), Add(e, Add(t, Num(k))))
				})
			}
		}
	}
	if _, ch := mod.heaps["G:_slots"]; ch {
		srt := ArrSort(SInt, setSort())
		r, j := BVar("r", SInt), BVar("j", SInt)
		for _, i := range ints {
			i := i
			for _, k := range []int64{0, 1} {
				k := k
				add("slots-below "+i.name, true, func(s *State, p map[*ssa.Phi]Val) *Term {
					t, ok := i.v(s, p).(*Term)
					if !ok {
						return nil
					}
					sel := Select(Select(heapOf(s.heap, "G:_slots", srt), r), j)
					if sel == False {
						return True
					}
					return Forall([]*Term{r, j}, Imp(sel, Lt(j, Add(t, Num(k)))), []*Term{sel})
				})
			}
		}
	}
}

func lockModel(mode int, rel bool) model {
	return func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		l := x.T(st, args[0])
		if rel {
			x.release(st, l, mode, in)
		} else {
			x.acquire(st, l, mode, in)
		}
		k(st, Tup{})
	}
}

func init() {
	more["(*sync.RWMutex).RLock"] = lockModel(1, false)
	more["(*sync.RWMutex).RUnlock"] = lockModel(1, true)
	more["(*sync.RWMutex).Lock"] = lockModel(2, false)
	more["(*sync.RWMutex).Unlock"] = lockModel(2, true)
	more["(*sync.Mutex).Lock"] = lockModel(2, false)
	more["(*sync.Mutex).Unlock"] = lockModel(2, true)
	more["(*sync.WaitGroup).Add"] = func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		if st.con != nil && st.con.task != nil {
			x.bad(st, "lock", "a worker adds to a wait group", in, tagC19)
		}
		x.wgAdd(st, x.T(st, args[0]), x.T(st, args[1]), in)
		k(st, Tup{})
	}
	more["(*sync.WaitGroup).Done"] = func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		x.wgDone(st, x.T(st, args[0]), in)
		k(st, Tup{})
	}
	more["(*sync.WaitGroup).Wait"] = func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		x.wgWait(st, x.T(st, args[0]), in)
		k(st, Tup{})
	}
	more["(*sync.WaitGroup).Go"] = func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		wg := x.T(st, args[0])
		x.wgAdd(st, wg, One, in)
		cl, ok := args[1].(*Clo)
		if !ok {
			fail("worker that is not a function literal")
		}
		x.spawn(st, in, &ssa.CallCommon{Value: cl.fn}, cl, nil, wg, func(s *State) { k(s, Tup{}) })
	}
	// text: only that something is written is modelled
	text := func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		x.printed(st, in)
		var res []Val
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			v := x.fresh(st, "text", sortOf(t))
			if f.Name() == "Errorf" || f.Name() == "New" {
				st.alloc = Add(st.alloc, One)
				st.assume(Eq(v, Add(st.alloc, Num(-1))))
			}
			x.loadFacts(st, v, t)
			if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "error" && f.Name() != "Errorf" && f.Name() != "New" {
				st.assume(Eq(v, Zero))
			}
			res = append(res, v)
		}
		k(st, one(res))
	}
	for _, n := range []string{"fmt.Sprintln", "fmt.Sprintf", "fmt.Sprint", "fmt.Errorf", "errors.New", "strconv.Itoa", "strconv.Quote",
		"(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).String", "(*bytes.Buffer).Len",
		"(*strings.Builder).WriteString", "(*strings.Builder).WriteByte", "(*strings.Builder).WriteRune", "(*strings.Builder).String", "(*strings.Builder).Grow", "(*bytes.Buffer).Grow"} {
		more[n] = text
	}
	more["fmt.Fprintf"], more["fmt.Fprintln"], more["fmt.Fprint"] = text, text, text
}

// printed: formatting an index reads its contents.
func (x *Exec) printed(st *State, in ssa.Instruction) {
	if st.con == nil || in == nil {
		return
	}
	ci, ok := in.(ssa.CallInstruction)
	if !ok {
		return
	}
	for _, a := range ci.Common().Args {
		sl, ok := a.(*ssa.Slice)
		if !ok {
			continue
		}
		al, ok := sl.X.(*ssa.Alloc)
		if !ok || al.Referrers() == nil {
			continue
		}
		for _, r := range *al.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok || ia.Referrers() == nil {
				continue
			}
			for _, s := range *ia.Referrers() {
				sto, ok := s.(*ssa.Store)
				if !ok {
					continue
				}
				var src ssa.Value
				switch v := sto.Val.(type) {
				case *ssa.ChangeInterface:
					src = v.X
				case *ssa.MakeInterface:
					src = v.X
				default:
					continue
				}
				if n, ok := types.Unalias(src.Type()).(*types.Named); ok && x.ct.Funcs[n.Obj().Name()+".Search"] != nil && n.Obj().Name() == "Index" {
					if v, ok := st.top().env[src].(*Term); ok {
						x.objectAccess(st, st.con.deepLock("ghost", "ixs"), v, false, in)
					}
				}
			}
		}
	}
}

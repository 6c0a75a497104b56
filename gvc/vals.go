package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Val is a symbolic value: *Term or one of the structured kinds below.
type Val interface{}

// SliceV is a slice whose start is not the start of its backing object.
type SliceV struct{ ref, off, len, cap *Term }

// StructV is a struct value with symbolic fields.
type StructV struct {
	typ    types.Type
	fields []Val
}

// ArrV is an array value.
type ArrV struct {
	elem  types.Type
	elems []Val
}

// PCell points into a local memory cell.
type PCell struct {
	id   int
	path []int
}

// PField points to a field of a heap object.
type PField struct {
	ref  *Term
	typ  types.Type // the struct type of the object
	path []int
}

// PElem points into an element of a slice.
type PElem struct {
	sl   Val // Term (Slice) or SliceV
	elem types.Type
	idx  *Term
	path []int
}

type PGlobal struct{ g *ssa.Global }

// Clo is a function value with its captured variables.
type Clo struct {
	fn    *ssa.Function
	binds []Val
}

// IfaceV is an interface value with known dynamic type.
type IfaceV struct {
	typ types.Type
	v   Val
}

type Tup []Val

// Iter is the state of a range statement; it lives in a cell.
type Iter struct {
	str      *Term // string ranged over (nil for maps)
	pos      *Term // runes consumed
	ref      *Term // map object
	mt       *types.Map
	visited  *Term
	cnt      *Term
	startDom *Term // entries present all along
	dirty    bool  // entries may have been removed
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Val
	defers []deferred
	ret    func(st *State, res []Val)
	task   bool // body of a spawned worker
	depth  int
	site   ssa.Instruction // the call
}

type deferred struct {
	call ssa.CallCommon
	fn   Val
	args []Val
	in   ssa.Instruction
}

// State is one symbolic path.
type State struct {
	pc        []*Term
	frames    []*Frame
	heap      map[string]*Term
	cells     map[int]Val
	nextCell  int
	fresh     int
	alloc     *Term
	loops     []*LoopRec
	old       *Snap
	clos      map[*Term]*Clo
	ifaces    map[*Term]*IfaceV
	trace     []string
	con       *conState
	restarted int
	env       map[string]DV // contract bindings after a restart
	dead      bool
}

// Snap is a heap snapshot for old(...).
type Snap struct {
	heap  map[string]*Term
	alloc *Term
}

func (st *State) snap() *Snap {
	h := make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		h[k] = v
	}
	return &Snap{h, st.alloc}
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

func (st *State) clone() *State {
	n := *st
	n.pc = append([]*Term(nil), st.pc...)
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.env = make(map[ssa.Value]Val, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = make(map[string]*Term, len(st.heap))
	for k, v := range st.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(st.cells))
	for k, v := range st.cells {
		n.cells[k] = v
	}
	n.loops = append([]*LoopRec(nil), st.loops...)
	n.clos = make(map[*Term]*Clo, len(st.clos))
	for k, v := range st.clos {
		n.clos[k] = v
	}
	n.ifaces = make(map[*Term]*IfaceV, len(st.ifaces))
	for k, v := range st.ifaces {
		n.ifaces[k] = v
	}
	n.trace = append([]string(nil), st.trace...)
	if st.con != nil {
		n.con = st.con.clone()
	}
	return &n
}

func (st *State) assume(t *Term) {
	if t == True {
		return
	}
	if t == False {
		st.dead = true
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.pc = append(st.pc, t)
}

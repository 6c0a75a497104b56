package main

import (
	"golang.org/x/tools/go/ssa"
)

// A hash object's state is the string written to it so far, kept in ghost memory.
const fnvKey = "G:_fnv"

var fnvSort = ArrSort(SInt, SStr)

func init() {
	for _, n := range []string{"New64", "New64a", "New32", "New32a"} {
		n := n
		more["hash/fnv."+n] = func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
			r := x.newRef(st)
			st.heap[fnvKey] = Store(x.heap(st, fnvKey, fnvSort), r, StrLit(""))
			st.heap["G:_fnvkind"] = Store(x.heap(st, "G:_fnvkind", fnvSort), r, StrLit(n))
			k(st, r)
		}
	}
	for _, ty := range []string{"hash.Hash64", "hash.Hash32", "hash.Hash"} {
		moreInvoke[ty+".Write"] = func(x *Exec, st *State, in ssa.Instruction, recv *Term, args []Val, k func(*State, Val)) {
			s := asSlice(args[0])
			w := strOf(x.content(st, s.ref, SInt), s.off, s.len)
			h := x.heap(st, fnvKey, fnvSort)
			st.heap[fnvKey] = Store(h, recv, strcat(Select(h, recv), w))
			k(st, Tup{s.len, Zero})
		}
		moreInvoke[ty+".Reset"] = func(x *Exec, st *State, in ssa.Instruction, recv *Term, args []Val, k func(*State, Val)) {
			st.heap[fnvKey] = Store(x.heap(st, fnvKey, fnvSort), recv, StrLit(""))
			k(st, Tup{})
		}
	}
	sum := func(op string, hi *Term) func(x *Exec, st *State, in ssa.Instruction, recv *Term, args []Val, k func(*State, Val)) {
		return func(x *Exec, st *State, in ssa.Instruction, recv *Term, args []Val, k func(*State, Val)) {
			r := app(op, SInt, Select(x.heap(st, "G:_fnvkind", fnvSort), recv), Select(x.heap(st, fnvKey, fnvSort), recv))
			st.assume(And(Le(Zero, r), Le(r, hi)))
			k(st, r)
		}
	}
	moreInvoke["hash.Hash64.Sum64"] = sum("fnvsum64", app("18446744073709551615", SInt))
	moreInvoke["hash.Hash32.Sum32"] = sum("fnvsum32", Num(1<<32-1))
	more["io.WriteString"] = func(x *Exec, st *State, in ssa.Instruction, f *ssa.Function, args []Val, k func(*State, Val)) {
		r, ok := args[0].(*Term)
		if !ok {
			fail("io.WriteString to %T", args[0])
		}
		h := x.heap(st, fnvKey, fnvSort)
		st.heap[fnvKey] = Store(h, r, strcat(Select(h, r), args[1].(*Term)))
		k(st, Tup{strlen(args[1].(*Term)), Zero})
	}
}

// strOf is the string made of n bytes of c from off.
func strOf(c, off, n *Term) *Term {
	if c.op == "bytes" && off == Zero && n == strlen(c.args[0]) {
		return c.args[0]
	}
	return app("str_of", SStr, c, off, n)
}

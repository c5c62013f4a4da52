#!/usr/bin/env python3
"""Generate a `go build -overlay` file that puts a seam under the Go runtime.

Nothing in GOROOT or /repo is modified: patched copies of a few standard-library files are written
to OUT and overlay.json redirects the compiler to them.  Every patch asserts that the text it replaces
is there exactly as expected, so a different toolchain fails loudly instead of silently un-hooking.

Seams:
  * map iteration order, map hash seeds, process hash keys  -> PRNG set by the simulator
  * hashes of pointers behind interfaces                    -> by the order in which they are first asked for (addresses never matter)
  * runtime.rand (os.CreateTemp, math/rand) and getpid      -> PRNG / constant in simulated goroutines
  * every system call of a simulated goroutine              -> the simulated kernel
  * time.Now / time.Sleep in simulated goroutines           -> simulated clock
"""
import json, os, subprocess, sys

out = os.path.abspath(sys.argv[1])
os.makedirs(out, exist_ok=True)
goroot = subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()
src = os.path.join(goroot, "src")
replace = {}


def patch(rel, *edits):
    p = os.path.join(src, rel)
    s = open(p).read()
    for old, new, count in edits:
        n = s.count(old)
        if n != count:
            sys.exit(f"overlay: {rel}: expected {count} x {old!r}, found {n}")
        s = s.replace(old, new)
    emit(rel, s)


def emit(rel, s):
    dst = os.path.join(out, rel.replace("/", "__"))
    if not (os.path.exists(dst) and open(dst).read() == s):
        with open(dst, "w") as f:
            f.write(s)
    replace[os.path.join(src, rel)] = dst


# --- maps -----------------------------------------------------------------
patch("internal/runtime/maps/table.go",
      ("it.entryOffset = rand()", "it.entryOffset = simIterRand()", 1),
      ("it.dirOffset = rand()", "it.dirOffset = simRand()", 1))
patch("internal/runtime/maps/map.go",
      ("m.seed = uintptr(rand())", "m.seed = uintptr(simPeek())", 4))
patch("internal/runtime/maps/runtime_alg.go",
      ("hashkey[i] = uintptr(bootstrapRand())", "hashkey[i] = uintptr(0x9e3779b97f4a7c15 * uint64(i+1))", 1),
      ("key[i] = bootstrapRand()", "key[i] = 0xbf58476d1ce4e5b9 * uint64(i+7)", 1))
emit("internal/runtime/maps/zz_sim.go", """package maps

var SimState uint64
var SimIters uint64
var SimLimit uint64
var SimOver func()

func simRand() uint64 {
	SimState += 0x9e3779b97f4a7c15
	z := SimState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simPeek goes with the place in the stream and does not move it on: how many maps the standard library makes may
// depend on what the process did before.
func simPeek() uint64 {
	z := SimState * 0x9e3779b97f4a7c15
	return z ^ (z >> 31)
}

func simIterRand() uint64 {
	SimIters++
	if SimLimit != 0 && SimIters > SimLimit && SimOver != nil {
		SimOver()
	}
	return simRand()
}
""")

# --- maps of sync and unique: the first use of one in the standard library must not move the program's numbers on
for f, v in (("internal/sync/hashtriemap.go", "ht"), ("unique/canonmap.go", "cm")):
    patch(f, (v + ".seed = uintptr(runtime_rand())", v + ".seed = uintptr(sim_peek())", 1),
          ("//go:linkname runtime_rand runtime.rand\nfunc runtime_rand() uint64\n",
           "//go:linkname sim_peek runtime.simPeek\nfunc sim_peek() uint64\n", 1))

# --- runtime --------------------------------------------------------------
patch("runtime/alg.go",
      ("\tif t.IsDirectIface() {\n\t\treturn trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))",
       "\tif t.IsDirectIface() {\n\t\tif t.Kind() == abi.Pointer {\n\t\t\treturn trimHash(c1 * (h ^ c0 ^ simPointer(t, uintptr(a.data))))\n\t\t}\n"
       "\t\treturn trimHash(c1 * typehash(t, unsafe.Pointer(&a.data), h^c0))", 2))
patch("runtime/rand.go",
      ("\treturn uint32(rand())\n}\n\n// rand returns", "\tif simRandOn {\n\t\treturn uint32(simPeek() >> 32)\n\t}\n\treturn uint32(rand())\n}\n\n// rand returns", 1),
      ("func rand() uint64 {\n",
       "func rand() uint64 {\n\tif simRandOn {\n\t\tif cg := getg().m.curg; cg != nil && cg.labels != nil {\n"
       "\t\t\treturn simRand()\n\t\t}\n\t}\n", 1))
patch("runtime/select.go",
      ("j := cheaprandn(uint32(norder + 1))", "j := simSelect(uint32(norder + 1))", 1))
emit("runtime/zz_sim.go", """package runtime

import (
	"internal/runtime/maps"
	"unsafe"
)

var simRandOn bool
var simRandState uint64

//go:nosplit
// simPeek is a number that goes with the place in the stream and does not move it on.
func simPeek() uint64 { return simRandState * 0x9e3779b97f4a7c15 }

func simRand() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	z := simRandState
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// simPtrs numbers the objects whose address is hashed, in the order in which that first happens.
type simPtr struct {
	p uintptr
	n uint64 // epoch and number
}

var simPtrs *[1 << 28]simPtr
var simPtrCap, simPtrLen, simPtrEpoch uint64

// SimForget makes the numbering start again.
func SimForget() {
	simPtrEpoch++
	simPtrLen = 0
}

func simPointer(t *_type, p uintptr) uintptr {
	if toRType(t).string() == "*reflect.rtype" { // keys of caches that outlive a run
		return uintptr(simMix(uint64((*_type)(unsafe.Pointer(p)).Hash)))
	}
	if spanOfHeap(p) == nil {
		return uintptr(simMix(uint64(p)))
	}
	mp := acquirem()
	if simPtrLen*2 >= simPtrCap {
		old, oldCap := simPtrs, simPtrCap
		simPtrCap = max(1<<12, 2*oldCap)
		simPtrs = (*[1 << 28]simPtr)(sysAlloc(uintptr(simPtrCap)*unsafe.Sizeof(simPtr{}), &memstats.other_sys, "sim"))
		if simPtrs == nil {
			throw("sim: out of memory")
		}
		for i := uint64(0); i < oldCap; i++ {
			if e := old[i]; e.p != 0 && e.n>>40 == simPtrEpoch {
				*simPtrSlot(e.p) = e
			}
		}
	}
	e := simPtrSlot(p)
	if e.p != p || e.n>>40 != simPtrEpoch {
		simPtrLen++
		e.p, e.n = p, simPtrEpoch<<40|simPtrLen
	}
	n := e.n & (1<<40 - 1)
	releasem(mp)
	return uintptr(simMix(n))
}

func simPtrSlot(p uintptr) *simPtr {
	for i := simMix(uint64(p)); ; i++ {
		e := &simPtrs[i&(simPtrCap-1)]
		if e.p == 0 || e.n>>40 != simPtrEpoch || e.p == p {
			return e
		}
	}
}

func simMix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SimSeed sets the PRNGs behind map iteration, map seeds and runtime.rand.
func SimSeed(m, r uint64) {
	maps.SimState = m
	simRandState = r
	simRandOn = true
}

// SimBudget resets the map-iteration counter and sets the callback run when it exceeds limit (0: off).
func SimBudget(limit uint64, over func()) {
	maps.SimIters = 0
	maps.SimLimit = limit
	maps.SimOver = over
}

func SimIters() uint64 { return maps.SimIters }

// simSelect orders the cases of a select.
func simSelect(n uint32) uint32 {
	if simRandOn && getg().labels != nil {
		return uint32(simRand() % uint64(n))
	}
	return cheaprandn(n)
}

// SimQuiet reports whether every other goroutine waits (for one that has yet to run). One processor only.
func SimQuiet() bool {
	mp := acquirem()
	q := runqempty(mp.p.ptr())
	releasem(mp)
	return q && sched.runq.size == 0 && gcphase == _GCoff && work.assistQueue.q.empty()
}

//go:linkname syscall_simLabel syscall.simLabel
//go:nosplit
func syscall_simLabel() unsafe.Pointer { return getg().labels }

//go:linkname time_simLabel time.simLabel
//go:nosplit
func time_simLabel() unsafe.Pointer { return getg().labels }

// SimLabel returns the goroutine label pointer, inherited by child goroutines.
func SimLabel() unsafe.Pointer { return getg().labels }

func SimSetLabel(p unsafe.Pointer) { getg().labels = p }

// SimRaceCtx makes the race detector take the calling goroutine for another one (0: asks only).
func SimRaceCtx(c uintptr) uintptr {
	gp := getg()
	old := gp.racectx
	if c != 0 {
		gp.racectx = c
	}
	return old
}

// SimYieldHook is called before the statements of the code under test (tools/globals inserts the calls).
var SimYieldHook func(site int)

func SimYield(site int) {
	if SimYieldHook != nil && getg().labels != nil {
		SimYieldHook(site)
	}
}

// SimReg describes the package-level variables of one package under test.
type SimReg struct {
	Ptrs  []any
	Reset func()
}

var SimRegs []SimReg

func SimRegister(ptrs []any, reset func()) { SimRegs = append(SimRegs, SimReg{ptrs, reset}) }
""")

# --- syscall --------------------------------------------------------------
patch("syscall/syscall_linux.go",
      ("func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\truntime_entersyscall()\n",
       "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n"
       "\tif simLabel() != nil && SimHook != nil {\n\t\treturn SimHook(trap, a1, a2, a3, 0, 0, 0)\n\t}\n\truntime_entersyscall()\n", 1),
      ("func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\truntime_entersyscall()\n",
       "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n"
       "\tif simLabel() != nil && SimHook != nil {\n\t\treturn SimHook(trap, a1, a2, a3, a4, a5, a6)\n\t}\n\truntime_entersyscall()\n", 1),
      ("func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
       "func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n"
       "\tif simLabel() != nil && SimHook != nil {\n\t\treturn SimHook(trap, a1, a2, a3, 0, 0, 0)\n\t}\n", 1))
patch("syscall/zsyscall_linux_amd64.go",
      ("func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif simLabel() != nil && SimHook != nil {\n"
       "\t\tp, _, _ := SimHook(SYS_GETPID, 0, 0, 0, 0, 0, 0)\n\t\treturn int(p)\n\t}\n", 1))
emit("syscall/zz_sim.go", """package syscall

import "unsafe"

// SimHook, when set, receives every system call made by a goroutine that carries a label.
var SimHook func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno)

//go:nosplit
func simLabel() unsafe.Pointer
""")

# --- time -----------------------------------------------------------------
patch("time/time.go",
      ("func Now() Time {\n", "func Now() Time {\n\tif SimNow != nil && simLabel() != nil {\n"
       "\t\tns := SimNow()\n\t\treturn unixTime(ns/1e9, int32(ns%1e9))\n\t}\n", 1))
patch("time/sleep.go",
      ("func Sleep(d Duration)\n",
       "func Sleep(d Duration) {\n\tif SimSleep != nil && simLabel() != nil {\n\t\tSimSleep(int64(d))\n\t\treturn\n\t}\n\trealSleep(d)\n}\n\n"
       "func realSleep(d Duration)\n", 1))
emit("time/zz_sim.go", """package time

import "unsafe"

var SimNow func() int64
var SimSleep func(ns int64)

//go:nosplit
func simLabel() unsafe.Pointer
""")
patch("runtime/time.go",
      ("//go:linkname timeSleep time.Sleep\n", "//go:linkname timeSleep time.realSleep\n", 1))

# --- pools ----------------------------------------------------------------
# In the build with the race detector nothing is handed from goroutine to goroutine through a pool: that would order them.
patch("sync/pool.go", ("if runtime_randn(4) == 0 {", "if runtime_randn(4) < 4 {", 1))

# --- exit -----------------------------------------------------------------
patch("os/proc.go",
      ("func Exit(code int) {\n", "var SimExit func(code int)\n\nfunc Exit(code int) {\n\tif SimExit != nil && runtime.SimLabel() != nil {\n\t\tSimExit(code)\n\t}\n", 1))

# --- the browser host -------------------------------------------------------
emit("syscall/js/zz_sim.go", open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "jsstub", "js.go")).read())

with open(os.path.join(out, "overlay.json"), "w") as f:
    json.dump({"Replace": replace}, f, indent=1)

// Package verifrt is the run-time support that checks compile into the library through a build overlay:
// a statement counter (deterministic termination oracle) and a cooperative scheduler.
package verifrt

import "fmt"

// Mode is set by the instrumented library's first point; the harness reports it.
var Instrumented bool

var steps uint64
var budget uint64

// BudgetExceeded is the panic value used when an operation executes too many statements.
type BudgetExceeded struct{ Steps uint64 }

func (b BudgetExceeded) Error() string {
	return fmt.Sprintf("statement budget exceeded (%d statements)", b.Steps)
}

// P is called before every statement of the library.
func P() {
	steps++
	if steps > budget {
		overBudget()
	}
	if sch != nil {
		sch.point()
	}
}

func overBudget() {
	Instrumented = true
	if budget == 0 {
		budget = ^uint64(0) >> 1
		return
	}
	s := steps
	budget = ^uint64(0) >> 1
	panic(BudgetExceeded{s})
}

// Start begins counting with the given budget.
func Start(b uint64) { steps = 0; budget = b }

// Steps returns the statements executed since Start.
func Steps() uint64 { return steps }

// ---------------------------------------------------------------- pools

type pool interface{ ResetPool() }

var pools []pool

func RegisterPool(p pool) { pools = append(pools, p) }

// ResetPools empties every recycler, so that a case starts as in a fresh process.
func ResetPools() {
	for _, p := range pools {
		p.ResetPool()
	}
	missPlan = nil
	poolGets = 0
}

var missPlan map[int]bool
var missAll bool
var poolGets int

// SetMissAll makes every Get miss: a recycler may be empty at any time, and without reuse nothing orders the
// accesses of two threads but their own synchronisation.
func SetMissAll(b bool) { missAll = b }

// SetMisses makes the i-th non-empty pool Get (counted from now) miss for every i in the plan.
func SetMisses(plan map[int]bool) { missPlan = plan; poolGets = 0 }

// PoolGets is the number of non-empty Gets since SetMisses.
func PoolGets() int { return poolGets }

// PoolHit is asked by vsync.Pool when it has something to hand out.
func PoolHit() bool {
	i := poolGets
	poolGets++
	return !missAll && !missPlan[i]
}

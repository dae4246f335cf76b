package vs

import "fmt"

type node struct {
	kind, n, chosen, cost, used int
}

// Explorer enumerates all choice sequences whose number of deviations stays
// within Bound, depth first.
type Explorer struct {
	Bound int
	stack []node
	pos   int
	used  int
	// Diverged is set when a replayed prefix met a different choice point.
	Diverged string
	fixed    []int // replay mode: choices to follow
	replay   bool
}

// NewReplay follows a recorded choice sequence (defaults afterwards).
func NewReplay(choices []int) *Explorer { return &Explorer{fixed: choices, replay: true} }

// Begin starts the next execution.
func (e *Explorer) Begin() { e.pos, e.used = 0, 0 }

// Choose implements Chooser.
func (e *Explorer) Choose(kind, n, cost int) int {
	if e.replay {
		k := 0
		if e.pos < len(e.fixed) {
			k = e.fixed[e.pos]
		}
		e.pos++
		if k >= n {
			e.Diverged = fmt.Sprintf("choice %d: want option %d of %d", e.pos-1, k, n)
			k = 0
		}
		if k != 0 {
			e.used += cost
		}
		return k
	}
	if e.pos < len(e.stack) {
		nd := &e.stack[e.pos]
		if nd.kind != kind || nd.n != n || nd.cost != cost {
			e.Diverged = fmt.Sprintf("choice %d: recorded kind=%d n=%d cost=%d, met kind=%d n=%d cost=%d", e.pos, nd.kind, nd.n, nd.cost, kind, n, cost)
			return 0
		}
		e.pos++
		if nd.chosen != 0 {
			e.used += cost
		}
		return nd.chosen
	}
	e.stack = append(e.stack, node{kind: kind, n: n, cost: cost, used: e.used})
	e.pos++
	return 0
}

// Next prepares the next unexplored choice sequence; false when done.
func (e *Explorer) Next() bool {
	if e.replay {
		return false
	}
	for len(e.stack) > 0 {
		nd := &e.stack[len(e.stack)-1]
		if nd.chosen+1 < nd.n && nd.used+nd.cost <= e.Bound {
			nd.chosen++
			return true
		}
		e.stack = e.stack[:len(e.stack)-1]
	}
	return false
}

// Choices is the choice sequence of the last execution.
func (e *Explorer) Choices() []int {
	if e.replay {
		return append([]int{}, e.fixed...)
	}
	out := make([]int, len(e.stack))
	for i, nd := range e.stack {
		out[i] = nd.chosen
	}
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

// Deviations is the number of deviations of the last execution.
func (e *Explorer) Deviations() int { return e.used }

package visigoth

import "testing"

func TestReplayC23(t *testing.T) {
	// put alias unalias rename drop search list aliases has string
	newVrep(t).repos([]int{5, 10, 6, 6, 6, 2, 1, 2, 1, 1})
}

package visigoth

import "testing"

func TestReplayC12(t *testing.T) {
	// put alias unalias rename drop search list aliases has string
	newVrep(t).repos([]int{20, 8, 3, 3, 3, 2, 1, 1, 1, 0})
}

package visigoth

import "testing"

func TestReplayC17(t *testing.T) {
	// put alias unalias rename drop search list aliases has string
	newVrep(t).repos([]int{5, 10, 4, 4, 4, 1, 8, 10, 6, 1})
}

package visigoth

import "testing"

func TestReplayC14(t *testing.T) {
	// put alias unalias rename drop search list aliases has string
	newVrep(t).repos([]int{4, 16, 12, 2, 2, 2, 1, 2, 1, 0})
}

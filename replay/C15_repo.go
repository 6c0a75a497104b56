package visigoth

import "testing"

func TestReplayC15(t *testing.T) {
	// put alias unalias rename drop search list aliases has string
	newVrep(t).repos([]int{6, 10, 2, 12, 2, 2, 1, 1, 1, 0})
}

package visigoth

import "testing"

func TestReplayC13(t *testing.T) {
	// put alias unalias rename drop search list aliases has string
	newVrep(t).repos([]int{8, 8, 3, 3, 3, 20, 1, 1, 1, 0})
}

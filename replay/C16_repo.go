package visigoth

import "testing"

func TestReplayC16(t *testing.T) {
	// put alias unalias rename drop search list aliases has string
	newVrep(t).repos([]int{7, 10, 2, 2, 10, 2, 1, 1, 1, 0})
}

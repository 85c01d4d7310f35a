package c45

import (
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
)

// fixedValues shows that the general-purpose generators are deterministic in a child.
func fixedValues() string {
	return fmt.Sprint(rand.Int63(), rand.Int63(), randv2.Uint64(), randv2.Uint64())
}

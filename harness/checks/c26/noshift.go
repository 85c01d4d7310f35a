//go:build !zzclock

package c26

import "time"

const shiftable = false

func shift(time.Duration) {}

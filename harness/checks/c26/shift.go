//go:build zzclock

package c26

import "time"

const shiftable = true

func shift(d time.Duration) { time.ZZShift = int64(d) }

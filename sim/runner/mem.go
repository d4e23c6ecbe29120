package runner

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

// memLimit is far beyond what any scenario needs when the code is right.
const memLimit = 6 << 30

// WatchMemory ends this process when the code under test takes all memory; the
// scenario then counts as a crash.
func WatchMemory() {
	go func() {
		for range time.Tick(100 * time.Millisecond) {
			b, err := os.ReadFile("/proc/self/status")
			if err != nil {
				return
			}
			_, s, ok := strings.Cut(string(b), "RssAnon:")
			f := strings.Fields(s)
			if !ok || len(f) == 0 {
				return
			}
			if kb, err := strconv.ParseInt(f[0], 10, 64); err == nil && kb<<10 > memLimit {
				fmt.Fprintf(os.Stderr, "fatal error: more than %d GiB of memory in use\n", memLimit>>30)
				os.Exit(2)
			}
		}
	}()
}

package srv

import "runtime"

func lockThread() { runtime.LockOSThread() }

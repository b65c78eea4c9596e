// Package simvfs puts sqlite on the simulated disk.
package simvfs

/*
#cgo CFLAGS: -O1
#cgo LDFLAGS: -Wl,--unresolved-symbols=ignore-all
#include <stdlib.h>
#include "vfs.h"
*/
import "C"

import (
	"fmt"
	"os"
	"time"
	"unsafe"

	_ "github.com/mattn/go-sqlite3"

	"sim.local/h/simext"
	"sim.local/h/simrt"
)

var run int

// Prefix of a node's files.
func Prefix(n *simrt.Node) string {
	if n == nil {
		return fmt.Sprintf("/%d/world/", run)
	}
	return fmt.Sprintf("/%d/%s/", run, n.Name)
}

// Ops counts disk operations by kind (1 read 2 write 3 truncate 4 sync 5 lock 6 unlock 7 open 8 delete).
var Ops [9]int64

// CrashAt, when set, is consulted at every disk operation of a node; returning true kills the process there.
var CrashAt func(n *simrt.Node, kind int) bool

func init() {
	os.Setenv("TZ", "UTC")
	if rc := C.simvfs_register(); rc != 0 {
		panic(fmt.Sprint("vfs register: ", rc))
	}
	simext.SQLDSN = func(n *simrt.Node, dsn string) string { return Prefix(n) + dsn }
	simrt.OnNodeDeath(func(n *simrt.Node) {
		c := C.CString(Prefix(n))
		C.simvfs_died(c)
		if s := simrt.S; s != nil && s.Cfg.Disk.PowerCut && s.DiskR.P(0.5) {
			s.Injected("power-cut " + n.Name)
			C.simvfs_powercut(c, C.ulonglong(s.DiskR.U64()))
		}
		C.free(unsafe.Pointer(c))
	})
}

// Reset drops all files and seeds sqlite's random generator.
func Reset(seed uint64) {
	C.simvfs_seed(C.ulonglong(seed))
	run++
	c, d := C.CString("/"), C.CString(fmt.Sprintf("/%d/", run))
	C.simvfs_wipe(c, d)
	C.free(unsafe.Pointer(c))
	C.free(unsafe.Pointer(d))
}

// SetTZ sets the local time zone of the simulated machines (Go and C): hours east of Greenwich.
func SetTZ(h int) {
	c := C.CString(fmt.Sprintf("SIM%+d", -h))
	C.simvfs_tz(c)
	C.free(unsafe.Pointer(c))
	time.Local = time.FixedZone("SIM", h*3600)
}

//export simvfsHook
func simvfsHook(kind C.int, name *C.char, n C.int) C.int {
	s := simrt.S
	t := simrt.Cur()
	if s == nil || t == nil || t.Node == nil {
		return 0
	}
	Ops[kind]++
	simrt.EnterC()
	defer simrt.LeaveC()
	if CrashAt != nil && CrashAt(t.Node, int(kind)) {
		s.Injected(fmt.Sprintf("crash-at-disk-op-%d %s", kind, t.Node.Name))
		s.CrashNode(t.Node, "injected crash")
	}
	d := &s.Cfg.Disk
	if d.PYield > 0 && s.DiskR.P(d.PYield) {
		if d.SlowFor > 0 {
			s.SleepFor(time.Duration(s.DiskR.I64(d.SlowFor)))
		} else {
			simrt.Yield()
		}
	}
	switch kind {
	case 1:
		if s.Fault(s.DiskR, "disk-read-error", d.PIOErr/4) {
			return 10 | 1<<8
		}
	case 2:
		if s.Fault(s.DiskR, "disk-full", d.PFull) {
			return C.int(13 | s.DiskR.N(int(n)+1)<<16)
		}
		if s.Fault(s.DiskR, "disk-write-error", d.PIOErr) {
			return C.int(10 | 3<<8 | s.DiskR.N(int(n)+1)<<16)
		}
	case 4:
		if s.Fault(s.DiskR, "disk-sync-error", d.PIOErr) {
			return 10 | 4<<8
		}
	case 7:
		if s.Fault(s.DiskR, "disk-open-error", d.PIOErr/4) {
			return 14
		}
	}
	return 0
}

//export simvfsNow
func simvfsNow() C.longlong { return C.longlong(simrt.Now().UnixMilli()) }

//export simvfsSleep
func simvfsSleep(us C.int) {
	s := simrt.S
	if s == nil || simrt.Cur() == nil {
		return
	}
	simrt.EnterC()
	defer simrt.LeaveC()
	s.SleepFor(time.Duration(us) * time.Microsecond)
}

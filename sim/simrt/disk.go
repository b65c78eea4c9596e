package simrt

// DiskConfig shapes the simulated disk of one run.
type DiskConfig struct {
	PIOErr   float64 // per operation: EIO
	PFull    float64 // per write: disk full
	PYield   float64 // per operation: other tasks may run (slow disk)
	SlowFor  int64
	PowerCut bool // crashes lose what was not synced
}

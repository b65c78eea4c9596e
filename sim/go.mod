module sim.local/h

go 1.21

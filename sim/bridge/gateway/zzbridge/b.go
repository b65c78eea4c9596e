// Package zzbridge lets the simulation's scenarios reach the gateway's internal packages.
package zzbridge

import "github.com/ConsenSys/fc-retrieval/gateway/internal/reputation"

// Reputation is the gateway's record of its clients' standing.
type Reputation = reputation.Reputation

// NewReputation is the one of the running process.
func NewReputation() *Reputation { return reputation.GetSingleInstance() }

//go:build nodutyvar

package main

import "github.com/dappnode/mev-sp-oracle/oracle"

// resetDuties, for a tree that keeps its epoch cache elsewhere: a duty of a far epoch takes its place
func resetDuties(on *oracle.Onchain) { guard(func() { on.GetProposalDuty(1 << 50) }) }

//go:build !nodutyvar

package main

import "github.com/dappnode/mev-sp-oracle/oracle"

// resetDuties forgets the fetcher's epoch cache (a new process has an empty one)
func resetDuties(on *oracle.Onchain) { oracle.ProposalDutyCache = oracle.EpochDuties{} }

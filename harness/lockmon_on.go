//go:build lockmon

package main

import "github.com/dappnode/mev-sp-oracle/verifmon"

func lockReports() []string { return verifmon.Report() }
func lockHeld() []string    { return verifmon.Held() }
func lockMine() []string    { return verifmon.HeldByMe() }
func lockStats() (acquired, contended int64, sites int) {
	return verifmon.Acquired, verifmon.Contended, verifmon.Sites()
}

//go:build !lockmon

package main

func lockReports() []string                             { return nil }
func lockHeld() []string                                { return nil }
func lockMine() []string                                { return nil }
func lockStats() (acquired, contended int64, sites int) { return 0, 0, 0 }

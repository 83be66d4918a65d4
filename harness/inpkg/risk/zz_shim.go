package app

import ui "uniswap-simulator/uint256"

func ZZReturns(p []*ui.Int) []float64   { return getReturns(p) }
func ZZDrawdown(p []*ui.Int) float64    { return calculateMaximumDrawdown(p) }
func ZZDeviation(p []*ui.Int) float64   { return calculateStd(p) }
func ZZDownward(p []*ui.Int) float64    { return calculateDownDeviation(p) }
func ZZValueAtRisk(p []*ui.Int) float64 { return calculateVar(p) }

package app

import "uniswap-simulator/lib/result"

func ZZSave(start string, rs []result.RunResult, name string, from, to int) {
	startAmount = start
	saveFile(rs, name, from, to)
}

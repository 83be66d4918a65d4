package app

import (
	"sync"
	"uniswap-simulator/lib/executor"
	"uniswap-simulator/lib/result"
)

func ZZRunAndAppend(wg *sync.WaitGroup, ex *executor.Execution, i, mul, duration, interval int, rs []result.RunResult) {
	runAndAppend(wg, ex, i, mul, duration, interval, rs)
}

package main

import (
	"verif.local/h/hx"
	"verif.local/vs"
)

// narrow adds variants with short queues to a suite.
func narrow(f vs.Suite, names ...string) vs.Suite {
	return func(tier string) []*vs.Scenario { return hx.Narrow(f(tier), 1, names...) }
}

func main() {
	vs.Main(map[string]vs.Suite{
		"P16": narrow(p16, "history", "live", "resume/2"), "P17": narrow(p17, "caughtup", "slow", "fast"), "P18": p18,
		"P19": narrow(p19, "one", "two", "twice", "retention"),
		"P20": p20, "P21": p21, "P22": p22, "P23": narrow(p23, ""), "P24": narrow(p24, ""), "P25": p25, "P26": p26, "P27": p27, "P28": p28, "P29": narrow(p29, "redundant", "split", "kafka"), "P30": p30, "P31": p31, "P34": p34, "P36": p36, "P37": p37, "P38": p38, "P39": p39, "P40": p40, "P41": p41, "P42": p42,
	})
}

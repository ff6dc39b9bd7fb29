package main

import "verif.local/vs"

func main() {
	vs.Main(map[string]vs.Suite{
		"P01": p01,
		"P02": p02,
		"P03": p03,
		"P04": p04,
		"P05": p05,
		"P06": p06,
		"P07": p07,
		"P08": p08,
		"P09": p09,
		"P10": p10,
		"P11": p11,
		"P12": p12,
		"P13": p13, "P14": p14, "P15": p15, "P32": p32, "P33": p33, "P35": p35,
	})
}

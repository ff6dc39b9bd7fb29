//go:build !race

package vs

const RaceEnabled = false

func raceDisable()              {}
func raceEnable()               {}
func RaceErrors() int           { return 0 }
func raceRel(g *G)              {}
func (g *G) acquire(c *int64)   {}
func raceAcqAll(g *G)           {}
func raceReleaseMerge(c *int64) {}
func raceAcquire(c *int64)      {}

func (ch *hchan) raceSend(g *G) {}
func (ch *hchan) raceRecv(g *G) {}

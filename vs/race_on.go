//go:build race

package vs

import (
	"runtime"
	"unsafe"
)

const RaceEnabled = true

func raceDisable() { runtime.RaceDisable() }
func raceEnable()  { runtime.RaceEnable() }

// RaceErrors returns the number of data races reported so far.
func RaceErrors() int { return runtime.RaceErrors() }

func raceRel(g *G) {
	c := new(int64)
	g.relCell = c
	g.acq = nil
	runtime.RaceRelease(unsafe.Pointer(c))
}

func (g *G) acquire(c *int64) {
	if c != nil {
		g.acq = append(g.acq, c)
	}
}

func raceAcqAll(g *G) {
	for _, c := range g.acq {
		runtime.RaceAcquire(unsafe.Pointer(c))
	}
	g.acq = nil
}

func raceReleaseMerge(c *int64) { runtime.RaceReleaseMerge(unsafe.Pointer(c)) }
func raceAcquire(c *int64)      { runtime.RaceAcquire(unsafe.Pointer(c)) }

type slot struct{ cells []*int64 }

// buffered channel: the k-th send happens before the k-th receive; the k-th
// receive happens before the (k+cap)-th send completes.
func (ch *hchan) raceSend(g *G) {
	if ch.cap > 0 && ch.sent >= ch.cap {
		i := ch.sent - ch.cap
		if i < len(ch.recvCells) {
			g.acquire(ch.recvCells[i])
		}
	}
	ch.sendCells = append(ch.sendCells, g.relCell)
	ch.sent++
}

func (ch *hchan) raceRecv(g *G) {
	if ch.rcvd < len(ch.sendCells) {
		g.acquire(ch.sendCells[ch.rcvd])
	}
	ch.recvCells = append(ch.recvCells, g.relCell)
	ch.rcvd++
}

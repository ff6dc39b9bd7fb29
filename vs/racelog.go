package vs

import (
	"fmt"
	"os"
	"os/exec"
	"regexp"
	"strings"
)

// The race detector writes its reports to a file. A report counts if both
// accesses are made by the code under test, or one by it and the other by the
// harness, which uses it as its users do; the scheduler and the fakes, which
// share memory without synchronisation that the detector could see, do not.

// raceSetup starts the process again with the detector's log in a file.
func raceSetup() {
	if !RaceEnabled || os.Getenv("VS_RACELOG") != "" {
		return
	}
	dir, err := os.MkdirTemp("", "vs-race-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	cmd := exec.Command(os.Args[0], os.Args[1:]...)
	cmd.Env = append(os.Environ(), "VS_RACELOG="+dir+"/log", "GORACE=halt_on_error=0 exitcode=0 history_size=4 atexit_sleep_ms=0 log_path="+dir+"/log")
	cmd.Stdin, cmd.Stdout, cmd.Stderr = os.Stdin, os.Stdout, os.Stderr
	err = cmd.Run()
	os.RemoveAll(dir)
	if e, ok := err.(*exec.ExitError); ok {
		os.Exit(e.ExitCode())
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	os.Exit(0)
}

var (
	raceOff   int64
	accessRe  = regexp.MustCompile(`(?m)^(?:Previous )?(?:[Aa]tomic )?(?:[Ww]rite|[Rr]ead) (?:of size \d+ )?at 0x[^\n]*\n`)
	frameRe   = regexp.MustCompile(`(?m)^  (\S+?)\(\)\n\s+(\S+)`)
	sutPrefix = "github.com/openrelayxyz/cardinal-streams/"
)

// newRaces returns the relevant reports written since the last call.
func newRaces() []string {
	f, err := os.Open(fmt.Sprintf("%s.%d", os.Getenv("VS_RACELOG"), os.Getpid()))
	if err != nil {
		return nil
	}
	defer f.Close()
	st, err := f.Stat()
	if err != nil {
		return nil
	}
	buf := make([]byte, st.Size()-raceOff)
	n, _ := f.ReadAt(buf, raceOff)
	raceOff += int64(n)
	var out []string
	for i, rep := range strings.Split(string(buf[:n]), "WARNING: DATA RACE") {
		if i == 0 {
			continue
		}
		if k := strings.Index(rep, "\n=================="); k >= 0 {
			rep = rep[:k]
		}
		acc := rep
		if k := strings.Index(acc, "\nGoroutine "); k >= 0 {
			acc = acc[:k]
		}
		parts := accessRe.Split(acc, -1)
		if len(parts) != 3 {
			continue
		}
		var tops []string
		sut := 0
		for _, p := range parts[1:] {
			for _, fr := range frameRe.FindAllStringSubmatch(p, -1) {
				fn := fr[1]
				first := fn
				if k := strings.Index(first, "/"); k >= 0 {
					first = first[:k]
				}
				if !strings.Contains(first, ".") || (!strings.Contains(fn, "/") && !strings.HasPrefix(fn, "main.")) {
					continue // the standard library
				}
				if strings.HasPrefix(fn, sutPrefix) {
					sut++
				} else if !strings.HasPrefix(fn, "main.") && !strings.HasPrefix(fn, "verif.local/h/") {
					break
				}
				tops = append(tops, strings.TrimPrefix(fn, sutPrefix+"v2/"))
				break
			}
		}
		if len(tops) == 2 && sut > 0 {
			out = append(out, "DATA RACE: "+tops[0]+" and "+tops[1]+"\x00"+rep)
		}
	}
	return out
}

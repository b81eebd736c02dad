//go:build go1.21

package main

import (
	"fmt"
	"os"
	"strings"

	"VERIFMOD/verifsim"
)

// The race detector writes its reports to the file named by GORACE's log_path.
var raceOff int64

func raceLog() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			return fmt.Sprintf("%s.%d", f[len("log_path="):], os.Getpid())
		}
	}
	return ""
}

// raceViolation reads what the race detector has reported since the last call.
// A report in which no access was made by the code under test would be the
// harness's own.
func raceViolation() *Violation {
	p := raceLog()
	b, err := os.ReadFile(p)
	if err != nil || int64(len(b)) <= raceOff {
		fatal("the race detector counted a race but %q has no report: %v", p, err)
	}
	text := string(b[raceOff:])
	raceOff = int64(len(b))
	for _, rep := range strings.Split(text, "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		var acc []string
		lines := strings.Split(rep, "\n")
		what := ""
		for i := 0; i < len(lines); i++ {
			l := strings.TrimSpace(lines[i])
			switch {
			case strings.HasPrefix(l, "Goroutine "):
				what = ""
			case strings.Contains(l, " at 0x") && strings.Contains(l, "by ") || strings.HasPrefix(l, "Previous"):
				what = strings.SplitN(l, " at ", 2)[0]
			case what != "" && ours(l):
				acc = append(acc, strings.ToLower(what)+" in "+short(l))
				what = ""
			}
		}
		if len(acc) > 0 {
			return &Violation{"race", "data race: " + strings.Join(acc, " / ")}
		}
		fatal("race report without the code under test:\n%s", rep)
	}
	fatal("unreadable race report:\n%s", text)
	return nil
}

// ours says whether a frame belongs to the code under test or its dependencies.
func ours(frame string) bool {
	i := strings.LastIndexByte(frame, '(')
	if i < 0 {
		return false
	}
	f := frame
	if strings.HasPrefix(f, modPath+"/verifsim") {
		return false
	}
	return strings.HasPrefix(f, modPath+"/") || strings.HasPrefix(f, "github.com/")
}

func short(f string) string {
	f = strings.TrimSuffix(strings.TrimSpace(f), "()")
	return f[strings.LastIndexByte(f, '/')+1:]
}

const modPath = "VERIFMOD"

func raceErrors() int { return verifsim.RaceErrors() }

package main

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/sisu-network/lib/log"
)

// hookLogger drops the log lines of the code under test. Each line is also a point at which the
// schedule can be disturbed.
type hookLogger struct {
	mu    sync.Mutex
	rng   *rand.Rand
	level int
	lines []string
	keep  int
}

var theLogger = &hookLogger{rng: rand.New(rand.NewSource(1)), keep: 300}

func quietLogs() { log.SetLogger(theLogger) }

// The checks whose workloads run with pauses at log lines.
var perturbed = map[string]bool{"C01": true, "C02": true, "C04": true, "C05": true, "C07": true, "C10": true, "C11": true, "C15": true, "C17": true}

// perturb makes log lines to points where goroutines pause. 0: never.
func perturb(level int, seed int64) {
	theLogger.mu.Lock()
	theLogger.level = level
	theLogger.rng = rand.New(rand.NewSource(seed))
	theLogger.mu.Unlock()
}

func recentLogs() []string {
	theLogger.mu.Lock()
	defer theLogger.mu.Unlock()
	return append([]string{}, theLogger.lines...)
}

func (l *hookLogger) line(format string, a []interface{}) {
	raceOff()
	l.mu.Lock()
	level := l.level
	x := l.rng.Intn(100)
	d := time.Duration(l.rng.Intn(3000)) * time.Microsecond
	l.mu.Unlock()
	raceOn()
	switch {
	case level == 0:
	case x < 40:
		runtime.Gosched()
	case x < 40+level*10:
		time.Sleep(d)
	}
}

func (l *hookLogger) note(format string, a []interface{}) {
	s := ""
	if format == "" {
		s = fmt.Sprint(a...)
	} else {
		s = fmt.Sprintf(format, a...)
	}
	if len(s) > 300 {
		s = s[:300]
	}
	raceOff()
	l.mu.Lock()
	if len(l.lines) >= l.keep {
		l.lines = append(l.lines[:0:0], l.lines[len(l.lines)/2:]...)
	}
	l.lines = append(l.lines, s)
	l.mu.Unlock()
	raceOn()
}

func (l *hookLogger) Critical(a ...interface{})               { l.note("", a); l.line("", a) }
func (l *hookLogger) Error(a ...interface{})                  { l.note("", a); l.line("", a) }
func (l *hookLogger) Warn(a ...interface{})                   { l.note("", a); l.line("", a) }
func (l *hookLogger) Info(a ...interface{})                   { l.line("", a) }
func (l *hookLogger) Debug(a ...interface{})                  { l.line("", a) }
func (l *hookLogger) Verbose(a ...interface{})                { l.line("", a) }
func (l *hookLogger) HighVerbose(a ...interface{})            { l.line("", a) }
func (l *hookLogger) Errorf(f string, a ...interface{})       { l.note(f, a); l.line(f, a) }
func (l *hookLogger) Warnf(f string, a ...interface{})        { l.note(f, a); l.line(f, a) }
func (l *hookLogger) Infof(f string, a ...interface{})        { l.line(f, a) }
func (l *hookLogger) Debugf(f string, a ...interface{})       { l.line(f, a) }
func (l *hookLogger) Verbosef(f string, a ...interface{})     { l.line(f, a) }
func (l *hookLogger) HighVerbosef(f string, a ...interface{}) { l.line(f, a) }

package main

import (
	"bytes"
	"context"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"syscall"
	"time"
	"unsafe"
)

const (
	pageSize   = 96 << 20
	siteOff    = 16 << 10
	siteMax    = 48 << 10
	tapeOff    = 64 << 10
	tapeMax    = 1 << 16
	logOff     = 1 << 20
	inputOff   = 10 << 20
	inputMax   = 22 << 20
	journalOff = 32 << 20

	stRunning  = 1
	stDone     = 2
	stDeadlock = 3
	stBudget   = 4
	stKilled   = 5
	stExit     = 6
)

// Fault is one injected fault: the Nth (from 0) call of operation Op.
type Fault struct {
	Op    string `json:"op"`
	Nth   int    `json:"nth"`
	Act   string `json:"act"`
	Arg   int    `json:"arg,omitempty"`
	Errno int    `json:"errno,omitempty"`
	Stay  bool   `json:"stay,omitempty"` // all later calls as well
}

type Rates struct {
	Seed       uint64 `json:"seed"`
	Eintr      int    `json:"eintr"`
	ShortRead  int    `json:"short_read"`
	ShortWrite int    `json:"short_write"`
}

// Sched is the scheduler's part of a run.
type Sched struct {
	Seed       uint64   `json:"seed"`
	Rand       uint64   `json:"rand"`
	Strategy   uint64   `json:"strategy"` // 0 fifo, 1 random, 2 priorities (PCT), 3 newest first
	Yield      uint64   `json:"yield"`    // yield probability per site visit, of 2^32
	MaskSeed   uint64   `json:"mask_seed,omitempty"`
	MaskThresh uint64   `json:"mask_thresh,omitempty"`
	MaxSteps   uint64   `json:"max_steps"`
	KillStep   uint64   `json:"kill_step,omitempty"`
	NCPU       uint64   `json:"ncpu"`
	Tick       uint64   `json:"tick"`
	JumpStep   uint64   `json:"jump_step,omitempty"`
	JumpDelta  int64    `json:"jump_delta,omitempty"`
	PCTDepth   uint64   `json:"pct_depth,omitempty"`
	PCTRange   uint64   `json:"pct_range,omitempty"`
	Tape       bool     `json:"tape"`
	TapeYields []uint64 `json:"tape_yields,omitempty"` // step numbers
	TapePicks  []uint64 `json:"tape_picks,omitempty"`  // pick number<<16 | index
}

// Run is one simulated execution, completely described.
type Run struct {
	Bin    string            `json:"bin"` // cli, lib, cli-race, lib-race
	Args   []string          `json:"args"`
	Files  map[string]string `json:"files,omitempty"`
	Dirs   []string          `json:"dirs,omitempty"`
	RO     []string          `json:"ro,omitempty"`
	Faults []Fault           `json:"faults,omitempty"`
	Rates  Rates             `json:"rates"`
	Disk   int64             `json:"disk,omitempty"`
	Lib    json.RawMessage   `json:"lib,omitempty"`
	Sched  Sched             `json:"sched"`
}

type Rec struct {
	T     string          `json:"t"`
	Op    string          `json:"op"`
	Path  string          `json:"path"`
	Fd    int             `json:"fd"`
	N     int64           `json:"n"`
	Errno int             `json:"errno"`
	Ino   int             `json:"ino"`
	Off   int64           `json:"off"`
	B     string          `json:"b"`
	Code  int             `json:"code"`
	G     int             `json:"g"`
	Nth   int             `json:"nth"`
	Act   string          `json:"act"`
	Arg   int             `json:"arg"`
	V     json.RawMessage `json:"v"`
	Seq   uint64          `json:"seq"`
	Ret   uint64          `json:"ret"`
	C     int             `json:"c"`
}

// Result is what a run did.
type Result struct {
	ExitCode  int
	Signal    string
	Status    uint64
	Steps     uint64
	Yields    uint64
	Picks     uint64
	Multi     uint64
	Hash      uint64
	MaxRun    uint64
	Now       uint64
	RandUse   uint64
	ClockUse  uint64
	TimerJmp  uint64
	Jumped    uint64
	Log       []uint64
	LogOver   bool
	Stderr    string // what the process wrote past the simulated kernel: runtime faults, race reports
	Std       string // simulated stdout and stderr
	Recs      []Rec
	Files     map[string]string // file contents when the process ended
	Timeout   bool
	Overflow  bool
	Returned  bool
	Goroutine int
	Journal   []byte
	Sites     []byte
	LastSite  uint64
	OpCount   map[string]int
}

// Worker owns one shared page.
type Worker struct {
	bi   *buildInfo
	file *os.File
	page []byte
}

func newWorker(bi *buildInfo) *Worker {
	name := []byte("vsim\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1 /*CLOEXEC*/, 0)
	var f *os.File
	if e == 0 {
		f = os.NewFile(fd, "memfd")
	} else {
		var err error
		f, err = os.CreateTemp(bi.Dir, "page")
		must(err)
		os.Remove(f.Name())
	}
	must(f.Truncate(pageSize))
	p, err := syscall.Mmap(int(f.Fd()), 0, pageSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	must(err)
	return &Worker{bi: bi, file: f, page: p}
}

func (w *Worker) close() {
	syscall.Munmap(w.page)
	w.file.Close()
}

const runTimeout = 100 * time.Second

func (w *Worker) exec(r *Run) *Result {
	slots := (*[256]uint64)(unsafe.Pointer(&w.page[0]))
	for i := range slots {
		slots[i] = 0
	}
	clear(w.page[siteOff : siteOff+siteMax])
	s := &r.Sched
	slots[0] = 0x56455249
	slots[1], slots[2], slots[3], slots[4] = s.Seed, s.Rand, s.Strategy, s.Yield
	slots[5], slots[6], slots[7], slots[8] = s.MaskSeed, s.MaskThresh, s.MaxSteps, s.KillStep
	slots[9] = s.NCPU
	if s.NCPU == 0 {
		slots[9] = 8
	}
	if s.MaxSteps == 0 {
		slots[7] = 1 << 40
	}
	slots[12], slots[13] = s.Tick, 1700000000
	slots[14], slots[15] = s.JumpStep, uint64(s.JumpDelta)
	slots[16], slots[17] = s.PCTDepth, s.PCTRange
	if s.Tape {
		slots[10] = 1
		slots[11] = uint64(len(s.TapeYields))
		slots[18] = uint64(len(s.TapePicks))
		if len(s.TapeYields)+len(s.TapePicks) > tapeMax {
			fatal("tape too long")
		}
		t := w.page[tapeOff:]
		for i, y := range s.TapeYields {
			binary.LittleEndian.PutUint64(t[8*i:], y<<16)
		}
		for i, y := range s.TapePicks {
			binary.LittleEndian.PutUint64(t[8*(i+len(s.TapeYields)):], y|1<<63)
		}
	}
	job, err := json.Marshal(map[string]interface{}{
		"files": r.Files, "dirs": r.Dirs, "ro": r.RO, "faults": r.Faults, "rates": r.Rates, "disk": r.Disk, "lib": r.Lib,
	})
	must(err)
	if len(job) > inputMax {
		fatal("job too large")
	}
	copy(w.page[inputOff:], job)
	slots[20] = uint64(len(job))

	var bin string
	switch r.Bin {
	case "cli":
		bin = w.bi.CLI
	case "lib":
		bin = w.bi.Lib
	case "cli-race":
		bin = w.bi.Race
	case "lib-race":
		bin = w.bi.RLib
	}
	if bin == "" {
		fatal("binary %s was not built", r.Bin)
	}
	ctx, cancel := context.WithTimeout(context.Background(), runTimeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, r.Args...)
	cmd.Dir = filepath.Join(w.bi.Dir, "empty")
	cmd.SysProcAttr = nobody
	cmd.Env = []string{"VERIF_SIM_FD=3", "PWD=/sim", "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=1500MiB", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single",
		"GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0 history_size=2", "TZ=UTC"}
	if r.Bin == "cli" || r.Bin == "lib" { // the race detector needs more room than can be limited
		cmd.Env = append(cmd.Env, "VERIF_SIM_AS=3221225472")
	}
	cmd.ExtraFiles = []*os.File{w.file}
	var errb bytes.Buffer
	cmd.Stderr = &limited{b: &errb, n: 1 << 20}
	cmd.Stdout = cmd.Stderr
	err = cmd.Run()
	res := &Result{Files: map[string]string{}}
	var ee *exec.ExitError
	if err != nil && !errors.As(err, &ee) {
		fatal("starting %s: %v", bin, err)
	}
	if cmd.ProcessState != nil {
		res.ExitCode = cmd.ProcessState.ExitCode()
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			res.Signal = ws.Signal().String()
		}
	}
	if ctx.Err() != nil {
		res.Timeout = true
	}
	res.Stderr = errb.String()
	res.Status, res.Steps, res.Yields, res.Picks, res.Multi = slots[64], slots[65], slots[66], slots[67], slots[68]
	res.Hash, res.MaxRun, res.Now, res.RandUse, res.ClockUse = slots[69], slots[73], slots[72], slots[77], slots[76]
	res.TimerJmp, res.Jumped, res.LastSite = slots[74], slots[78], slots[75]
	res.LogOver = slots[71] != 0
	res.Overflow = slots[81] != 0
	n := slots[70]
	res.Log = make([]uint64, n)
	for i := range res.Log {
		res.Log[i] = binary.LittleEndian.Uint64(w.page[logOff+8*i:])
	}
	res.Sites = append([]byte{}, w.page[siteOff:siteOff+siteMax]...)
	res.Journal = append([]byte{}, w.page[journalOff:journalOff+int(slots[80])]...)
	res.replayJournal(r)
	return res
}

type limited struct {
	b *bytes.Buffer
	n int
}

func (l *limited) Write(p []byte) (int, error) {
	if k := l.n - l.b.Len(); k > 0 {
		if len(p) < k {
			k = len(p)
		}
		l.b.Write(p[:k])
	}
	return len(p), nil
}

// replayJournal rebuilds the simulated disk from the effect records.
func (res *Result) replayJournal(r *Run) {
	type ino struct{ data []byte }
	names := map[string]*ino{}
	byID := map[int]*ino{}
	for p, c := range r.Files {
		names[p] = &ino{[]byte(c)}
	}
	res.OpCount = map[string]int{}
	for _, line := range bytes.Split(res.Journal, []byte{'\n'}) {
		if len(line) == 0 {
			continue
		}
		var rec Rec
		if err := json.Unmarshal(line, &rec); err != nil {
			fatal("journal: %v: %.200s", err, line)
		}
		get := func() *ino {
			if n := byID[rec.Ino]; n != nil {
				return n
			}
			n := names[rec.Path]
			if n == nil {
				n = &ino{}
				names[rec.Path] = n
			}
			byID[rec.Ino] = n
			return n
		}
		switch rec.T {
		case "link":
			names[rec.Path] = get()
			if n := byID[rec.Ino]; n != nil {
				names[rec.Path] = n
			} else {
				n := &ino{}
				byID[rec.Ino] = n
				names[rec.Path] = n
			}
		case "unlink":
			delete(names, rec.Path)
		case "trunc":
			n := get()
			if int64(len(n.data)) > rec.N {
				n.data = append([]byte{}, n.data[:rec.N]...)
			} else {
				n.data = append(n.data, make([]byte, rec.N-int64(len(n.data)))...)
			}
		case "data", "lose":
			b, _ := base64.StdEncoding.DecodeString(rec.B)
			n := get()
			if rec.T == "lose" {
				n.data = b
				break
			}
			end := rec.Off + int64(len(b))
			if int64(len(n.data)) < end {
				n.data = append(n.data, make([]byte, end-int64(len(n.data)))...)
			}
			copy(n.data[rec.Off:], b)
		case "std":
			b, _ := base64.StdEncoding.DecodeString(rec.B)
			res.Std += string(b)
		case "sys":
			res.OpCount[rec.Op]++
		case "exit": // os.Exit; with 0 it is as good as a return
			res.Returned = true
		case "return":
			res.Returned = true
			res.Goroutine = rec.G
		}
		rec.B = ""
		res.Recs = append(res.Recs, rec)
	}
	for p, n := range names {
		res.Files[p] = string(n.data)
	}
}

// tape turns what a run decided into an explicit schedule.
func (res *Result) tape(s Sched) (Sched, bool) {
	if res.LogOver || len(res.Log) > tapeMax {
		return s, false
	}
	s.Tape = true
	s.TapeYields, s.TapePicks = nil, nil
	for _, v := range res.Log {
		if v>>63 == 0 {
			s.TapeYields = append(s.TapeYields, v>>16)
		} else {
			s.TapePicks = append(s.TapePicks, v&^(1<<63))
		}
	}
	return s, true
}

func (res *Result) fatalText() string {
	lines := bytes.Split([]byte(res.Stderr), []byte{'\n'})
	for _, l := range lines {
		if bytes.HasPrefix(l, []byte("panic:")) || bytes.HasPrefix(l, []byte("fatal error:")) || bytes.HasPrefix(l, []byte("WARNING: DATA RACE")) {
			return string(l)
		}
	}
	return ""
}

func sortedKeys(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = fmt.Sprint
var _ = filepath.Join

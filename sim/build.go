package main

import (
	"bytes"
	"crypto/sha256"
	"embed"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

//go:embed overlay/*.txt
var overlayFS embed.FS

// repoDir is the tree under test. It is /repo except when a scratch copy is
// being examined by hand.
var repoDir = envOr("VERIF_REPO", "/repo")

const goVersion = "go1.27.3"
const goRoot = "/opt/veriftools/go1.27.3"

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type patch struct{ old, new string }

// goPatches are the edits made (in an overlay, never on disk) to the Go
// toolchain's own library so that every scheduling decision, random number,
// clock reading and file system call is the simulator's.
var goPatches = map[string][]patch{
	"runtime/proc.go": {
		{"const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
		{"func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n\tif simOn {\n\t\treturn simRunqget(pp), false\n\t}\n"},
		{"\tif pp.schedtick%61 == 0 && !sched.runq.empty() {", "\tif !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {"},
		{"\t// Spinning Ms: steal work from other Ps.\n", "\tif simOn {\n\t\tsimIdle(pollUntil)\n\t\tgoto top\n\t}\n\t// Spinning Ms: steal work from other Ps.\n"},
		{"\tif preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW", "\tif simOn {\n\t\trunqput(pp, gp, false)\n\t} else if preempted && sched.gcwaiting.Load() {\n\t\t// If preempted for STW"},
	},
	"runtime/rand.go": {
		{"\tseed := &globalRand.seed\n", "\tseed := &globalRand.seed\n\tstartupRand = simSeedBuf[:]\n"},
		{"\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif simOn {\n\t\treturn simRand()\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
		{"func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif simOn {\n\t\treturn uint32(simRand())\n\t}\n"},
		{"func cheaprand64() int64 {\n", "func cheaprand64() int64 {\n\tif simOn {\n\t\treturn int64(simRand() >> 1)\n\t}\n"},
	},
	"runtime/time_nofake.go": {
		{"func nanotime() int64 {\n", "func nanotime() int64 {\n\tif simOn {\n\t\treturn simNanotime()\n\t}\n"},
	},
	"runtime/time.go": {
		{"\treturn time_now()\n}", "\tif simOn {\n\t\treturn simWall()\n\t}\n\treturn time_now()\n}"},
		{"\t_, _, mono = time_now()\n", "\tif simOn {\n\t\t_, _, mono = simWall()\n\t\treturn mono\n\t}\n\t_, _, mono = time_now()\n"},
	},
	"runtime/debug.go": {
		{"func GOMAXPROCS(n int) int {\n", "func GOMAXPROCS(n int) int {\n\tif simOn {\n\t\treturn int(simPage[simInNCPU])\n\t}\n"},
		{"\treturn int(numCPUStartup)\n", "\tif simOn {\n\t\treturn int(simPage[simInNCPU])\n\t}\n\treturn 8\n"},
	},
	"runtime/chan.go": {
		{"func chansend1(c *hchan, elem unsafe.Pointer) {\n", "func chansend1(c *hchan, elem unsafe.Pointer) {\n\tSimYield(49010)\n"},
		{"func chanrecv1(c *hchan, elem unsafe.Pointer) {\n", "func chanrecv1(c *hchan, elem unsafe.Pointer) {\n\tSimYield(49011)\n"},
		{"func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n", "func chanrecv2(c *hchan, elem unsafe.Pointer) (received bool) {\n\tSimYield(49012)\n"},
	},
	"sync/mutex.go": {
		{"func (m *Mutex) Lock() {\n", "func (m *Mutex) Lock() {\n\truntime_simYield(49020)\n"},
		{"func (m *Mutex) Unlock() {\n\tm.mu.Unlock()\n", "func (m *Mutex) Unlock() {\n\tm.mu.Unlock()\n\truntime_simYield(49021)\n"},
	},
	"sync/rwmutex.go": {
		{"func (rw *RWMutex) RLock() {\n", "func (rw *RWMutex) RLock() {\n\truntime_simYield(49022)\n"},
		{"func (rw *RWMutex) RUnlock() {\n", "func (rw *RWMutex) RUnlock() {\n\tdefer runtime_simYield(49023)\n"},
		{"func (rw *RWMutex) Lock() {\n", "func (rw *RWMutex) Lock() {\n\truntime_simYield(49024)\n"},
		{"func (rw *RWMutex) Unlock() {\n", "func (rw *RWMutex) Unlock() {\n\tdefer runtime_simYield(49025)\n"},
	},
	"sync/waitgroup.go": {
		{"func (wg *WaitGroup) Add(delta int) {\n", "func (wg *WaitGroup) Add(delta int) {\n\truntime_simYield(49026)\n"},
		{"func (wg *WaitGroup) Wait() {\n", "func (wg *WaitGroup) Wait() {\n\truntime_simYield(49027)\n"},
	},
	"os/proc.go": {
		{"\truntime_beforeExit(code)\n", "\tif syscall.Sim != nil && syscall.Sim.Exit != nil {\n\t\tsyscall.Sim.Exit(code)\n\t}\n\truntime_beforeExit(code)\n"},
	},
	"syscall/zsyscall_linux_amd64.go": {
		{"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n", "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Openat(dirfd, path, flags, mode)\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func read(fd int, p []byte) (n int, err error) {\n", "func read(fd int, p []byte) (n int, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Read(fd, p)\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func write(fd int, p []byte) (n int, err error) {\n", "func write(fd int, p []byte) (n int, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Write(fd, p)\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func pread(fd int, p []byte, offset int64) (n int, err error) {\n", "func pread(fd int, p []byte, offset int64) (n int, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Pread(fd, p, offset)\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n", "func pwrite(fd int, p []byte, offset int64) (n int, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Pwrite(fd, p, offset)\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Close(fd))\n\t}\n"},
		{"func Seek(fd int, offset int64, whence int) (off int64, err error) {\n", "func Seek(fd int, offset int64, whence int) (off int64, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Seek(fd, offset, whence)\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func Fstat(fd int, stat *Stat_t) (err error) {\n", "func Fstat(fd int, stat *Stat_t) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Fstat(fd, stat))\n\t}\n"},
		{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Fstatat(fd, path, stat, flags))\n\t}\n"},
		{"func Fsync(fd int) (err error) {\n", "func Fsync(fd int) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Fsync(fd, false))\n\t}\n"},
		{"func Fdatasync(fd int) (err error) {\n", "func Fdatasync(fd int) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Fsync(fd, true))\n\t}\n"},
		{"func Ftruncate(fd int, length int64) (err error) {\n", "func Ftruncate(fd int, length int64) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Ftruncate(fd, length))\n\t}\n"},
		{"func Truncate(path string, length int64) (err error) {\n", "func Truncate(path string, length int64) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Truncate(path, length))\n\t}\n"},
		{"func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Renameat(olddirfd, oldpath, newdirfd, newpath))\n\t}\n"},
		{"func unlinkat(dirfd int, path string, flags int) (err error) {\n", "func unlinkat(dirfd int, path string, flags int) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Unlinkat(dirfd, path, flags))\n\t}\n"},
		{"func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n", "func Mkdirat(dirfd int, path string, mode uint32) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Mkdirat(dirfd, path, mode))\n\t}\n"},
		{"func Getdents(fd int, buf []byte) (n int, err error) {\n", "func Getdents(fd int, buf []byte) (n int, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Getdents(fd, buf)\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func faccessat(dirfd int, path string, mode uint32) (err error) {\n", "func faccessat(dirfd int, path string, mode uint32) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(Sim.Access(dirfd, path, mode))\n\t}\n"},
		{"func fcntl(fd int, cmd int, arg int) (val int, err error) {\n", "func fcntl(fd int, cmd int, arg int) (val int, err error) {\n\tif Sim != nil {\n\t\tn, e := Sim.Other(\"fcntl\", fd, \"\")\n\t\treturn n, simErr(e)\n\t}\n"},
		{"func Fchmod(fd int, mode uint32) (err error) {\n", "func Fchmod(fd int, mode uint32) (err error) {\n\tif Sim != nil {\n\t\t_, e := Sim.Other(\"fchmod\", fd, \"\")\n\t\treturn simErr(e)\n\t}\n"},
		{"func fchmodat(dirfd int, path string, mode uint32) (err error) {\n", "func fchmodat(dirfd int, path string, mode uint32) (err error) {\n\tif Sim != nil {\n\t\t_, e := Sim.Other(\"fchmodat\", dirfd, path)\n\t\treturn simErr(e)\n\t}\n"},
		{"func Flock(fd int, how int) (err error) {\n", "func Flock(fd int, how int) (err error) {\n\tif Sim != nil {\n\t\t_, e := Sim.Other(\"flock\", fd, \"\")\n\t\treturn simErr(e)\n\t}\n"},
		{"func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {\n", "func linkat(olddirfd int, oldpath string, newdirfd int, newpath string, flags int) (err error) {\n\tif Sim != nil {\n\t\t_, e := Sim.Other(\"linkat\", olddirfd, oldpath)\n\t\treturn simErr(e)\n\t}\n"},
		{"func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {\n", "func symlinkat(oldpath string, newdirfd int, newpath string) (err error) {\n\tif Sim != nil {\n\t\t_, e := Sim.Other(\"symlinkat\", newdirfd, oldpath)\n\t\treturn simErr(e)\n\t}\n"},
		{"func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {\n", "func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {\n\tif Sim != nil {\n\t\treturn -1, simErr(EINVAL)\n\t}\n"},
		{"func Chdir(path string) (err error) {\n", "func Chdir(path string) (err error) {\n\tif Sim != nil {\n\t\treturn simErr(EACCES)\n\t}\n"},
	},
	"syscall/syscall_linux.go": {
		{"\t_, err = copyPathToBuf", "\t_, err = copyPathToBuf"},
	},
	"internal/syscall/unix/at.go": {
		{"func Unlinkat(dirfd int, path string, flags int) error {\n", "func Unlinkat(dirfd int, path string, flags int) error {\n\tif syscall.Sim != nil {\n\t\tif e := syscall.Sim.Unlinkat(dirfd, path, flags); e != 0 {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"},
		{"func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n", "func Openat(dirfd int, path string, flags int, perm uint32) (int, error) {\n\tif syscall.Sim != nil {\n\t\tfd, e := syscall.Sim.Openat(dirfd, path, flags, perm)\n\t\tif e != 0 {\n\t\t\treturn 0, e\n\t\t}\n\t\treturn fd, nil\n\t}\n"},
		{"func Mkdirat(dirfd int, path string, mode uint32) error {\n", "func Mkdirat(dirfd int, path string, mode uint32) error {\n\tif syscall.Sim != nil {\n\t\tif e := syscall.Sim.Mkdirat(dirfd, path, mode); e != 0 {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"},
		{"func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {\n", "func Renameat(olddirfd int, oldpath string, newdirfd int, newpath string) error {\n\tif syscall.Sim != nil {\n\t\tif e := syscall.Sim.Renameat(olddirfd, oldpath, newdirfd, newpath); e != 0 {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"},
	},
	"internal/syscall/unix/at_fstatat.go": {
		{"func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n", "func Fstatat(dirfd int, path string, stat *syscall.Stat_t, flags int) error {\n\tif syscall.Sim != nil {\n\t\tif e := syscall.Sim.Fstatat(dirfd, path, stat, flags); e != 0 {\n\t\t\treturn e\n\t\t}\n\t\treturn nil\n\t}\n"},
	},
	"internal/syscall/unix/copy_file_range_unix.go": {
		{"func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error) {\n", "func CopyFileRange(rfd int, roff *int64, wfd int, woff *int64, len int, flags int) (n int, err error) {\n\tif syscall.Sim != nil {\n\t\treturn 0, syscall.ENOSYS\n\t}\n"},
	},
}

func init() { delete(goPatches, "syscall/syscall_linux.go") }

type buildInfo struct {
	Dir   string // scratch directory
	CLI   string
	Lib   string
	Race  string // race variant of CLI
	RLib  string // race variant of lib
	Sites []string
	Tree  string // digest of the tree under test
}

func goEnv() []string {
	env := os.Environ()
	out := env[:0:0]
	for _, e := range env {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOROOT", "GOPATH", "GOMODCACHE", "GOTOOLCHAIN", "GOPROXY", "GOWORK", "PATH", "GOOS", "GOARCH", "GOEXPERIMENT", "CGO_ENABLED", "GOAMD64":
			continue
		}
		out = append(out, e)
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		out = append(out, "HOME=/root")
	}
	return append(out,
		"PATH="+goRoot+"/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off",
		"GOFLAGS=-mod=readonly", "CGO_ENABLED=1")
}

func fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vsim: "+format+"\n", a...)
	exit(3)
}

// build makes the simulation binaries from the current tree.
func build(dir string, wantCLI, wantLib, wantRace, wantRLib bool) *buildInfo {
	must(os.MkdirAll(dir, 0755))
	must(os.MkdirAll(filepath.Join(dir, "empty"), 0755))
	bi := &buildInfo{Dir: dir}
	replace := map[string]string{}
	put := func(target, name string, data []byte) {
		f := filepath.Join(dir, "ov", name)
		must(os.MkdirAll(filepath.Dir(f), 0755))
		must(os.WriteFile(f, data, 0644))
		replace[target] = f
	}
	// 1. the toolchain's library
	v, err := os.ReadFile(goRoot + "/VERSION")
	if err != nil || !strings.HasPrefix(string(v), goVersion+"\n") {
		fatal("expected %s in %s", goVersion, goRoot)
	}
	for rel, ps := range goPatches {
		src, err := os.ReadFile(filepath.Join(goRoot, "src", rel))
		if err != nil {
			fatal("%v", err)
		}
		s := string(src)
		for _, p := range ps {
			if strings.Count(s, p.old) != 1 {
				fatal("toolchain patch does not apply exactly once: %s: %q", rel, p.old)
			}
			s = strings.Replace(s, p.old, p.new, 1)
		}
		put(filepath.Join(goRoot, "src", rel), "go/"+rel, []byte(s))
	}
	for name, target := range map[string]string{
		"runtime_sim.go.txt": "runtime/zz_verif_sim.go",
		"syscall_sim.go.txt": "syscall/zz_verif_sim.go",
		"simsync.go.txt":     "sync/zz_verif_sim.go",
	} {
		b, _ := overlayFS.ReadFile("overlay/" + name)
		put(filepath.Join(goRoot, "src", target), "go/"+target, b)
	}
	// 2. yield points in the tree under test
	digest := sha256.New()
	files := goFiles(repoDir)
	for _, f := range files {
		src, err := os.ReadFile(f)
		must(err)
		rel, _ := filepath.Rel(repoDir, f)
		fmt.Fprintf(digest, "%s %d\n", rel, len(src))
		digest.Write(src)
		if strings.HasSuffix(f, "_test.go") || skipDir(rel) {
			continue
		}
		out := instrument(rel, src, &bi.Sites)
		if out != nil {
			put(f, "repo/"+rel, out)
		}
	}
	modfile := depModules(dir, &bi.Sites)
	if len(bi.Sites) >= 48000 {
		fatal("too many yield sites")
	}
	bi.Tree = hex.EncodeToString(digest.Sum(nil))[:16]
	// 3. harnesses
	kit, _ := overlayFS.ReadFile("overlay/simkit.go.txt")
	put(filepath.Join(repoDir, "zzverifsim/sim.go"), "repo/zzverifsim/sim.go", kit)
	cm, _ := overlayFS.ReadFile("overlay/climain.go.txt")
	put(filepath.Join(repoDir, "zz_verif_main.go"), "repo/zz_verif_main.go", cm)
	lm, err := overlayFS.ReadFile("overlay/libmain.go.txt")
	if err == nil {
		put(filepath.Join(repoDir, "zzveriflib/main.go"), "repo/zzveriflib/main.go", lm)
	}
	ov := filepath.Join(dir, "overlay.json")
	js, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	must(os.WriteFile(ov, js, 0644))

	type tgt struct {
		want bool
		out  *string
		name string
		args []string
		pkg  string
	}
	for _, t := range []tgt{
		{wantCLI, &bi.CLI, "cli", nil, "."},
		{wantLib, &bi.Lib, "lib", nil, "./zzveriflib"},
		{wantRace, &bi.Race, "cli-race", []string{"-race"}, "."},
		{wantRLib, &bi.RLib, "lib-race", []string{"-race"}, "./zzveriflib"},
	} {
		if !t.want {
			continue
		}
		out := filepath.Join(dir, t.name)
		args := append([]string{"build", "-modfile", modfile, "-overlay", ov, "-trimpath", "-buildvcs=false", "-o", out}, t.args...)
		args = append(args, t.pkg)
		cmd := exec.Command(goRoot+"/bin/go", args...)
		cmd.Dir = repoDir
		cmd.Env = goEnv()
		var errb bytes.Buffer
		cmd.Stderr = &errb
		cmd.Stdout = &errb
		if err := cmd.Run(); err != nil {
			fatal("building %s: %v\n%s", t.name, err, errb.String())
		}
		*t.out = out
	}
	return bi
}

// depNames are the modules that hold the data structures and I/O helpers the
// tree under test is built on: they get yield points of their own.
var depNames = []string{"deque", "sset", "iter", "heap", "fan", "fileutil"}

// depModules copies them, with yield points, and returns a go.mod that uses
// the copies.
func depModules(dir string, sites *[]string) string {
	mod, err := os.ReadFile(filepath.Join(repoDir, "go.mod"))
	must(err)
	sum, err := os.ReadFile(filepath.Join(repoDir, "go.sum"))
	must(err)
	out := string(mod)
	cache := "/root/go/pkg/mod"
	for _, name := range depNames {
		path := "github.com/intdxdt/" + name
		version := ""
		for _, l := range strings.Split(string(mod), "\n") {
			f := strings.Fields(strings.TrimPrefix(strings.TrimSpace(l), "require "))
			if len(f) >= 2 && f[0] == path {
				version = f[1]
			}
		}
		src := filepath.Join(cache, path+"@"+version)
		if _, err := os.Stat(src); version == "" || err != nil || strings.Contains(string(mod), "replace") {
			continue
		}
		dst := filepath.Join(dir, "dep", name)
		must(os.MkdirAll(dst, 0755))
		gm, err := os.ReadFile(filepath.Join(cache, "cache/download", path, "@v", version+".mod"))
		must(err)
		must(os.WriteFile(filepath.Join(dst, "go.mod"), gm, 0644))
		for _, f := range goFiles(src) {
			rel, _ := filepath.Rel(src, f)
			if strings.HasSuffix(f, "_test.go") || strings.Contains(rel, "/") {
				continue
			}
			b, err := os.ReadFile(f)
			must(err)
			if o := instrument(name+"/"+rel, b, sites); o != nil {
				b = o
			}
			must(os.WriteFile(filepath.Join(dst, rel), b, 0644))
		}
		out += fmt.Sprintf("\nreplace %s => %s\n", path, dst)
	}
	f := filepath.Join(dir, "sim.mod")
	must(os.WriteFile(f, []byte(out), 0644))
	must(os.WriteFile(filepath.Join(dir, "sim.sum"), sum, 0644))
	return f
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

func skipDir(rel string) bool {
	return strings.HasPrefix(rel, "constdp/app/") || strings.HasPrefix(rel, "dp/example/") ||
		strings.HasPrefix(rel, "zzverif") || strings.Contains(rel, "/testdata/")
}

func goFiles(root string) []string {
	var out []string
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if info.IsDir() {
			b := filepath.Base(p)
			if p != root && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") {
			out = append(out, p)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

// instrument inserts a yield point before every statement, without changing
// line numbers. A file that does not parse is left alone (the build reports it).
func instrument(rel string, src []byte, sites *[]string) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		return nil
	}
	const alias = "verifsimrt__"
	type ins struct {
		off  int
		text string
	}
	var inss []ins
	yield := func(pos token.Pos) {
		p := fset.Position(pos)
		id := len(*sites)
		*sites = append(*sites, fmt.Sprintf("%s:%d", rel, p.Line))
		inss = append(inss, ins{fset.File(pos).Offset(pos), fmt.Sprintf("%s.SimYield(%d);", alias, id)})
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			yield(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// the body of a select or switch holds clauses, not statements
			if len(x.List) > 0 {
				switch x.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				yield(x.Body.Rbrace)
			}
		case *ast.FuncDecl:
			if x.Recv == nil && x.Name.Name == "main" && f.Name.Name == "main" {
				o := fset.File(x.Name.Pos()).Offset(x.Name.Pos())
				inss = append(inss, ins{-o - 1, "verifRealMain"})
			}
		}
		return true
	})
	if len(inss) == 0 {
		return nil
	}
	used := false
	for _, i := range inss {
		if i.off >= 0 {
			used = true
		}
	}
	if used {
		inss = append(inss, ins{fset.File(f.Name.End()).Offset(f.Name.End()), "; import " + alias + " \"runtime\""})
	}
	key := func(i ins) int {
		if i.off < 0 {
			return -i.off - 1
		}
		return i.off
	}
	sort.SliceStable(inss, func(a, b int) bool { return key(inss[a]) < key(inss[b]) })
	var out bytes.Buffer
	last := 0
	for _, i := range inss {
		o := key(i)
		out.Write(src[last:o])
		out.WriteString(i.text)
		last = o
		if i.off < 0 {
			last = o + len("main")
		}
	}
	out.Write(src[last:])
	return out.Bytes()
}

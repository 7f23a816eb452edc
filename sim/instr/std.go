package instr

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

//go:embed patch/runtime_verif.txt
var runtimeVerif string

//go:embed patch/syscall_verif.txt
var syscallVerif string

//go:embed patch/time_verif.txt
var timeVerif string

type patch struct {
	file string
	reps [][2]string
}

var patches = []patch{
	{"sync/pool.go", [][2]string{
		{"func (p *Pool) Put(x any) {\n", "func (p *Pool) Put(x any) {\n\tif verifNoPool {\n\t\treturn\n\t}\n"},
		{"func (p *Pool) Get() any {\n", "// In a simulation the pool is always empty: it carries no state and no happens-before edge from\n// one task to another\nconst verifNoPool = true\n\nfunc (p *Pool) Get() any {\n\tif verifNoPool {\n\t\tif p.New != nil {\n\t\t\treturn p.New()\n\t\t}\n\t\treturn nil\n\t}\n"},
	}},
	{"runtime/rand.go", [][2]string{
		{"\tglobalRand.state.Init(*seed)\n", "\tverifRandInit(seed)\n\tglobalRand.state.Init(*seed)\n"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n\tif verifRandOn {\n\t\treturn verifRand()\n\t}\n"},
		{"\tmp.cheaprand = uint32(rand())\n\tmp.cheaprand64 = rand()\n", "\tmp.cheaprand = uint32(bootstrapRand())\n\tmp.cheaprand64 = bootstrapRand()\n"},
	}},
	{"runtime/debug.go", [][2]string{
		{"func NumCPU() int {\n", "func NumCPU() int {\n\tif n := verifNumCPU(); n > 0 {\n\t\treturn n\n\t}\n"},
	}},
	{"runtime/runtime2.go", [][2]string{
		{"\tparentGoid ", "\tverif uint64\n\tparentGoid "},
	}},
	{"runtime/proc.go", [][2]string{
		{"\tif randomizeScheduler && next && randn(2) == 0 {\n", "\tif randomizeScheduler && next && cheaprandn(2) == 0 {\n"},
		{"\tnewg.startpc = fn.fn\n", "\tnewg.startpc = fn.fn\n\tnewg.verif = verifMix(callergp.verif)\n\tif !isSystemGoroutine(newg, false) {\n\t\tcallergp.verif++\n\t}\n"},
	}},
	{"time/sleep.go", [][2]string{
		{"func when(d Duration) int64 {\n", "func when(d Duration) int64 {\n\tif verifTimers {\n\t\td = 0\n\t}\n"},
	}},
	{"os/getwd.go", [][2]string{
		{"func Getwd() (dir string, err error) {\n", "func Getwd() (dir string, err error) {\n\tif d, ok := syscall.Getenv(\"VERIF_CWD\"); ok {\n\t\treturn d, nil\n\t}\n"},
	}},
	{"time/time.go", [][2]string{
		{"func Now() Time {\n", "func Now() Time {\n\tif verifClock {\n\t\treturn verifNow()\n\t}\n"},
	}},
	{"os/sys_linux.go", [][2]string{
		{"func hostname() (name string, err error) {\n", "func hostname() (name string, err error) {\n\tif h, ok := syscall.Getenv(\"VERIF_HOST\"); ok {\n\t\treturn h, nil\n\t}\n"},
	}},
	{"syscall/env_unix.go", [][2]string{
		{"func Getenv(key string) (value string, found bool) {\n\tcopyenv()\n", "func Getenv(key string) (value string, found bool) {\n\tcopyenv()\n\tif v, ok := verifGetenv(key); ok {\n\t\treturn v, true\n\t}\n"},
	}},
	{"syscall/zsyscall_linux_amd64.go", [][2]string{
		{"func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n", "func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {\n\tpath = verifPath(path)\n\tif verifIO != nil {\n\t\tif e := verifOpen(path); e != 0 {\n\t\t\treturn -1, errnoErr(e)\n\t\t}\n\t\tdefer func() { verifOpened(path, fd) }()\n\t}\n"},
		{"func read(fd int, p []byte) (n int, err error) {\n", "func read(fd int, p []byte) (n int, err error) {\n\tif verifIO != nil {\n\t\tq, e, done := verifXfer(\"read\", fd, p)\n\t\tif done {\n\t\t\tif e != 0 {\n\t\t\t\treturn -1, errnoErr(e)\n\t\t\t}\n\t\t\treturn 0, nil\n\t\t}\n\t\tp = q\n\t\tdefer func() { verifDone(\"read\", fd, n, err) }()\n\t}\n"},
		{"func write(fd int, p []byte) (n int, err error) {\n", "func write(fd int, p []byte) (n int, err error) {\n\tif verifIO != nil {\n\t\tq, e, done := verifXfer(\"write\", fd, p)\n\t\tif done {\n\t\t\tif e != 0 {\n\t\t\t\treturn -1, errnoErr(e)\n\t\t\t}\n\t\t\treturn 0, nil\n\t\t}\n\t\tp = q\n\t\tdefer func() { verifDone(\"write\", fd, n, err) }()\n\t}\n"},
		{"func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n", "func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {\n\tpath = verifPath(path)\n"},
		{"func Getuid() (uid int) {\n", "func Getuid() (uid int) {\n\tif p, ok := Getenv(\"VERIF_UID\"); ok {\n\t\treturn verifAtoi(p)\n\t}\n"},
		{"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif p, ok := Getenv(\"VERIF_PID\"); ok {\n\t\treturn verifAtoi(p)\n\t}\n"},
		{"func Close(fd int) (err error) {\n", "func Close(fd int) (err error) {\n\tif verifIO != nil {\n\t\tif e := verifOther(\"close\", fd); e != 0 {\n\t\t\treturn errnoErr(e)\n\t\t}\n\t}\n"},
		{"func Fstat(fd int, stat *Stat_t) (err error) {\n", "func Fstat(fd int, stat *Stat_t) (err error) {\n\tif verifIO != nil {\n\t\tif e := verifOther(\"fstat\", fd); e != 0 {\n\t\t\treturn errnoErr(e)\n\t\t}\n\t\tdefer func() { verifStat(fd, stat) }()\n\t}\n"},
	}},
}

// Std writes simulated versions of some files in the standard library to out and returns their overlay
func Std(goroot, out string) (map[string]string, error) {
	overlay := make(map[string]string)
	put := func(name, content string) error {
		to := filepath.Join(out, "std__"+strings.ReplaceAll(name, "/", "__"))
		overlay[filepath.Join(goroot, "src", name)] = to
		return os.WriteFile(to, []byte(content), 0644)
	}
	for _, p := range patches {
		b, err := os.ReadFile(filepath.Join(goroot, "src", p.file))
		if err != nil {
			return nil, err
		}
		s := string(b)
		for _, r := range p.reps {
			if strings.Count(s, r[0]) != 1 {
				return nil, fmt.Errorf("cannot patch %s: %q not found once", p.file, r[0])
			}
			s = strings.Replace(s, r[0], r[1], 1)
		}
		if err = put(p.file, s); err != nil {
			return nil, err
		}
	}
	for name, c := range map[string]string{
		"runtime/zz_verif.go": runtimeVerif,
		"syscall/zz_verif.go": syscallVerif,
		"time/zz_verif.go":    timeVerif,
	} {
		if err := put(name, c); err != nil {
			return nil, err
		}
	}
	return overlay, nil
}

// Gid is the version of yield/gid.go that works with the patched runtime
const Gid = "package yield\n\nimport \"runtime\"\n\n//go:norace\nfunc gid() int64 { return runtime.VerifGoid() }\n"

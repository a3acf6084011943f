package main

// C23: results depend on the arguments alone, and the library's own work leaves no trace in the process or outside.
// Fresh processes run cases of the other monitors (whose oracles know every answer) in unusual surroundings:
// environment variables, directories, locale, limits, user, processor features, clock. A case that fails there and
// passes in plain surroundings is a violation. Before and after each case the state of the process is compared;
// some processes run under a system-call trace.
//
// C24: a long-running process does not accumulate anything: memory, goroutines, descriptors, files, children.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/fs"
	"log"
	"math/rand/v2"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/fivebinaries/go-cardano-serialization/bip32"
	"github.com/fivebinaries/go-cardano-serialization/network"
	"github.com/fivebinaries/go-cardano-serialization/node"
	"github.com/fivebinaries/go-cardano-serialization/protocol"
	"github.com/fivebinaries/go-cardano-serialization/tx"
)

type purePick struct {
	Prop, Stream string
	Idx          int
	A, B         uint64
}

type pureSpec struct {
	Picks  []purePick
	Umask  int
	NoFile uint64
	Marks  bool     // mark the beginning and end of each case for the system-call trace
	Watch  []string // directories that must not change
	RmCwd  bool
	Laps   int  // C24
	State  bool // compare the state of the process after each lap
	Seed   uint64
}

type pureFail struct {
	I   int
	Key string
	Msg string
}

type pureReport struct {
	Fails   []pureFail
	Effects []pureFail
	Cases   int
	Clock   int64
	Laps    []pureLap
	Events  map[string]int
	Asked   map[string]int // environment variables that were read, and the first case that did
	Tapped  bool
}

type pureLap struct{ Heap, Goroutines, Fds, FdsNoGC, Children, Files int64 }

// procState describes what the library has no business changing.
func procState(watch []string) map[string]string {
	s := map[string]string{}
	env := os.Environ()
	sort.Strings(env)
	s["environment"] = strings.Join(env, "\n")
	wd, err := os.Getwd()
	s["working directory"] = fmt.Sprint(wd, err != nil)
	var fds []string
	es, _ := os.ReadDir("/proc/self/fd")
	for _, e := range es {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil {
			fds = append(fds, e.Name()+" "+t)
		}
	}
	s["descriptors"] = strings.Join(fds, "\n")
	st, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(st), "\n") {
		for _, p := range []string{"Umask", "SigIgn", "SigCgt", "Uid", "Gid", "Groups", "NoNewPrivs", "Seccomp:", "Name"} {
			if strings.HasPrefix(l, p) {
				s["process "+p] = l
			}
		}
	}
	lim, _ := os.ReadFile("/proc/self/limits")
	s["limits"] = string(lim)
	ms := []metrics.Sample{{Name: "/gc/gogc:percent"}, {Name: "/gc/gomemlimit:bytes"}, {Name: "/sched/gomaxprocs:threads"}}
	metrics.Read(ms)
	for _, m := range ms {
		s["runtime "+m.Name] = fmt.Sprint(m.Value.Uint64())
	}
	s["arguments"] = strings.Join(os.Args, "\x00")
	s["logger"] = fmt.Sprintf("%d %q %p", log.Flags(), log.Prefix(), log.Writer())
	s["http"] = fmt.Sprintf("%p %p %+v", http.DefaultClient, http.DefaultTransport, *http.DefaultClient)
	s["streams"] = fmt.Sprintf("%p %p %p", os.Stdin, os.Stdout, os.Stderr)
	s["time zone"] = fmt.Sprintf("%p %s", time.Local, time.Local)
	for _, d := range watch {
		var fl []string
		filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
			if err == nil {
				if i, err := e.Info(); err == nil && e.IsDir() { // a temporary file that came and went shows in its times
					fl = append(fl, fmt.Sprintf("%s %v", p, i.Mode()))
				} else if err == nil {
					fl = append(fl, fmt.Sprintf("%s %v %d %d", p, i.Mode(), i.Size(), i.ModTime().UnixNano()))
				}
			}
			return nil
		})
		s["files in "+filepath.Base(d)] = strings.Join(fl, "\n")
	}
	return s
}

func children() (n int) {
	ts, _ := filepath.Glob("/proc/self/task/*/children")
	for _, t := range ts {
		b, _ := os.ReadFile(t)
		n += len(strings.Fields(string(b)))
	}
	return
}

// diff names the first thing that changed.
func stateDiff(a, b map[string]string) string {
	var ks []string
	for k := range a {
		if a[k] != b[k] {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	k := ks[0]
	x, y := strings.Split(a[k], "\n"), strings.Split(b[k], "\n")
	in := map[string]bool{}
	for _, l := range x {
		in[l] = true
	}
	var d []string
	for _, l := range y {
		if !in[l] {
			d = append(d, "+"+l)
		}
		delete(in, l)
	}
	for l := range in {
		d = append(d, "-"+l)
	}
	sort.Strings(d)
	return k + ": " + short(strings.Join(d, " "), 400)
}

func findPick(k purePick) (crowdPick, bool) {
	p := props[k.Prop]
	if p == nil {
		return crowdPick{}, false
	}
	for i := range p.Streams {
		if p.Streams[i].Name == k.Stream {
			return crowdPick{p, &p.Streams[i]}, true
		}
	}
	return crowdPick{}, false
}

func pureMain(specFile, scratch, out string) {
	var spec pureSpec
	b, err := os.ReadFile(specFile)
	must(err)
	must(json.Unmarshal(b, &spec))
	if spec.Umask >= 0 {
		syscall.Umask(spec.Umask)
	}
	if spec.NoFile > 0 {
		must(syscall.Setrlimit(syscall.RLIMIT_NOFILE, &syscall.Rlimit{Cur: spec.NoFile, Max: spec.NoFile}))
	}
	if spec.RmCwd {
		wd, err := os.Getwd()
		must(err)
		must(os.RemoveAll(wd))
	}
	var lw bytes.Buffer
	log.SetOutput(&lw)
	rep := pureReport{Events: map[string]int{}, Clock: time.Now().Unix()}
	loadDict()
	pm := newMonitor(&Property{ID: "C23"}, "quick", 1, scratch)
	must(txSetup(pm))
	must(cryptoSetup(pm))
	if spec.Laps > 0 {
		growLaps(&spec, &rep, scratch)
	} else {
		os.Stat("/verif-warm-up") // and whatever else the first calls of the runtime need
		runtime.GC()
		time.Sleep(5 * time.Millisecond)
		base := runtime.NumGoroutine()
		state := procState(spec.Watch)
		var askedLock sync.Mutex
		rep.Asked = map[string]int{}
		cur := -1
		rep.Tapped = tapEnv(func(k string) {
			askedLock.Lock()
			defer askedLock.Unlock()
			if _, ok := rep.Asked[k]; !ok && cur >= 0 && len(rep.Asked) < 100 {
				rep.Asked[k] = cur
			}
		})
		at := func(i int) {
			askedLock.Lock()
			cur = i
			askedLock.Unlock()
		}
		for i, k := range spec.Picks {
			p, ok := findPick(k)
			if !ok {
				continue
			}
			at(i)
			if spec.Marks {
				os.Stat(fmt.Sprintf("/verif-mark-begin-%d", i))
			}
			vs := runCrowd(scratch, 0, p, k.Idx, k.A, k.B)
			at(-1)
			if spec.Marks {
				os.Stat("/verif-mark-end")
			}
			rep.Cases++
			for _, v := range vs {
				rep.Fails = append(rep.Fails, pureFail{i, v.Key, short(v.Message, 600)})
			}
			now := procState(spec.Watch)
			if d := stateDiff(state, now); d != "" {
				rep.Effects = append(rep.Effects, pureFail{i, "effect:" + strings.SplitN(d, ":", 2)[0], d})
				state = now
			}
			for t := 0; runtime.NumGoroutine() > base && t < 200; t++ {
				time.Sleep(time.Duration(t) * time.Millisecond / 4)
			}
			if n := runtime.NumGoroutine(); n > base {
				buf := make([]byte, 1<<14)
				buf = buf[:runtime.Stack(buf, true)]
				rep.Effects = append(rep.Effects, pureFail{i, "effect:goroutines", fmt.Sprintf("%d goroutines are still running: %s", n-base, short(string(buf), 1500))})
				base = n
			}
			if n := children(); n > 0 {
				rep.Effects = append(rep.Effects, pureFail{i, "effect:children", fmt.Sprintf("%d child processes", n)})
			}
			if len(rep.Fails)+len(rep.Effects) > 20 {
				break
			}
		}
	}
	rb, err := json.Marshal(rep)
	must(err)
	must(os.WriteFile(out, rb, 0o644))
}

// ---------- surroundings ----------

type pureEnv struct {
	env     []string
	cwd     string
	argv0   string
	uid     uint32
	stdin   string // "", "null", "closed", "zero"
	names   []string
	strace  bool
	plain   bool
	spec    pureSpec
	clocked bool
}

var reEnvName = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]{2,40}$`)
var reFileName = regexp.MustCompile(`^\.?[A-Za-z0-9_-]{1,40}\.[A-Za-z]{1,6}$`)

// decoyNames lists file names that are common or stand in the sources.
func decoyNames() (out []string) {
	for _, s := range append([]string{"protocol.json", "config.json", "config.yaml", ".env", "cardano.json", "mainnet.json", "testnet.json", "params.json", ".cardano", "network.json", "protocol-parameters.json", "default.json"}, dictStrs...) {
		if (reFileName.MatchString(s) || strings.HasPrefix(s, ".") && reEnvName.MatchString(s[1:])) && len(out) < 60 {
			out = append(out, s)
		}
	}
	return
}

func (e *pureEnv) set(c *Ctx, k, v string) {
	e.env = append(e.env, k+"="+v)
	e.names = append(e.names, fmt.Sprintf("%s=%q", k, short(v, 40)))
}

var commonEnv = []string{
	"CARDANO_NODE_SOCKET_PATH", "CARDANO_NODE_NETWORK_ID", "CARDANO_NETWORK", "CARDANO_CLI", "CARDANO_ENV", "NETWORK", "NETWORK_ID", "TESTNET_MAGIC", "MAINNET", "TESTNET", "BLOCKFROST_PROJECT_ID", "BLOCKFROST_SERVER",
	"DEBUG", "VERBOSE", "TRACE", "ENV", "GO_ENV", "APP_ENV", "STAGE", "CI", "TEST", "TESTING", "USER", "LOGNAME", "HOSTNAME", "SHELL", "TERM", "COLUMNS", "NO_COLOR", "SOURCE_DATE_EPOCH", "PROTOCOL_PARAMETERS", "PROTOCOL", "XDG_CONFIG_HOME", "XDG_CACHE_HOME",
	"GOTRACEBACK", "CONFIG", "SEED", "FEE", "TTL",
}

var reEnvCaps = regexp.MustCompile(`^[A-Z][A-Z0-9_]{2,40}$`)

// dictEnv sets variables that common programs look at or that are named in the sources, which should matter to nobody.
func dictEnv(seed uint64) {
	loadDict()
	r := rand.New(rand.NewPCG(seed, 0xe4f))
	for _, s := range append(append([]string{}, commonEnv...), dictStrs...) {
		if _, set := os.LookupEnv(s); set || !reEnvCaps.MatchString(s) || ownEnv[s] || s == "CARDANO_NODE_SOCKET_PATH" || strings.HasPrefix(s, "VERIF") || strings.HasSuffix(s, "PROXY") || strings.HasPrefix(s, "SSL") || r.IntN(5) == 0 {
			continue
		}
		must(os.Setenv(s, askedValue(r, "/nonexistent")))
	}
}

// surroundings invents where a process runs. dir is its own directory.
func surroundings(c *Ctx, dir string, plain bool) *pureEnv {
	r := c.R
	e := &pureEnv{cwd: filepath.Join(dir, "cwd"), plain: plain}
	e.spec.Umask = -1
	for _, d := range []string{"cwd", "home", "tmp", "scratch", "out"} {
		must(os.MkdirAll(filepath.Join(dir, d), 0o755))
	}
	e.spec.Watch = []string{filepath.Join(dir, "cwd"), filepath.Join(dir, "home"), filepath.Join(dir, "tmp")}
	home, tmp, path := filepath.Join(dir, "home"), filepath.Join(dir, "tmp"), "/usr/bin:/bin"
	if plain {
		e.env = []string{"HOME=" + home, "TMPDIR=" + tmp, "PATH=" + path}
		return e
	}
	feat := func(s string) {
		c.Feat("surroundings/" + s)
		e.names = append(e.names, s)
	}
	one := func(n int) bool { return r.IntN(n) == 0 }
	if one(3) {
		feat("home")
		home = pick(r, "", "-", filepath.Join(dir, "absent"), "/dev/null", "~", ".")
	}
	if one(3) {
		feat("tmpdir")
		tmp = pick(r, "", filepath.Join(dir, "absent"), "/dev/null", ".", "-")
	}
	if one(3) {
		feat("path")
		path = pick(r, "", ".", "/nonexistent", dir)
	}
	if home != "-" {
		e.env = append(e.env, "HOME="+home)
	}
	if tmp != "-" {
		e.env = append(e.env, "TMPDIR="+tmp)
	}
	e.env = append(e.env, "PATH="+path)
	if one(3) {
		feat("locale")
		v := pick(r, "C", "POSIX", "de_DE.UTF-8", "tr_TR.UTF-8", "ja_JP.eucJP", "ar_EG", "", "xx")
		for _, k := range []string{"LANG", "LC_ALL", "LC_NUMERIC", "LANGUAGE"} {
			e.set(c, k, v)
		}
	}
	if one(3) {
		feat("time-zone")
		e.set(c, "TZ", pick(r, "UTC", "Asia/Kathmandu", "America/St_Johns", "Pacific/Kiritimati", "", "nonsense", ":/etc/passwd", "Europe/Berlin"))
	}
	if one(2) {
		feat("clock")
		e.clocked = true
		e.set(c, "VERIF_CLOCK", fmt.Sprint(pick(r, int64(0), 1, -1)*int64(1+r.IntN(86400*365*40))+int64(r.IntN(86400*7))))
	}
	if one(3) {
		feat("processors")
		e.set(c, "GOMAXPROCS", pick(r, "1", "2", "3", "64"))
	}
	if one(4) {
		feat("collector")
		e.set(c, "GOGC", pick(r, "50", "off", "1000"))
	}
	if one(4) {
		feat("processor-features")
		e.set(c, "GODEBUG", pick(r, "cpu.all=off", "cpu.avx2=off", "cpu.avx=off,cpu.bmi2=off", "cpu.ssse3=off,cpu.sse41=off", "cpu.adx=off", "asyncpreemptoff=1", "clobberfree=1", "gccheckmark=0", "sha256=off", "netdns=go"))
	}
	if one(2) { // variables that programs in this field look at, and generic ones
		feat("variables")
		for i := 1 + r.IntN(6); i > 0; i-- {
			e.set(c, pick(r, commonEnv...), pick(r, "", "0", "1", "true", "false", "testnet", "mainnet", "preprod", "764824073", "-1", "x", dir, "/dev/null"))
		}
	}
	if one(2) { // names that occur in the sources
		feat("dictionary-variables")
		for _, s := range dictStrs {
			if reEnvName.MatchString(s) && s != "GODEBUG" && s != "GOGC" && s != "GOMAXPROCS" && r.IntN(4) != 0 {
				e.env = append(e.env, s+"="+pick(r, "", "0", "1", "1", "true", "on", "testnet", "mainnet", strings.ReplaceAll(dictStr(r), "\x00", "")))
			}
		}
		if len(e.env) > 400 {
			e.env = e.env[:400]
		}
	}
	if asked := pureAskedNames(); len(asked) > 0 && one(2) { // names that were read
		feat("asked-variables")
		for _, s := range asked {
			if r.IntN(4) != 0 {
				e.env = append(e.env, s+"="+askedValue(r, dir))
			}
		}
	}
	if one(2) { // files that occur in the sources
		feat("dictionary-files")
		for _, s := range decoyNames() {
			if r.IntN(4) != 0 {
				t := genProtoFile(r).text
				for _, d := range []string{"cwd", "home", "tmp", "home/.config", "home/.cardano"} {
					os.MkdirAll(filepath.Join(dir, d), 0o755)
					os.WriteFile(filepath.Join(dir, d, s), []byte(pick(r, t, t, "", "1", "x", "{}")), 0o644)
				}
			}
		}
	}
	switch r.IntN(6) {
	case 0:
		feat("cwd-gone")
		e.spec.RmCwd = true
		e.cwd = filepath.Join(dir, "gone")
		must(os.MkdirAll(e.cwd, 0o755))
	case 1:
		feat("cwd-root")
		e.cwd = "/"
	case 2:
		feat("cwd-odd")
		e.cwd = filepath.Join(dir, "cwd", pick(r, "a b", "\xff", "mainnet", "testnet", "ü", strings.Repeat("x", 200)))
		must(os.MkdirAll(e.cwd, 0o755))
	}
	if one(4) {
		feat("umask")
		e.spec.Umask = pick(r, 0, 0o77, 0o22)
	}
	if one(4) {
		feat("few-descriptors")
		e.spec.NoFile = uint64(14 + r.IntN(20))
	}
	if one(3) {
		feat("stdin")
		e.stdin = pick(r, "closed", "zero", "full")
	}
	if one(4) {
		feat("program-name")
		e.argv0 = pick(r, "cardano-cli", "mainnet", "testnet", "-", "x.test", "debug", "a b")
	}
	if one(4) && pureUser != 0 {
		feat("user")
		e.uid = pureUser
		must(filepath.WalkDir(dir, func(p string, _ fs.DirEntry, err error) error {
			if err == nil {
				err = os.Lchown(p, int(e.uid), int(e.uid))
			}
			return err
		}))
	}
	return e
}

// pureAsked holds the environment variables that cases were seen to read, of which the runtime's own are left out.
var pureAsked = map[string]bool{}
var pureAskedLock sync.Mutex

var ownEnv = map[string]bool{"*": true, "GODEBUG": true, "GOGC": true, "GOMEMLIMIT": true, "GOMAXPROCS": true, "GOTRACEBACK": true, "GOCOVERDIR": true, "VERIF_CLOCK": true, "VERIF_VERBOSE": true, "VERIF_SCALE": true, "PATH": true, "TMPDIR": true, "": true}

func pureAskedNames() (out []string) {
	pureAskedLock.Lock()
	defer pureAskedLock.Unlock()
	for k := range pureAsked {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func askedValue(r *rand.Rand, dir string) string {
	return pick(r, "", "0", "1", "true", "on", "yes", "testnet", "mainnet", "preprod", "764824073", "-1", "1000000", "x", dir, "debug", "/dev/null")
}

// noteAsked takes in what a process read, and says whether there was something new.
func noteAsked(c *Ctx, rep pureReport) (fresh []string, first int) {
	pureAskedLock.Lock()
	defer pureAskedLock.Unlock()
	first = 1 << 30
	for k, i := range rep.Asked {
		if ownEnv[k] || strings.ContainsAny(k, "=\x00") {
			continue
		}
		if !pureAsked[k] && len(pureAsked) < 200 {
			pureAsked[k] = true
			fresh = append(fresh, k)
			first = min(first, i)
		}
	}
	sort.Strings(fresh)
	if rep.Tapped {
		c.Ev("reads-of-variables-watched")
	}
	return
}

var pureUser uint32 // an unprivileged user that can run the harness, or 0
var pureTrace bool  // system calls can be traced

type pureRun struct {
	rep    pureReport
	stdout string
	stderr string
	trace  string
	err    error
}

func runPure(e *pureEnv, dir string) pureRun {
	self, err := os.Executable()
	must(err)
	b, err := json.Marshal(e.spec)
	must(err)
	sf, out, tf := filepath.Join(dir, "out", "spec.json"), filepath.Join(dir, "out", "report.json"), filepath.Join(dir, "out", "trace")
	must(os.WriteFile(sf, b, 0o644))
	os.Remove(out)
	args := []string{self, "-pure", sf, "-scratch", filepath.Join(dir, "scratch"), "-child", out}
	exe := self
	if e.strace {
		exe = "/usr/bin/strace"
		args = append([]string{"strace", "-f", "-qq", "-s", "300", "-e", "signal=none", "-e", "trace=%file,%network,execve,vfork,fork,dup,dup2,pipe2,memfd_create,ftruncate,fchmod,fchown,setrlimit,prlimit64,setuid,setgid,kill", "-o", tf}, args...)
	} else if e.argv0 != "" {
		args[0] = e.argv0
	}
	cmd := &exec.Cmd{Path: exe, Args: args, Dir: e.cwd, Env: e.env}
	var so, se strings.Builder
	cmd.Stdout, cmd.Stderr = &so, &se
	switch e.stdin {
	case "zero", "full":
		f, err := os.Open("/dev/" + e.stdin)
		must(err)
		defer f.Close()
		cmd.Stdin = f
	case "closed":
		pr, pw, err := os.Pipe()
		must(err)
		pw.Close()
		defer pr.Close()
		cmd.Stdin = pr
	}
	if e.uid != 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: e.uid, Gid: e.uid}}
	}
	if e.spec.RmCwd {
		os.MkdirAll(e.cwd, 0o755)
	}
	t := time.AfterFunc(200*time.Second, func() {
		if cmd.Process != nil {
			cmd.Process.Signal(syscall.SIGQUIT)
		}
	})
	err = cmd.Run()
	t.Stop()
	res := pureRun{stdout: so.String(), stderr: se.String(), err: err}
	if rb, rerr := os.ReadFile(out); rerr == nil {
		must(json.Unmarshal(rb, &res.rep))
	} else if err == nil {
		res.err = rerr
	}
	if e.strace {
		tb, _ := os.ReadFile(tf)
		res.trace = string(tb)
	}
	return res
}

// reLogLine matches what a logger writes.
var reLogLine = regexp.MustCompile(`^.{0,40}\d{4}/\d\d/\d\d \d\d:\d\d:\d\d|^time=`)
var reMark = regexp.MustCompile(`"/verif-mark-(begin-(\d+)|end)"`)
var reSys = regexp.MustCompile(`^(?:\d+\s+)?(?:<\.\.\. )?([a-z0-9_]+)(?: resumed>|\()(.*)$`)
var rePath = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

// traceEffects reads a system-call trace and returns what happened inside cases that should not have.
func traceEffects(trace, dir string) (effects []pureFail, calls int) {
	cur := -1
	scratch := filepath.Join(dir, "scratch")
	for _, l := range strings.Split(trace, "\n") {
		if m := reMark.FindStringSubmatch(l); m != nil {
			cur = -1
			if m[2] != "" {
				cur, _ = strconv.Atoi(m[2])
			}
			continue
		}
		m := reSys.FindStringSubmatch(l)
		if cur < 0 || m == nil {
			continue
		}
		calls++
		bad := ""
		paths := rePath.FindAllStringSubmatch(m[2], -1)
		inScratch := len(paths) > 0
		for _, p := range paths {
			if !strings.HasPrefix(p[1], scratch) && p[1] != "" {
				inScratch = false
			}
		}
		switch m[1] {
		case "socket", "connect", "bind", "listen", "accept4", "sendto", "sendmsg", "socketpair":
			bad = "network"
		case "execve", "execveat", "vfork", "fork":
			bad = "starts a process"
		case "kill", "setuid", "setgid", "setrlimit", "memfd_create", "chdir", "fchdir":
			bad = "changes the process"
		case "openat", "open", "creat", "openat2":
			if inScratch || strings.Contains(l, "resumed>") {
				break
			}
			if strings.Contains(m[2], "O_WRONLY") || strings.Contains(m[2], "O_RDWR") || strings.Contains(m[2], "O_CREAT") {
				bad = "opens a file for writing"
			} else if len(paths) > 0 {
				p := paths[0][1]
				ok := false
				for _, pre := range []string{"/proc/", "/sys/", "/etc/localtime", "/usr/share/zoneinfo", "/usr/share/lib/zoneinfo", "/usr/lib/locale", "/dev/", "/usr/local/go", "/etc/zoneinfo"} {
					ok = ok || strings.HasPrefix(p, pre)
				}
				if !ok {
					bad = "reads a file"
				}
			}
		case "unlink", "unlinkat", "rename", "renameat", "renameat2", "mkdir", "mkdirat", "rmdir", "chmod", "fchmodat", "chown", "lchown", "fchownat", "symlink", "symlinkat", "link", "linkat", "truncate", "mknod", "mknodat", "utimensat", "setxattr":
			if !inScratch && len(paths) > 0 {
				bad = "changes files"
			}
		}
		if bad != "" {
			effects = append(effects, pureFail{cur, "effect:" + bad, short(l, 300)})
			if len(effects) > 5 {
				return
			}
		}
	}
	return
}

func purePicks(c *Ctx, n int, trace bool) (out []purePick) {
	for turn := 0; len(out) < n; turn++ {
		k := crowd.picks[c.R.IntN(len(crowd.picks))]
		if q := (len(crowd.picks) + 3) / 4; turn < q { // every stream in turn, so that four processes see all
			k = crowd.picks[(c.Idx*q+turn)%len(crowd.picks)]
		}
		if k.p.ID == "C20" && k.s.Name == "paths" { // relative paths and the tests' own files are its subject
			continue
		}
		if trace && (k.p.ID == "C20" || k.p.ID == "C04" && strings.Contains(k.s.Name, "file")) {
			continue
		}
		out = append(out, purePick{k.p.ID, k.s.Name, c.R.IntN(max(1, k.s.Quick)), c.R.Uint64(), c.R.Uint64()})
	}
	return
}

func pureCase(c *Ctx) {
	dir := filepath.Join(c.m.scratch, fmt.Sprintf("pure-%s-%d", c.Stream, c.Idx))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	traced := c.Stream == "system-calls"
	e := surroundings(c, dir, c.Stream == "histories")
	n := 40
	if c.Stream == "histories" { // plain surroundings, but much has been done before
		n = 700
	}
	e.spec.Picks = purePicks(c, n, traced)
	if traced {
		if !pureTrace {
			c.Ev("trace-impossible")
			return
		}
		e.strace, e.spec.Marks, e.uid, e.spec.NoFile = true, true, 0, 0
	}
	for i := range e.env {
		if strings.ContainsRune(e.env[i], 0) {
			e.env[i] = "X=1"
		}
	}
	c.Log("surroundings: %s, working directory %s", strings.Join(e.names, ", "), e.cwd)
	t0 := time.Now()
	res := runPure(e, dir)
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s %d: %.1fs %v\n", c.Stream, c.Idx, time.Since(t0).Seconds(), e.names)
	}
	if res.err != nil {
		// does the same list survive in plain surroundings?
		p := runPlain(c, e.spec.Picks)
		c.Failif(p.err == nil, "process-death", "a process in these surroundings died (%v), in plain ones it works: %s", res.err, short(res.stderr, 1500))
		c.Ev("dies-everywhere")
		return
	}
	c.events["case"] += int64(res.rep.Cases)
	for i, k := range e.spec.Picks {
		if i < res.rep.Cases {
			c.Ev("cases:" + k.Prop)
			c.Case(k.Prop, k.Stream, fmt.Sprint(k.A))
		}
	}
	c.Ev("process")
	if e.clocked {
		if d := time.Now().Unix() - res.rep.Clock; d > 1000 || d < -1000 {
			c.Ev("clock-moved")
		}
	}
	judge(c, e, res, dir, traced)
	for _, k := range pureAskedNames() {
		c.Ev("asked:" + k)
	}
	if fresh, first := noteAsked(c, res.rep); len(fresh) > 0 && !traced {
		// what the case read, it gets in every flavour
		c.Feat("surroundings/fresh-variables")
		ks := e.spec.Picks[first:]
		for _, v := range []string{"", "0", "1", "true", "testnet", "mainnet", "764824073", "1000000", "-1", "/dev/null"} {
			e2 := surroundings(c, dir, true)
			e2.spec.Picks = ks
			for _, k := range fresh {
				e2.set(c, k, v)
			}
			c.Log("surroundings: %s", strings.Join(e2.names, ", "))
			if r2 := runPure(e2, dir); r2.err == nil {
				c.Ev("process")
				judge(c, e2, r2, dir, false)
			}
		}
	}
	c.Sample(map[string]any{"surroundings": e.names, "cases": res.rep.Cases})
}

// judge looks at what a process did and reported.
func judge(c *Ctx, e *pureEnv, res pureRun, dir string, traced bool) {
	name := func(i int) string {
		if i < 0 || i >= len(e.spec.Picks) {
			return "?"
		}
		k := e.spec.Picks[i]
		return k.Prop + "/" + k.Stream
	}
	eff := res.rep.Effects
	if traced {
		te, n := traceEffects(res.trace, dir)
		c.events["system-calls-judged"] += int64(n)
		if strings.Contains(res.trace, "/verif-mark-begin-1") {
			c.Ev("traced-process")
		}
		eff = append(eff, te...)
	}
	for _, f := range eff {
		c.Fail(f.Key, "a case of %s has an effect outside: %s", name(f.I), f.Msg)
	}
	c.Failif(res.stdout != "", "effect:standard output", "the process printed %q", short(res.stdout, 600))
	c.Failif(res.stderr != "" && !e.strace && !reLogLine.MatchString(res.stderr), "effect:standard error", "the process printed %q", short(res.stderr, 600))
	for _, f := range res.rep.Fails {
		if strings.Contains(f.Msg, "harness:") {
			c.Ev("harness-cannot")
			continue
		}
		c.Ev("case-fails")
		if p := runPlain(c, e.spec.Picks[f.I:f.I+1]); p.err != nil || len(p.rep.Fails) > 0 {
			c.Ev("fails-everywhere")
			continue
		}
		again := runPure(e, dir)
		same := false
		for _, g := range again.rep.Fails {
			same = same || g.I == f.I && g.Key == f.Key
		}
		if !same {
			c.Ev("fails-sometimes")
			continue
		}
		c.Fail("surroundings:"+f.Key, "a case of %s fails here and passes by itself in plain surroundings: %s", name(f.I), f.Msg)
	}
}

func runPlain(c *Ctx, ks []purePick) pureRun {
	dir, err := os.MkdirTemp(c.m.scratch, "plain")
	must(err)
	defer os.RemoveAll(dir)
	e := surroundings(c, dir, true)
	e.spec.Picks = ks
	return runPure(e, dir)
}

func pureSetup(m *Monitor) error {
	loadDict()
	crowdInit()
	probe := func(e *pureEnv, dir string) bool {
		r := runPure(e, dir)
		return r.err == nil && (!e.strace || strings.Contains(r.trace, "report.json"))
	}
	a := m.newAcc()
	c := &Ctx{m: m, R: rand.New(rand.NewPCG(1, 2)), events: a.events, feats: a.feats, distinct: a.distinct}
	dir, err := os.MkdirTemp(m.scratch, "probe")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	e := surroundings(c, dir, true)
	if r := runPure(e, dir); r.err != nil {
		return fmt.Errorf("no process can be started: %v %s", r.err, r.stderr)
	}
	os.Chmod(filepath.Dir(m.scratch), 0o755)
	os.Chmod(dir, 0o755)
	filepath.WalkDir(dir, func(p string, _ fs.DirEntry, err error) error {
		if err == nil {
			os.Lchown(p, 65534, 65534)
		}
		return nil
	})
	e.uid = 65534
	if probe(e, dir) {
		pureUser = 65534
	}
	e.uid, e.strace = 0, true
	pureTrace = probe(e, dir)
	return nil
}

// ---------- C24 ----------

func growOps(r *rand.Rand, dir string) int {
	n := 0
	for _, o := range coldOps(r, dir) {
		if o.name == "node" || o.name == "icarus" {
			continue
		}
		o.run()
		n++
	}
	return n
}

// growLaps does the same amount of new work again and again and measures what stays behind.
func growLaps(spec *pureSpec, rep *pureReport, scratch string) {
	project := os.Getenv("VERIF_PROJECT")
	must(os.WriteFile(filepath.Join(scratch, "p.json"), []byte(`{"txFeePerByte":44,"txFeeFixed":155381,"maxTxSize":16384,"protocolVersion":{"major":6,"minor":0},"minUTxOValue":1}`), 0o644))
	r := rand.New(rand.NewPCG(spec.Seed, 24))
	// one client of each: the pool of connections is a client's own
	cli := node.NewCardanoCliNode(network.MainNet(), filepath.Join(filepath.Dir(scratch), "bin", "cardano-cli"))
	bfn := node.NewBlockfrostClient(project, network.MainNet())
	settle := func() {
		for i := 0; i < 3; i++ {
			runtime.GC()
			time.Sleep(3 * time.Millisecond)
		}
	}
	state := procState(spec.Watch)
	for lap := 0; lap < spec.Laps; lap++ {
		switch {
		case len(spec.Picks) > 0: // cases of the other monitors, with new seeds
			for _, k := range spec.Picks {
				if p, ok := findPick(k); ok {
					runCrowd(scratch, 0, p, r.IntN(max(1, p.s.Quick)), r.Uint64(), r.Uint64())
					rep.Cases++
				}
			}
		case project != "":
			debug.SetGCPercent(-1) // nothing is closed by the collector
			before := int64(fdCount())
			growNodes(r, rep, scratch, cli, bfn)
			rep.Laps = append(rep.Laps, pureLap{FdsNoGC: int64(fdCount()) - before})
			debug.SetGCPercent(100)
		default:
			for i := 0; i < 1200; i++ {
				rep.Cases += growOps(r, scratch)
			}
		}
		for t := 0; t < 10 && (runtime.NumGoroutine() > 2 || children() > 0) && project != ""; t++ {
			time.Sleep(10 * time.Millisecond)
		}
		settle()
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		l := pureLap{}
		if project != "" {
			l = rep.Laps[len(rep.Laps)-1]
			rep.Laps = rep.Laps[:len(rep.Laps)-1]
		}
		l.Heap, l.Goroutines, l.Fds, l.Children = int64(ms.HeapAlloc), int64(runtime.NumGoroutine()), int64(fdCount()), int64(children())
		for _, d := range spec.Watch {
			filepath.WalkDir(d, func(p string, e fs.DirEntry, err error) error {
				if err == nil && !e.IsDir() {
					l.Files++
				}
				return nil
			})
		}
		rep.Laps = append(rep.Laps, l)
		if spec.State {
			now := procState(spec.Watch)
			delete(state, "descriptors") // idle connections
			delete(now, "descriptors")
			if d := stateDiff(state, now); d != "" {
				rep.Effects = append(rep.Effects, pureFail{lap, "effect:" + strings.SplitN(d, ":", 2)[0], d})
				return
			}
		}
	}
}

// growNodes uses one client of each backend, and new ones, with everything that can go wrong at the tool's side.
func growNodes(r *rand.Rand, rep *pureReport, scratch string, cli, n node.Node) {
	bin := filepath.Join(filepath.Dir(scratch), "bin")
	good := bip32.XPrv(keyPool[0].prv)
	l := &leaker{r: r, rep: leakReport{Events: map[string]int{}}}
	t := growTx(r, good, true)
	bad := growTx(r, good, false)
	call := func(f func()) {
		rep.Cases++
		Guard(f)
	}
	for i := 0; i < 10; i++ {
		os.Remove(filepath.Join(bin, "rc"))
		kind := pick(r, "works", "works", "fails", "absent", "unserializable")
		n, x := cli, t
		switch kind {
		case "fails":
			os.WriteFile(filepath.Join(bin, "rc"), []byte("1\n"), 0o644)
		case "absent":
			n = node.NewCardanoCliNode(network.TestNet(), filepath.Join(bin, "absent"))
		case "unserializable":
			x = bad
		}
		rep.Events["cli/"+kind]++
		call(func() { n.UTXOs(l.addr()) })
		call(func() { n.ProtocolParameters() })
		call(func() { n.QueryTip() })
		call(func() { n.SubmitTx(x) })
	}
	os.Remove(filepath.Join(bin, "rc"))
	for i := 0; i < 12; i++ {
		call(func() { n.SubmitTx(t) })
		call(func() { n.SubmitTx(bad) })
		rep.Events["blockfrost/submit"]++
		if os.Getenv("VERIF_SUBMIT_ONLY") == "" {
			call(func() { n.UTXOs(l.addr()) })
			call(func() { n.ProtocolParameters() })
			call(func() { n.QueryTip() })
			rep.Events["blockfrost/query"]++
		}
	}
}

func growTx(r *rand.Rand, k bip32.XPrv, good bool) tx.Tx {
	tb := tx.NewTxBuilder(protocol.Protocol{TxFeePerByte: 44, TxFeeFixed: 155381}, []bip32.XPrv{k})
	tb.AddInputs(&tx.TxInput{TxHash: rbytes(r, 32), Index: 1, Amount: 5000000})
	for {
		if a, err := genAddr(r).Build(r); err == nil {
			tb.AddOutputs(tx.NewTxOutput(a, 1000000))
			break
		}
	}
	t, err := tb.Build()
	must(err)
	if !good {
		t.Metadata = badMeta(r)
	}
	return t
}

func growCase(c *Ctx) {
	r := c.R
	dir := filepath.Join(c.m.scratch, fmt.Sprintf("grow-%s-%d", c.Stream, c.Idx))
	must(os.MkdirAll(dir, 0o755))
	defer os.RemoveAll(dir)
	e := surroundings(c, dir, true)
	e.spec.Laps, e.spec.Seed = 7, r.Uint64()
	effects := c.m.prop.ID == "C23"
	if effects {
		e.spec.Laps, e.spec.State = 2, true
	}
	if c.m.tier == "thorough" {
		e.spec.Laps = 15
	}
	switch c.Stream {
	case "cases":
		for len(e.spec.Picks) < 600 {
			k := crowd.picks[(c.Idx+len(e.spec.Picks))%len(crowd.picks)]
			if len(e.spec.Picks) >= len(crowd.picks) {
				k = crowd.picks[r.IntN(len(crowd.picks))]
			}
			e.spec.Picks = append(e.spec.Picks, purePick{Prop: k.p.ID, Stream: k.s.Name})
		}
	case "backends":
		u := newBF(c)
		defer u.done()
		u.k.keep = r.IntN(2) == 0
		u.genUtxos(pick(r, 0, 1, 3, 101))
		u.k.tip, u.k.params = genBFTip(r, nil).text, genBFParams(r, nil).text
		u.k.submit = jq(strings.Repeat("5a", 32))
		for _, v := range os.Environ() {
			if strings.HasPrefix(v, "HTTP") || strings.HasPrefix(v, "SSL") {
				e.env = append(e.env, v)
			}
		}
		kind := []string{"works", "refuses", "damaged", "lies", "resets", "truncates"}[c.Idx%6]
		c.Feat("service/" + kind)
		switch kind {
		case "refuses":
			n := pick(r, 400, 403, 404, 418, 500, 503, 429)
			u.k.fault = &bfFault{kind: "status", n: n, body: bfError(n) + strings.Repeat(" ", pick(r, 0, 10, 100000))}
			e.env = append(e.env, "VERIF_SUBMIT_ONLY=1")
		case "damaged":
			u.k.fault = &bfFault{kind: pick(r, "cut", "body"), body: pick(r, "", "<html>", "[{]")}
		case "resets", "truncates":
			u.k.fault = &bfFault{kind: pick(r, "reset", "truncate", "short")}
			e.env = append(e.env, "VERIF_SUBMIT_ONLY=1")
		case "lies":
			u.k.submit = pick(r, jq("5a5a"), jq(strings.Repeat("zz", 32)), "{}", "5")
		}
		must(os.MkdirAll(filepath.Join(dir, "bin"), 0o755))
		must(os.WriteFile(filepath.Join(dir, "bin", "cardano-cli"), []byte(growStandIn), 0o755))
		var sb strings.Builder
		sb.WriteString(utxoHead)
		for i := r.IntN(4); i > 0; i-- {
			sb.WriteString(genRow(r).line + "\n")
		}
		if r.IntN(3) == 0 {
			sb.WriteString("what is this\n")
		}
		for n, s := range map[string]string{"utxo": sb.String(), "tip": genTip(r, 1<<64-1).text, "protocol-parameters": genProtoFile(r).text} {
			must(os.WriteFile(filepath.Join(dir, "bin", "out."+n), []byte(s), 0o644))
		}
		e.env = append(e.env, "VERIF_PROJECT="+u.id)
	}
	res := runPure(e, dir)
	c.Failif(res.err != nil, "process-death", "the process died: %v %s", res.err, short(res.stderr, 1500))
	c.events["operations"] += int64(res.rep.Cases)
	for k, n := range res.rep.Events {
		c.events[k] += int64(n)
	}
	c.events["laps"] += int64(len(res.rep.Laps))
	c.Case(c.Stream, e.spec.Seed)
	if effects {
		for _, f := range res.rep.Effects {
			c.Fail(f.Key, "using the backends changes the process: %s", f.Msg)
		}
		c.Failif(res.stdout != "", "effect:standard output", "using the backends prints %q", short(res.stdout, 600))
		c.Ev("backends-used")
		return
	}
	ls := res.rep.Laps
	c.Log("laps: %+v", ls)
	c.Sample(map[string]any{"stream": c.Stream, "operations": res.rep.Cases, "laps": ls})
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Fprintf(os.Stderr, "%s %d: ops %d %+v\n", c.Stream, c.Idx, res.rep.Cases, ls)
	}
	grows := func(get func(pureLap) int64, each, all int64) bool {
		n := len(ls)
		for i := 3; i < n; i++ {
			if get(ls[i])-get(ls[i-1]) < each {
				return false
			}
		}
		return get(ls[n-1])-get(ls[2]) >= all
	}
	n := int64(len(ls) - 3)
	c.Failif(grows(func(l pureLap) int64 { return l.Fds }, 1, n), "descriptors", "descriptors stay open: %+v", ls)
	c.Failif(grows(func(l pureLap) int64 { return l.Goroutines }, 1, n), "goroutines", "goroutines stay: %+v", ls)
	c.Failif(grows(func(l pureLap) int64 { return l.Files }, 1, n), "files", "files stay behind: %+v", ls)
	c.Failif(grows(func(l pureLap) int64 { return l.Heap }, 20000, 200000), "memory", "memory in use grows with every lap of the same amount of work: %+v", ls)
	c.Failif(ls[len(ls)-1].Children > 0, "children", "child processes stay: %+v", ls)
	for _, l := range ls[1:] {
		c.Failif(l.FdsNoGC > 5, "descriptors-open", "after a lap %d descriptors are left for the collector to close: %+v", l.FdsNoGC, ls)
	}
}

// growStandIn answers as told and keeps nothing.
const growStandIn = `#!/bin/sh
d=${0%/*}
if [ -f "$d/out.$2" ]; then cat "$d/out.$2"; fi
if [ -f "$d/rc" ]; then read rc < "$d/rc"; exit "$rc"; fi
exit 0
`

func init() {
	register(&Property{
		ID: "C23",
		Rule: "fresh processes run cases of the other monitors in unusual surroundings (variables, directories, locale, time zone, clock, limits, user, processor features, streams, names and files the sources mention); a case that fails there and passes in plain surroundings counts, " +
			"and so does any change of the process or of its directories, output, and (in traced processes) any file, network or process system call; non-trivial = one case in one process",
		Require: []string{"process", "reads-of-variables-watched", "clock-moved", "backends-used", "surroundings/home", "surroundings/tmpdir", "surroundings/path", "surroundings/locale", "surroundings/time-zone", "surroundings/clock", "surroundings/processors", "surroundings/collector", "surroundings/processor-features",
			"surroundings/variables", "surroundings/dictionary-variables", "surroundings/dictionary-files", "surroundings/cwd-gone", "surroundings/umask", "surroundings/few-descriptors", "surroundings/stdin", "surroundings/program-name",
			"cases:C01", "cases:C02", "cases:C05", "cases:C06", "cases:C08", "cases:C09", "cases:C10", "cases:C11", "cases:C13", "cases:C14", "cases:C15", "cases:C16", "cases:C20", "cases:C21"},
		Setup: func(m *Monitor) error {
			if err := pureSetup(m); err != nil {
				return err
			}
			return bfSetup(m)
		},
		Assume: []string{"an environment variable or file matters only if its name is common or stands in the sources", "the standard logger may write to standard error"},
		Streams: []Stream{
			{Name: "surroundings", Quick: 400, Thor: 6000, Run: pureCase},
			{Name: "histories", Quick: 16, Thor: 240, Run: pureCase},
			{Name: "system-calls", Quick: 60, Thor: 600, Run: pureCase},
			{Name: "backends", Quick: 18, Thor: 180, Run: growCase},
		},
	})
	register(&Property{
		ID:      "C24",
		Rule:    "fresh processes do several laps of the same amount of ever new work (direct operations; cases of the other monitors; both backends, working and failing in every way); after each lap memory in use, goroutines, descriptors, children and files are counted, and none may grow with every lap; non-trivial = one process",
		Require: []string{"laps", "cli/works", "cli/fails", "cli/absent", "cli/unserializable", "blockfrost/submit", "blockfrost/query", "service/works", "service/refuses", "service/damaged", "service/lies", "service/resets", "service/truncates"},
		Setup: func(m *Monitor) error {
			if err := bfSetup(m); err != nil {
				return err
			}
			return pureSetup(m)
		},
		Assume: []string{"a leak is growth that continues lap after lap; one-time or bounded caches are not leaks"},
		Streams: []Stream{
			{Name: "operations", Quick: 8, Thor: 40, Run: growCase},
			{Name: "cases", Quick: 16, Thor: 80, Run: growCase},
			{Name: "backends", Quick: 24, Thor: 120, Run: growCase},
		},
	})
}

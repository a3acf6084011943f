package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

var props = map[string]*Property{}

func register(p *Property) { props[p.ID] = p }

type known struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "open" suppresses; "fixed: ..." suppresses nothing
}

func main() {
	id := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	evid := flag.String("evidence", "", "evidence file")
	replayDir := flag.String("replaydir", "", "directory for replay files")
	knownFile := flag.String("known", "", "known findings file")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list properties")
	child := flag.String("child", "", "internal: result file")
	scratch := flag.String("scratch", "", "internal: scratch dir")
	cold := flag.String("cold", "", "internal: seed of a fresh process for C17")
	leak := flag.String("leak", "", "internal: seed of a fresh process for C22")
	pure := flag.String("pure", "", "internal: what a fresh process for C23 and C24 does")
	project := flag.String("project", "", "internal: project id for C22")
	instr := flag.String("instr", "", "internal: directory for instrumented sources for C27")
	instrRepo := flag.String("instr-repo", "/repo", "internal: sources to instrument")
	instrIx := flag.Bool("instr-index", true, "internal: instrument indexes")
	flag.Parse()
	if *instr != "" {
		if err := instrument(*instrRepo, *instr, *instrIx); err != nil {
			fatal(err)
		}
		return
	}
	if *pure != "" {
		pureMain(*pure, *scratch, *child)
		return
	}
	if *leak != "" {
		n, _ := strconv.ParseUint(*leak, 10, 64)
		leakMain(n, *scratch, *child, *project)
		return
	}
	if *cold != "" {
		log.SetOutput(io.Discard)
		n, _ := strconv.ParseUint(*cold, 10, 64)
		coldMain(n, *scratch, *child)
		return
	}
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		for _, k := range ids {
			r := "plain"
			if props[k].Race {
				r = "race"
			}
			fmt.Println(k, r)
		}
		return
	}
	var rv *Violation
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal(err)
		}
		rv = &Violation{}
		if err := json.Unmarshal(b, rv); err != nil {
			fatal(err)
		}
		*id, *tier, *seed = rv.Property, rv.Tier, rv.Seed
	}
	p := props[*id]
	if p == nil {
		fatal(fmt.Errorf("unknown property %q", *id))
	}
	if *child != "" {
		runChild(p, *tier, *seed, *child, *scratch, rv)
		return
	}
	os.Exit(runParent(p, *tier, *seed, *evid, *replayDir, *knownFile, *replay))
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness:", err)
	os.Exit(3)
}

func runChild(p *Property, tier string, seed uint64, out, scratch string, rv *Violation) {
	log.SetOutput(io.Discard)
	debug.SetGCPercent(800)
	m := newMonitor(p, tier, seed, scratch)
	stop := make(chan struct{})
	dump := func(done bool) {
		r := m.result(done)
		if p.Explored != nil && done {
			r.Extra = p.Explored(m)
		}
		if err := writeJSON(out, r); err != nil {
			fatal(err)
		}
	}
	go m.watchdog(stop, func() { dump(false); os.Exit(0) })
	loadDict()
	if p.Setup != nil {
		if err := p.Setup(m); err != nil {
			fatal(fmt.Errorf("setup: %w", err))
		}
	}
	if rv != nil && !p.Race { // a race is replayed by the whole workload
		for i := range p.Streams {
			if s := &p.Streams[i]; s.Name == rv.Stream {
				acc := m.newAcc()
				m.runCase(0, s, rv.Index, m.count(s), acc)
				m.merge(acc)
				m.cases++
			}
		}
		m.prop = &Property{ID: p.ID}
		dump(true)
		return
	}
	j, err := os.Create(out + ".journal")
	if err != nil {
		fatal(err)
	}
	only := os.Getenv("VERIF_STREAM")
	for i := range p.Streams {
		if only != "" && p.Streams[i].Name != only {
			continue
		}
		t0 := time.Now()
		m.runStream(&p.Streams[i], j)
		if os.Getenv("VERIF_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s %s: %d cases in %.1fs\n", p.ID, p.Streams[i].Name, m.perStream[p.Streams[i].Name], time.Since(t0).Seconds())
		}
	}
	if p.Finish != nil {
		p.Finish(m)
	}
	close(stop)
	dump(true)
}

func runParent(p *Property, tier string, seed uint64, evid, replayDir, knownFile, replay string) int {
	t0 := time.Now()
	scratch, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(scratch)
	resf := filepath.Join(scratch, "result.json")
	self, err := os.Executable()
	if err != nil {
		fatal(err)
	}
	args := []string{"-prop", p.ID, "-tier", tier, "-seed", strconv.FormatUint(seed, 10), "-child", resf, "-scratch", filepath.Join(scratch, "w")}
	os.MkdirAll(filepath.Join(scratch, "w"), 0o755)
	if replay != "" {
		args = append(args, "-replay", replay)
	}
	cmd := exec.Command(self, args...)
	errf, err := os.Create(filepath.Join(scratch, "stderr"))
	if err != nil {
		fatal(err)
	}
	cmd.Stdout = errf
	cmd.Stderr = errf
	racelog := filepath.Join(scratch, "race.log")
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+racelog, "TMPDIR="+filepath.Join(scratch, "w"))
	runErr := cmd.Run()
	errf.Close()
	if os.Getenv("VERIF_VERBOSE") != "" {
		b, _ := os.ReadFile(errf.Name())
		os.Stderr.Write(b[:min(len(b), 20000)])
	}
	res := &Result{}
	b, rerr := os.ReadFile(resf)
	if rerr == nil {
		rerr = json.Unmarshal(b, res)
	}
	tail := tailFile(errf.Name(), 6000)
	if runErr != nil || rerr != nil {
		code := -1
		if cmd.ProcessState != nil {
			code = cmd.ProcessState.ExitCode()
		}
		if code == 3 && strings.Contains(tail, "harness:") {
			fmt.Fprint(os.Stderr, tail)
			return 3
		}
		jb, _ := os.ReadFile(resf + ".journal")
		v := Violation{Property: p.ID, Seed: seed, Tier: tier, Key: "process-death",
			Message: fmt.Sprintf("the process running the workload died (%v, result: %v)", runErr, rerr), Stack: tail,
			Trace: strings.Split(strings.TrimSpace(string(jb)), "\n")}
		if f := strings.Fields(firstLine(string(jb))); len(f) == 2 {
			v.Stream = f[0]
			v.Index, _ = strconv.Atoi(f[1])
		}
		res.Violations = append(res.Violations, v)
	}
	races := raceReports(racelog)
	for _, r := range races {
		res.Violations = append(res.Violations, Violation{Property: p.ID, Seed: seed, Tier: tier, Key: "race:" + r.key, Message: "data race: " + r.key,
			Stream: firstStream(p), Stack: trimStack(r.text)})
	}
	var kn []known
	if knownFile != "" {
		if b, err := os.ReadFile(knownFile); err == nil {
			if err := json.Unmarshal(b, &kn); err != nil {
				fatal(err)
			}
		}
	}
	var real []Violation
	seenKnown := map[string]bool{}
	for _, v := range res.Violations {
		sup := false
		for _, k := range kn {
			if k.Status == "open" && k.Property == p.ID && k.Key == v.Key {
				sup = true
				if !seenKnown[k.Key] {
					seenKnown[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
				}
			}
		}
		if !sup {
			real = append(real, v)
		}
	}
	if evid != "" {
		cov := map[string]any{
			"evaluations": res.Cases, "distinct_nontrivial": res.Distinct, "rule": p.Rule, "samples": res.Samples,
			"events_observed": res.Events, "classes_reached": res.Feats, "cases_per_stream": res.PerStream,
			"dictionary_constants": dictSize(),
		}
		if len(res.Samples) == 0 {
			cov["samples"] = []any{"none"}
		}
		if p.Race {
			cov["race_reports"] = len(races)
			cov["race_detector"] = raceEnabled
		}
		for k, v := range res.Extra {
			cov[k] = v
		}
		if len(res.Missing) > 0 {
			cov["classes_missing"] = res.Missing
		}
		e := map[string]any{"property": p.ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
			"assumptions": append([]string{"holds on the executions observed; says nothing about inputs the workload did not drive",
				"trusted: Go toolchain and standard library, the reference models in /verif/harness"}, p.Assume...),
			"wall_s": time.Since(t0).Seconds(), "violations": len(real)}
		if err := writeJSON(evid, e); err != nil {
			fatal(err)
		}
	}
	fmt.Printf("%s tier=%s seed=%d cases=%d distinct=%d events=%d classes=%d violations=%d wall=%.1fs\n", p.ID, tier, seed, res.Cases, res.Distinct,
		total(res.Events), len(res.Feats), len(real), time.Since(t0).Seconds())
	if len(real) > 0 {
		seen := map[string]bool{}
		for i, v := range real {
			if i >= 5 {
				break
			}
			path := fmt.Sprintf("%s-%d-%d.json", p.ID, seed, i)
			if replayDir != "" {
				path = filepath.Join(replayDir, path)
				if err := writeJSON(path, v); err != nil {
					fatal(err)
				}
			}
			if seen[v.Key] && i > 0 {
				continue
			}
			seen[v.Key] = true
			fmt.Printf("  %s [%s #%d] %s\n", v.Key, v.Stream, v.Index, short(v.Message, 1000))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
		}
		return 1
	}
	if replay == "" && os.Getenv("VERIF_STREAM") == "" {
		if len(res.Missing) > 0 || res.Cases == 0 || !res.Done {
			fmt.Printf("INCONCLUSIVE property=%s never observed: %v\n", p.ID, res.Missing)
			return 3
		}
	}
	return 0
}

func total(m map[string]int64) (n int64) {
	for _, v := range m {
		n += v
	}
	return
}

func firstStream(p *Property) string {
	if len(p.Streams) > 0 {
		return p.Streams[0].Name
	}
	return ""
}

func firstLine(s string) string { return strings.SplitN(s, "\n", 2)[0] }

func tailFile(path string, n int) string {
	b, _ := os.ReadFile(path)
	// a Go crash prints the reason first: keep head and tail
	if len(b) > 2*n {
		return string(b[:n]) + "\n...\n" + string(b[len(b)-n:])
	}
	return string(b)
}

type raceReport struct{ key, text string }

// raceReports collects the race detector's reports, deduplicated by the functions involved.
func raceReports(prefix string) []raceReport {
	fs, _ := filepath.Glob(prefix + "*")
	seen := map[string]bool{}
	var out []raceReport
	for _, f := range fs {
		fh, err := os.Open(f)
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		var cur []string
		in := false
		flush := func() {
			if len(cur) == 0 {
				return
			}
			var fn []string
			for _, l := range cur {
				if t := strings.TrimSpace(l); strings.HasSuffix(t, "()") && strings.Contains(t, "go-cardano-serialization") {
					fn = append(fn, t[strings.LastIndex(t, "/")+1:])
				}
			}
			if len(fn) > 4 {
				fn = fn[:4]
			}
			k := strings.Join(fn, " ")
			if k == "" {
				k = "outside the library"
			}
			if !seen[k] {
				seen[k] = true
				out = append(out, raceReport{k, strings.Join(cur, "\n")})
			}
			cur = nil
		}
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, "=====") {
				if in {
					flush()
				}
				in = !in
				continue
			}
			if in {
				cur = append(cur, l)
			}
		}
		flush()
		fh.Close()
	}
	return out
}

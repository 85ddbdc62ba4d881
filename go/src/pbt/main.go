package pbt

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Sub is one executable statement of (a part of) a property.
type Sub struct {
	Name     string
	Quick    int // cases at the quick tier
	Thorough int
	Serial   bool // run in one worker only (uses ports etc.)
	Fn       func(*T)
}

// Probe re-runs one recorded finding: it returns "" when the code now behaves, else
// what it saw. Key is matched against known-findings.txt.
type Probe struct {
	Key string
	Fn  func() string
}

type Property struct {
	ID          string
	Rule        string
	Assumptions []string
	Subs        []Sub
	Probes      []Probe
	ShrinkExecs int
	// Schedules: cases run real goroutines, so that a failure may depend on timing. A
	// failure that replaying does not show again is reported as it was observed.
	Schedules bool
}

type failRec struct {
	Property string   `json:"property"`
	Sub      string   `json:"sub"`
	Index    int      `json:"index"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Kind     string   `json:"kind"`             // failure | crash | hang | history ...
	Worker   []string `json:"worker,omitempty"` // history: the worker run that fails, k, n and its flags
	Message  string   `json:"message"`
	Choices  []uint64 `json:"choices"`
	Case     []string `json:"case"`
	Shrunk   int      `json:"shrink_executions"`
}

type sampleRec struct {
	Sub  string   `json:"sub"`
	Case []string `json:"case"`
}

type shardOut struct {
	Evals     map[string]int
	Discards  int
	Labels    map[string]int
	Keys      []uint64
	Samples   []sampleRec
	Fail      *failRec
	Truncated bool
}

const hangSeconds = 60

func Main(p Property) {
	var (
		tier     = flag.String("tier", "quick", "")
		seed     = flag.Int64("seed", 1, "")
		evidence = flag.String("evidence", "", "")
		known    = flag.String("known", "", "")
		replays  = flag.String("replays", "", "")
		replay   = flag.String("replay", "", "")
		worker   = flag.String("worker", "", "")
		only     = flag.String("sub", "", "")
		scale    = flag.Float64("scale", 1, "")
		budget   = flag.Int("budget", 0, "")
		limitSub = flag.String("skipsub", "", "")
	)
	flag.Parse()
	if p.ShrinkExecs == 0 {
		p.ShrinkExecs = 4000
	}
	subs := p.Subs[:0:0]
	for _, s := range p.Subs {
		if (*only == "" || *only == s.Name) && s.Name != *limitSub {
			subs = append(subs, s)
		}
	}
	p.Subs = subs
	debug.SetMaxStack(256 << 20)
	if *replay != "" {
		os.Exit(doReplay(p, *replay))
	}
	if *budget == 0 {
		*budget = 300
		if *tier == "thorough" {
			*budget = 780
		}
		if v, err := strconv.Atoi(os.Getenv("VERIF_BUDGET_S")); err == nil && v > 0 {
			*budget = v
		}
	}
	if *worker != "" {
		doWorker(p, *worker, *tier, *seed, *scale, *budget)
		return
	}
	os.Exit(parent(p, *tier, *seed, *scale, *budget, *evidence, *known, *replays))
}

func count(s Sub, tier string, scale float64) int {
	n := s.Quick
	if tier == "thorough" {
		n = s.Thorough
	}
	if f := int(float64(n) * scale); f > 0 {
		return f
	}
	return 1
}

// ---- worker

func doWorker(p Property, spec, tier string, seed int64, scale float64, budget int) {
	var k, n int
	fmt.Sscanf(spec, "%d/%d", &k, &n)
	start := time.Now()
	stop := func() bool { return time.Since(start) > time.Duration(budget)*time.Second }
	out := shardOut{Evals: map[string]int{}, Labels: map[string]int{}}
	hb := os.NewFile(3, "heartbeat")
	res := os.NewFile(4, "result")
	keys := map[uint64]bool{}
	var b [16]byte
	// Interleave the sub-checks so that a truncated run still touches each of them.
	const rounds = 16
loop:
	for round := 0; round < rounds; round++ {
		for si, s := range p.Subs {
			total := count(s, tier, scale)
			lo, hi := total*round/rounds, total*(round+1)/rounds
			for idx := lo; idx < hi; idx++ {
				if s.Serial {
					if k != si%n {
						break
					}
				} else if idx%n != k {
					continue
				}
				if stop() {
					out.Truncated = true
					break loop
				}
				binary.LittleEndian.PutUint64(b[:8], uint64(si)+1)
				binary.LittleEndian.PutUint64(b[8:], uint64(idx))
				hb.WriteAt(b[:], 0)
				r := runRandom(s.Fn, caseSeed(seed, s.Name, idx))
				if r.discarded {
					out.Discards++
					continue
				}
				if r.failed {
					f := &failRec{Property: p.ID, Sub: s.Name, Index: idx, Seed: seed, Tier: tier, Kind: "failure", Message: r.msg, Choices: r.choices, Case: r.notes}
					// a failure must reproduce from its choices alone
					again := runReplay(s.Fn, r.choices)
					for n := 0; p.Schedules && !again.failed && n < 10; n++ {
						again = runReplay(s.Fn, r.choices)
					}
					if again.failed {
						binary.LittleEndian.PutUint64(b[:8], 0) // shrinking: not watched for hangs per case
						hb.WriteAt(b[:], 0)
						t0 := time.Now()
						best, ex := shrink(s.Fn, again, p.ShrinkExecs, func() bool { return time.Since(t0) > 40*time.Second })
						f.Message, f.Choices, f.Case, f.Shrunk = best.msg, best.choices, best.notes, ex
					} else if p.Schedules {
						f.Kind = "observed"
					} else {
						f.Kind = "unreproduced"
					}
					out.Fail = f
					break loop
				}
				out.Evals[s.Name]++
				for _, l := range r.labels {
					out.Labels[s.Name+": "+l]++
				}
				if r.nontrivial && !keys[r.key] && len(keys) < 4000000 {
					keys[r.key] = true
					if len(out.Samples) < 40 && round%5 == 0 && len(r.notes) > 0 {
						m := 0
						for _, x := range out.Samples {
							if x.Sub == s.Name {
								m++
							}
						}
						if m < 2 {
							out.Samples = append(out.Samples, sampleRec{s.Name, clip(r.notes)})
						}
					}
				}
			}
		}
	}
	for x := range keys {
		out.Keys = append(out.Keys, x)
	}
	sort.Slice(out.Keys, func(i, j int) bool { return out.Keys[i] < out.Keys[j] })
	w := bufio.NewWriter(res)
	json.NewEncoder(w).Encode(out)
	w.Flush()
	res.Close()
	os.Exit(0)
}

func clip(n []string) []string {
	var o []string
	for i, s := range n {
		if i == 12 {
			o = append(o, "...")
			break
		}
		if len(s) > 500 {
			s = s[:500] + "..."
		}
		o = append(o, s)
	}
	return o
}

// ---- parent

type childState struct {
	out    *shardOut
	err    string
	stderr string
	hang   bool
	sub    int
	idx    int
}

func self() string {
	s, err := os.Executable()
	if err != nil {
		s = os.Args[0]
	}
	return s
}

func passArgs(seed int64, tier string, scale float64, budget int, only string) []string {
	a := []string{"-seed", fmt.Sprint(seed), "-tier", tier, "-scale", fmt.Sprint(scale), "-budget", fmt.Sprint(budget)}
	if only != "" {
		a = append(a, "-sub", only)
	}
	return a
}

func runShard(k, n int, args []string, budget int, quit chan struct{}) (st childState) {
	hb, err := os.CreateTemp("", "verif-hb")
	if err != nil {
		st.err = err.Error()
		return
	}
	os.Remove(hb.Name())
	defer hb.Close()
	pr, pw, err := os.Pipe()
	if err != nil {
		st.err = err.Error()
		return
	}
	cmd := exec.Command(self(), append([]string{"-worker", fmt.Sprintf("%d/%d", k, n)}, args...)...)
	cmd.ExtraFiles = []*os.File{hb, pw}
	var se tail
	cmd.Stderr = &se
	cmd.Stdout = &se
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	if err := cmd.Start(); err != nil {
		st.err = err.Error()
		return
	}
	pw.Close()
	data := make(chan []byte, 1)
	go func() { b, _ := io.ReadAll(pr); pr.Close(); data <- b }()
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var last [16]byte
	lastChange := time.Now()
	start := time.Now()
	var werr error
wait:
	for {
		select {
		case werr = <-done:
			break wait
		case <-quit:
			cmd.Process.Kill()
			<-done
			st.err = "stopped"
			<-data
			return
		case <-time.After(500 * time.Millisecond):
			var cur [16]byte
			hb.ReadAt(cur[:], 0)
			if cur != last {
				last, lastChange = cur, time.Now()
			}
			lim := hangSeconds * time.Second
			if binary.LittleEndian.Uint64(cur[:8]) == 0 {
				lim = 180 * time.Second // start-up or shrinking
			}
			if time.Since(lastChange) > lim || time.Since(start) > time.Duration(budget+200)*time.Second {
				cmd.Process.Kill()
				<-done
				st.hang = true
				break wait
			}
		}
	}
	raw := <-data
	hb.ReadAt(last[:], 0)
	st.sub = int(binary.LittleEndian.Uint64(last[:8])) - 1
	st.idx = int(binary.LittleEndian.Uint64(last[8:]))
	st.stderr = se.String()
	if st.hang {
		st.err = "hang"
		return
	}
	var o shardOut
	if werr == nil && json.Unmarshal(raw, &o) == nil {
		st.out = &o
		return
	}
	st.err = fmt.Sprintf("worker died: %v", werr)
	return
}

type tail struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 64<<10 { // keep head and tail
		t.buf = append(t.buf[:16<<10], t.buf[len(t.buf)-(32<<10):]...)
	}
	return len(p), nil
}
func (t *tail) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.buf) }

func fatalLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
		if strings.HasPrefix(l, "WARNING: DATA RACE") {
			var at []string
			for _, m := range strings.Split(s[strings.Index(s, l):], "\n") {
				if m = strings.TrimSpace(m); strings.HasPrefix(m, "thrift.") || strings.HasPrefix(m, "Read at") || strings.HasPrefix(m, "Write at") || strings.HasPrefix(m, "Previous") {
					if i := strings.Index(m, " at 0x"); i > 0 {
						m = m[:i]
					}
					at = append(at, m)
				}
				if len(at) == 8 {
					break
				}
			}
			return dataRace + ": " + strings.Join(at, "; ")
		}
	}
	return ""
}

const dataRace = "data race"

func parent(p Property, tier string, seed int64, scale float64, budget int, evidence, known, replays string) int {
	start := time.Now()
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if n < 1 {
		n = 1
	}
	// known findings first: they are deterministic probes
	knownSet := readKnown(known, p.ID)
	violations := 0
	var firstReplay string
	report := func(f *failRec) {
		violations++
		path := filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", p.ID, sanitize(f.Sub), violations))
		os.MkdirAll(replays, 0755)
		b, _ := json.MarshalIndent(f, "", " ")
		os.WriteFile(path, b, 0644)
		if firstReplay == "" {
			firstReplay = path
		}
		fmt.Printf("--- %s/%s case %d (seed %d): %s\n", p.ID, f.Sub, f.Index, f.Seed, f.Message)
		for _, l := range f.Case {
			fmt.Printf("    %s\n", l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	evals := map[string]int{}
	labels := map[string]int{}
	for _, pr := range p.Probes {
		var saw string
		if m := Guard(func() { saw = pr.Fn() }); m != "" {
			saw = m
		}
		labels["probe "+pr.Key]++
		if saw == "" {
			continue
		}
		if what, ok := knownSet[pr.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, pr.Key, what)
		} else {
			report(&failRec{Property: p.ID, Sub: "probe:" + pr.Key, Seed: seed, Tier: tier, Kind: "probe", Message: saw})
		}
	}
	args := passArgs(seed, tier, scale, budget, flag.Lookup("sub").Value.String())
	quit := make(chan struct{})
	var once sync.Once
	states := make([]childState, n)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			states[k] = runShard(k, n, args, budget, quit)
			if s := states[k]; s.out != nil && s.out.Fail != nil || s.err != "" {
				// let the others finish the current moment, then stop them
				once.Do(func() { time.AfterFunc(2*time.Second, func() { close(quit) }) })
			}
		}(k)
	}
	wg.Wait()
	distinct := map[uint64]bool{}
	var samples []sampleRec
	discards := 0
	truncated := false
	broken := ""
	var best *failRec
	order := map[string]int{}
	for i, s := range p.Subs {
		order[s.Name] = i
	}
	for k := range states {
		s := &states[k]
		if s.out != nil {
			for a, b := range s.out.Evals {
				evals[a] += b
			}
			for a, b := range s.out.Labels {
				labels[a] += b
			}
			for _, x := range s.out.Keys {
				distinct[x] = true
			}
			samples = append(samples, s.out.Samples...)
			discards += s.out.Discards
			truncated = truncated || s.out.Truncated
			if f := s.out.Fail; f != nil {
				if f.Kind == "unreproduced" {
					if !history(f, k, n, args, budget) {
						broken = fmt.Sprintf("case %s/%d failed once but not on replay: %s", f.Sub, f.Index, f.Message)
						continue
					}
				}
				if best == nil || order[f.Sub] < order[best.Sub] || order[f.Sub] == order[best.Sub] && f.Index < best.Index {
					best = f
				}
			}
			continue
		}
		if s.err == "stopped" {
			continue
		}
		if s.sub >= 0 && s.sub < len(p.Subs) {
			kind := "crash"
			msg := fatalLine(s.stderr)
			if s.hang {
				kind, msg = "hang", fmt.Sprintf("the case does not finish within %d s", hangSeconds)
			}
			f := &failRec{Property: p.ID, Sub: p.Subs[s.sub].Name, Index: s.idx, Seed: seed, Tier: tier, Kind: kind, Message: msg}
			if strings.HasPrefix(msg, dataRace) {
				f.Kind = "race"
				if best == nil {
					best = f
				}
				continue
			}
			if (kind == "hang" || msg != "" && !strings.Contains(msg, "out of memory")) && confirm(f, tier) {
				if best == nil {
					best = f
				}
				continue
			}
			if kind == "crash" && msg != "" && !strings.Contains(msg, "out of memory") && history(f, k, n, args, budget) {
				if best == nil {
					best = f
				}
				continue
			}
		}
		broken = s.err + ": " + s.stderr
	}
	if best != nil {
		if best.Kind == "failure" && !p.Schedules && !reproduces(best) {
			// depends on what ran before in the same process
			for k := range states {
				if o := states[k].out; o != nil && o.Fail == best {
					history(best, k, n, args, budget)
				}
			}
		}
		report(best)
	}
	total := 0
	for _, v := range evals {
		total += v
	}
	writeEvidence(p, tier, seed, evidence, evals, total, len(distinct), labels, samples, discards, truncated, violations, time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	if broken != "" {
		fmt.Printf("CHECK ERROR %s: %s\n", p.ID, broken)
		return 3
	}
	fmt.Printf("OK %s tier=%s seed=%d cases=%d nontrivial=%d discarded=%d truncated=%v wall=%.1fs\n", p.ID, tier, seed, total, len(distinct), discards, truncated, time.Since(start).Seconds())
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, s)
}

// history re-runs a worker from its start in a fresh process: a failure that does not
// show when its case runs alone may depend on the cases before it (state that the
// library keeps beyond one object).
func history(f *failRec, k, n int, args []string, budget int) bool {
	for try := 0; try < 2; try++ {
		s := runShard(k, n, args, budget, make(chan struct{}))
		again := s.out != nil && s.out.Fail != nil
		if s.out == nil && !s.hang && s.sub >= 0 {
			again = fatalLine(s.stderr) != ""
		}
		if again {
			f.Kind = "history"
			f.Worker = append([]string{strconv.Itoa(k), strconv.Itoa(n)}, args...)
			return true
		}
	}
	return false
}

// reproduces replays a failing case in a fresh process.
func reproduces(f *failRec) bool {
	tmp, err := os.CreateTemp("", "verif-replay")
	if err != nil {
		return true
	}
	defer os.Remove(tmp.Name())
	json.NewEncoder(tmp).Encode(f)
	tmp.Close()
	cmd := exec.Command(self(), "-replay", tmp.Name())
	if cmd.Start() != nil {
		return true
	}
	t := time.AfterFunc(hangSeconds*time.Second, func() { cmd.Process.Kill() })
	defer t.Stop()
	return cmd.Wait() != nil
}

// confirm re-runs one crashed or hung case alone in a fresh process.
func confirm(f *failRec, tier string) bool {
	tmp, err := os.CreateTemp("", "verif-replay")
	if err != nil {
		return false
	}
	defer os.Remove(tmp.Name())
	json.NewEncoder(tmp).Encode(f)
	tmp.Close()
	cmd := exec.Command(self(), "-replay", tmp.Name())
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single")
	if cmd.Start() != nil {
		return false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if f.Kind == "hang" {
			return false
		}
		l := fatalLine(out.String())
		if l != "" {
			f.Message = l
		}
		return err != nil && l != "" && !strings.Contains(l, "out of memory")
	case <-time.After(hangSeconds * time.Second):
		cmd.Process.Kill()
		<-done
		return f.Kind == "hang"
	}
}

func doReplay(p Property, path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var f failRec
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 3
	}
	if f.Kind == "history" && len(f.Worker) > 2 {
		k, _ := strconv.Atoi(f.Worker[0])
		n, _ := strconv.Atoi(f.Worker[1])
		s := runShard(k, n, f.Worker[2:], 600, make(chan struct{}))
		msg := ""
		if s.out != nil && s.out.Fail != nil {
			msg = s.out.Fail.Message
		} else if s.out == nil && !s.hang {
			msg = fatalLine(s.stderr)
		}
		if msg != "" {
			fmt.Printf("REPRODUCED %s/%s: %s\nVIOLATION property=%s replay=%s\n", p.ID, f.Sub, msg, p.ID, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	if strings.HasPrefix(f.Sub, "probe:") {
		for _, pr := range p.Probes {
			if "probe:"+pr.Key == f.Sub {
				saw := ""
				if m := Guard(func() { saw = pr.Fn() }); m != "" {
					saw = m
				}
				if saw != "" {
					fmt.Printf("REPRODUCED %s: %s\nVIOLATION property=%s replay=%s\n", f.Sub, saw, p.ID, path)
					return 1
				}
			}
		}
		fmt.Println("not reproduced")
		return 0
	}
	for _, s := range p.Subs {
		if s.Name != f.Sub {
			continue
		}
		var r result
		if f.Choices == nil {
			r = runRandom(s.Fn, caseSeed(f.Seed, s.Name, f.Index))
		} else {
			r = runReplay(s.Fn, f.Choices)
		}
		for n := 0; p.Schedules && !r.failed && n < 30; n++ {
			if r = runRandom(s.Fn, caseSeed(f.Seed, s.Name, f.Index)); f.Choices != nil {
				r = runReplay(s.Fn, f.Choices)
			}
		}
		for _, l := range r.notes {
			fmt.Println("    " + l)
		}
		if r.failed {
			fmt.Printf("REPRODUCED %s/%s: %s\nVIOLATION property=%s replay=%s\n", p.ID, s.Name, r.msg, p.ID, path)
			return 1
		}
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Println("unknown sub-check", f.Sub)
	return 3
}

// readKnown returns the finding keys listed for a property:
//
//	finding: property=<id> key=<key> <what fails>
func readKnown(path, id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property="+id+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+id+" key=")
		i := strings.IndexByte(rest, ' ')
		if i < 0 {
			i = len(rest)
		}
		m[rest[:i]] = strings.TrimSpace(rest[i:])
	}
	return m
}

func writeEvidence(p Property, tier string, seed int64, path string, evals map[string]int, total, distinct int, labels map[string]int, samples []sampleRec, discards int, truncated bool, violations int, wall float64) {
	if path == "" {
		return
	}
	var keep []sampleRec
	cnt := map[string]int{}
	for _, s := range samples {
		if cnt[s.Sub] < 2 {
			cnt[s.Sub]++
			keep = append(keep, s)
		}
	}
	if keep == nil {
		keep = []sampleRec{}
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": total, "distinct_nontrivial": distinct, "rule": p.Rule, "samples": keep,
			"cases_per_subcheck": evals, "classes": labels, "discarded": discards, "truncated_by_time_budget": truncated,
		},
		"assumptions": append([]string{}, p.Assumptions...),
		"wall_s":      wall, "violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	os.WriteFile(path, append(b, '\n'), 0644)
}

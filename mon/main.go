package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

type caseFail struct {
	idx   int
	msg   string
	stack string
	incon bool
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 256<<10 {
		t.b = append([]byte(nil), t.b[len(t.b)-(192<<10):]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func seedFromEnv() uint64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return NewRand(s).U64() >> 1
	}
	return v
}

func verifDir() string {
	if d := os.Getenv("VMON_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func runShard(p *Prop, bin, tier string, seed uint64, shard, nsh int, total *Stats, tmu *sync.Mutex, kill <-chan struct{}) *caseFail {
	variant := ""
	if p.Variant != nil {
		variant = p.Variant(shard)
	}
	bin, env := variantEnv(bin, variant)
	cmd := exec.Command(bin, "child", p.ID, tier, fmt.Sprint(seed), fmt.Sprint(shard), fmt.Sprint(nsh))
	cmd.Env = append(env, "GORACE=halt_on_error=1 exitcode=66 history_size=3", "GOTRACEBACK=all")
	var errb tailBuf
	cmd.Stderr = &errb
	out, err := cmd.StdoutPipe()
	if err != nil {
		return &caseFail{incon: true, msg: err.Error()}
	}
	if err := cmd.Start(); err != nil {
		return &caseFail{incon: true, msg: err.Error()}
	}
	done := make(chan struct{})
	killed := false
	go func() {
		select {
		case <-kill:
			killed = true
			cmd.Process.Kill()
		case <-done:
		}
	}()
	last := -1
	var res *caseFail
	gotStats := false
	sc := bufio.NewReaderSize(out, 1<<20)
	for {
		line, rerr := sc.ReadBytes('\n')
		if len(line) > 0 {
			var m childMsg
			if json.Unmarshal(line, &m) == nil {
				switch {
				case m.Begin != nil:
					last = *m.Begin
				case m.Fail != nil:
					res = &caseFail{idx: m.FailAt, msg: m.Fail.Msg, stack: m.Fail.Stack}
				case m.Incon != "":
					res = &caseFail{idx: m.FailAt, msg: m.Incon, incon: true}
				case m.Stats != nil:
					gotStats = true
					tmu.Lock()
					total.merge(m.Stats)
					tmu.Unlock()
				}
			}
		}
		if rerr != nil {
			break
		}
	}
	werr := cmd.Wait()
	close(done)
	if res != nil {
		return res
	}
	if killed {
		return nil
	}
	if gotStats && werr == nil {
		return nil
	}
	// The child died without reporting: a crash of the process under test.
	text := string(errb.b)
	switch {
	case strings.Contains(text, "WARNING: DATA RACE"):
		return &caseFail{idx: last, msg: "data race reported by the race detector", stack: head(text, 20000)}
	case strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") || strings.Contains(text, "SIGSEGV"):
		if strings.Contains(text, "fatal error: out of memory") || strings.Contains(text, "cannot allocate memory") {
			return &caseFail{idx: last, msg: "process ran out of memory", stack: head(text, 8000), incon: true}
		}
		return &caseFail{idx: last, msg: "process crashed: " + firstPanicLine(text), stack: head(text, 20000)}
	}
	return &caseFail{idx: last, msg: fmt.Sprintf("child ended without an answer (%v): %s", werr, head(text, 2000)), incon: true}
}

// variantEnv selects the binary and environment of a build variant.
func variantEnv(bin, variant string) (string, []string) {
	env := append(os.Environ(), "VMON_VARIANT="+variant)
	switch variant {
	case "386":
		bin = os.Getenv("VMON_386")
	case "noclmul":
		env = append(env, "GODEBUG=cpu.pclmulqdq=off")
	}
	return bin, env
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func firstPanicLine(t string) string {
	for _, l := range strings.Split(t, "\n") {
		if strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "fatal error:") || strings.Contains(l, "SIGSEGV") {
			return l
		}
	}
	return ""
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Index    int    `json:"index"`
	Message  string `json:"message"`
	Stack    string `json:"stack,omitempty"`
	HowTo    string `json:"how_to_replay"`
}

func parentMain(id, tier string) int {
	p := props[id]
	if p == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	seed := seedFromEnv()
	t0 := time.Now()
	bin, _ := os.Executable()
	nsh := p.Shards
	if nsh == 0 {
		nsh = 8
	}
	if n := p.N(tier); nsh > n {
		nsh = n
	}
	total := newStats()
	var tmu sync.Mutex
	kill := make(chan struct{})
	var once sync.Once
	results := make([]*caseFail, nsh)
	var wg sync.WaitGroup
	for s := 0; s < nsh; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			r := runShard(p, bin, tier, seed, s, nsh, total, &tmu, kill)
			results[s] = r
			if r != nil && !r.incon {
				once.Do(func() { close(kill) })
			}
		}(s)
	}
	wg.Wait()
	var viol, inc *caseFail
	for _, r := range results {
		if r == nil {
			continue
		}
		if r.incon {
			inc = r
		} else if viol == nil || r.idx < viol.idx {
			viol = r
		}
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": evidenceLevel(id),
		"wall_s":      time.Since(t0).Seconds(),
		"assumptions": []string{"the oracle (independent reference decoder, state models and the Go standard library) is correct", "coverage is what the counters show; absence of a violation outside the executed cases is not claimed"},
		"violations":  0,
	}
	samples := total.Samples
	if len(samples) > 8 {
		samples = samples[:8]
	}
	if len(samples) == 0 {
		samples = []interface{}{fmt.Sprintf("seed %d, cases 0..%d", seed, p.N(tier)-1)}
	}
	ev["coverage"] = map[string]interface{}{
		"evaluations": total.Evals, "distinct_nontrivial": len(total.Distinct),
		"rule": p.Rule, "samples": samples,
		"cases": p.N(tier), "observed": total.Counters, "maxima": total.Max,
	}
	code := 0
	switch {
	case viol != nil:
		ev["violations"] = 1
		rdir := filepath.Join(verifDir(), "replays")
		os.MkdirAll(rdir, 0o755)
		path := filepath.Join(rdir, fmt.Sprintf("%s-%s-seed%d-case%d.json", id, tier, seed, viol.idx))
		rf := replayFile{Property: id, Tier: tier, Seed: seed, Index: viol.idx, Message: viol.msg, Stack: viol.stack,
			HowTo: fmt.Sprintf("cd /verif && ./check.sh replay %s", path)}
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("case %d: %s\n", viol.idx, head(viol.msg, 3000))
		if viol.stack != "" {
			fmt.Println(head(viol.stack, 3500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		code = 1
	case inc != nil:
		fmt.Printf("INCONCLUSIVE property=%s case %d: %s\n", id, inc.idx, head(inc.msg, 4000))
		code = 2
	default:
		for _, k := range p.Need {
			if total.Counters[k] == 0 {
				fmt.Printf("INCONCLUSIVE property=%s: nothing observed for %q\n", id, k)
				code = 2
			}
		}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", id, tier, seed, total.Evals, len(total.Distinct), time.Since(t0).Seconds())
		cb, _ := json.Marshal(total.Counters)
		fmt.Println("observed:", string(cb))
	}
	return code
}

func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	if p := props[rf.Property]; p != nil && p.Variant != nil && os.Getenv("VMON_VARIANT") == "" {
		if v := p.Variant(rf.Index % 8); v != "" {
			self, _ := os.Executable()
			bin, env := variantEnv(self, v)
			cmd := exec.Command(bin, "replay", path)
			cmd.Env, cmd.Stdout, cmd.Stderr = env, os.Stdout, os.Stderr
			if cmd.Run() == nil {
				return 0
			}
			return 1
		}
	}
	return oneMain(rf.Property, rf.Tier, rf.Seed, rf.Index)
}

func oneMain(id, tier string, seed uint64, idx int) int {
	p := props[id]
	go watchdogLoop()
	st := newStats()
	f := runCase(p, tier, seed, idx, st)
	if f != nil {
		fmt.Printf("case %d: %s\n%s\n", idx, f.Msg, f.Stack)
		fmt.Printf("VIOLATION property=%s case=%d\n", id, idx)
		return 1
	}
	cb, _ := json.Marshal(st.Counters)
	fmt.Printf("OK property=%s case=%d evals=%d %s\n", id, idx, st.Evals, cb)
	return 0
}

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Println("usage: vmon parent ID tier | child ... | replay FILE | one ID tier seed idx | race ID")
		os.Exit(2)
	}
	switch a[0] {
	case "parent":
		os.Exit(parentMain(a[1], a[2]))
	case "child":
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		sh, _ := strconv.Atoi(a[4])
		n, _ := strconv.Atoi(a[5])
		childMain(a[1], a[2], seed, sh, n)
	case "replay":
		os.Exit(replayMain(a[1]))
	case "one":
		seed, _ := strconv.ParseUint(a[3], 10, 64)
		i, _ := strconv.Atoi(a[4])
		os.Exit(oneMain(a[1], a[2], seed, i))
	case "digest":
		digestMain(a[1:])
	case "list":
		var b bytes.Buffer
		for id := range props {
			fmt.Fprintln(&b, id)
		}
		os.Stdout.Write(b.Bytes())
	}
}

func evidenceLevel(id string) string {
	if id == "C08" {
		return "fault_enumeration"
	}
	return "exploration"
}

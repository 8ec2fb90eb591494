package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

// known findings: /verif/KNOWN_FINDINGS.txt
//
//	finding: property=<id> sig=<signature> <what fails>
//	fixed: property=<id> <commit> <what failed>            (suppresses nothing)
type finding struct{ prop, sig, what string }

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadFindings() (out []finding) {
	b, _ := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	re := regexp.MustCompile(`^finding: property=(\S+) sig=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, finding{m[1], m[2], m[3]})
		}
	}
	return
}

// childLimit caps the whole workload; passing it is judged from the goroutine dump.
func childLimit(tier string) time.Duration {
	if tier == "thorough" {
		return 3 * time.Hour
	}
	return 600 * time.Second
}

func parentMain(id string) int {
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", id)
		return 2
	}
	start := time.Now()
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	dir, err := os.MkdirTemp("", "mon."+id+".")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	out := dir + "/out.json"
	cmd := exec.Command(self, "child", id)
	cmd.Env = append(os.Environ(), "MON_OUT="+out, "VERIF_SEED="+fmt.Sprint(seed), "VERIF_TIER="+tier,
		"GOTRACEBACK=all", "GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path="+dir+"/race")
	cmd.Dir = dir
	so, _ := os.Create(dir + "/stdout")
	se, _ := os.Create(dir + "/stderr")
	cmd.Stdout, cmd.Stderr = so, se
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	waited := make(chan error, 1)
	go func() { waited <- cmd.Wait() }()
	timedOut := false
	select {
	case <-waited:
	case <-time.After(childLimit(tier)):
		timedOut = true
		_ = cmd.Process.Signal(sigquit)
		select {
		case <-waited:
		case <-time.After(10 * time.Second):
			_ = cmd.Process.Kill()
			<-waited
		}
	}
	so.Close()
	se.Close()
	stderr := tailFile(dir+"/stderr", 400000)

	var res result
	if b, err := os.ReadFile(out); err == nil {
		_ = json.Unmarshal(b, &res)
	}
	// sanitizer reports
	rr := &R{seen: map[uint64]struct{}{}, sigCount: map[string]int{}}
	races := readRaces(dir)
	rr.Races(races, "data race reported by the Go race detector")
	res.Violations = append(res.Violations, rr.res.Violations...)
	res.Harness = append(res.Harness, rr.res.Harness...)
	// crash of the workload process
	if !res.Done {
		crash, ours := crashOf(stderr)
		switch {
		case timedOut && strings.Contains(stderr, foregoPkg+"/"):
			res.Violations = append(res.Violations, Violation{"workload:hang", "the workload made no progress; goroutines:\n" + cut(stderr, 6000)})
		case ours:
			res.Violations = append(res.Violations, Violation{"crash:" + crashSig(crash), "the process running the workload died:\n" + cut(crash, 6000)})
		default:
			res.Harness = append(res.Harness, "child died: "+cut(tail(stderr, 3000), 3000))
		}
	}

	// judge
	known := loadFindings()
	var fresh []Violation
	hit := map[string]bool{}
	for _, v := range res.Violations {
		match := false
		for _, k := range known {
			if k.prop == id && k.sig == v.Sig {
				match = true
				if !hit[k.sig] {
					hit[k.sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", id, k.what, k.sig)
				}
			}
		}
		if !match {
			fresh = append(fresh, v)
		}
	}
	cov := map[string]any{
		"evaluations":         res.Evaluations,
		"distinct_nontrivial": res.Distinct,
		"rule":                p.rule,
		"samples":             res.Samples,
		"observed":            res.Counters,
		"race_reports":        len(races),
		"race_detector":       raceEnabled,
	}
	if len(hit) > 0 {
		var l []string
		for k := range hit {
			l = append(l, k)
		}
		cov["known_findings_seen"] = l
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
		"assumptions": append([]string{"held on the executions observed in this run; nothing is claimed for executions not driven"}, p.notes...),
	}
	evdir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if len(fresh) > 0 {
		rp := filepath.Join(evdir, "replay", fmt.Sprintf("%s.%s.%d.txt", id, tier, seed))
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s\nrerun: VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s\n", id, seed, tier, id)
		for _, v := range fresh {
			fmt.Fprintf(&sb, "\n== %s\n%s\n", v.Sig, v.Detail)
		}
		_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
		for i, v := range fresh {
			if i >= 8 {
				fmt.Printf("... and %d more\n", len(fresh)-i)
				break
			}
			fmt.Printf("violated: [%s] %s\n", v.Sig, strings.ToValidUTF8(cut(strings.Join(strings.SplitN(v.Detail, "\n", 4)[:min(3, 1+strings.Count(v.Detail, "\n"))], " / "), 300), "?"))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if len(res.Harness) > 0 {
		for _, h := range res.Harness {
			fmt.Fprintf(os.Stderr, "harness error: %s\n", cut(h, 3000))
		}
		return 2
	}
	if res.Evaluations == 0 || res.Distinct == 0 {
		fmt.Fprintln(os.Stderr, "harness error: the run observed nothing")
		return 2
	}
	fmt.Printf("%s: held on %d evaluations (%d distinct non-trivial), seed %d, %s, %.1f s\n", id, res.Evaluations, res.Distinct, seed, tier, time.Since(start).Seconds())
	return 0
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func tailFile(path string, n int) string {
	b, _ := os.ReadFile(path)
	return tail(string(b), n)
}

// crashOf finds the goroutine that brought the process down and says whether forego is on its stack.
func crashOf(stderr string) (string, bool) {
	i := -1
	for _, m := range []string{"\npanic: ", "\nfatal error: ", "\nunexpected fault"} {
		if j := strings.Index("\n"+stderr, m); j >= 0 && (i < 0 || j < i) {
			i = j
		}
	}
	if i < 0 {
		return "", false
	}
	s := stderr[i:]
	// message, then blank line, then the first goroutine
	parts := strings.Split(s, "\n\n")
	head := s
	if len(parts) >= 2 {
		head = parts[0] + "\n\n" + parts[1]
	}
	if strings.Contains(s, "fatal error: ") && !strings.Contains(head, foregoPkg+"/") && len(parts) > 2 {
		head += "\n\n" + parts[2]
	}
	if strings.Contains(head, "all goroutines are asleep") {
		head = s
	}
	return head, strings.Contains(head, foregoPkg+"/")
}

var crashFrame = regexp.MustCompile(`(?m)^github\.com/Aize-Public/forego/([^\n]*)\(`)

func crashSig(s string) string {
	if m := crashFrame.FindStringSubmatch(s); m != nil {
		f := m[1]
		if i := strings.Index(f, "({"); i > 0 {
			f = f[:i]
		}
		return strings.ReplaceAll(f, " ", "")
	}
	return "?"
}

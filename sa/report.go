package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Report collects the obligations of one property and what became of them.
type Report struct {
	id       string
	tier     string
	start    time.Time
	obls     int
	done     int
	byRule   map[string]*ruleCount
	viols    []Viol
	seen     map[string]bool
	analysed map[string]int
	samples  []string
	explain  []string
	assume   []string
	minimum  map[string]int // rule -> least number of instances
}

type ruleCount struct {
	n, ok int
}

type Viol struct {
	rule, construct, pos, msg string
}

func (v Viol) key() string { return v.rule + "|" + v.construct }

func newReport(id, tier string) *Report {
	return &Report{id: id, tier: tier, start: time.Now(), byRule: map[string]*ruleCount{}, seen: map[string]bool{}, analysed: map[string]int{}, minimum: map[string]int{}}
}

// oblige records one obligation of a rule at a construct.
func (r *Report) oblige(ok bool, rule, construct, pos, msg string, a ...interface{}) bool {
	r.obls++
	rc := r.byRule[rule]
	if rc == nil {
		rc = &ruleCount{}
		r.byRule[rule] = rc
	}
	rc.n++
	if ok {
		r.done++
		rc.ok++
		if len(r.samples) < 60 {
			r.samples = append(r.samples, rule+": "+construct)
		}
		return true
	}
	v := Viol{rule, construct, relPos(pos), fmt.Sprintf(msg, a...)}
	k := v.key() + "|" + v.pos + "|" + v.msg
	if !r.seen[k] {
		r.seen[k] = true
		r.viols = append(r.viols, v)
	}
	return false
}

// include adds the obligations of a contract that was relied on, once.
func (r *Report) include(name string, s *Report) {
	if r.seen["include "+name] {
		return
	}
	r.seen["include "+name] = true
	r.obls += s.obls
	r.done += s.done
	for k, c := range s.byRule {
		rc := r.byRule[k]
		if rc == nil {
			rc = &ruleCount{}
			r.byRule[k] = rc
		}
		rc.n += c.n
		rc.ok += c.ok
	}
	for _, v := range s.viols {
		k := v.key() + "|" + v.pos + "|" + v.msg
		if !r.seen[k] {
			r.seen[k] = true
			r.viols = append(r.viols, v)
		}
	}
	for k, n := range s.analysed {
		r.analysed[k] += n
	}
}

func (r *Report) count(what string, n int) { r.analysed[what] += n }

// atLeast fails the check when a rule found fewer instances than are known to exist.
func (r *Report) atLeast(rule string, n int) { r.minimum[rule] = n }

func (r *Report) rule(s string)       { r.explain = append(r.explain, s) }
func (r *Report) assumes(s ...string) { r.assume = append(r.assume, s...) }

func relPos(p string) string {
	return strings.TrimPrefix(p, repoDir+"/")
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// knownFindings reads the keys of the recorded, unrepaired findings of a property.
func knownFindings(id string) map[string]string {
	out := map[string]string{}
	raw, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(raw), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+id+" ")
		if !strings.HasPrefix(l, "key=") {
			continue
		}
		l = strings.TrimPrefix(l, "key=")
		k := strings.SplitN(l, " :: ", 2)
		d := ""
		if len(k) == 2 {
			d = k[1]
		}
		out[k[0]] = d
	}
	return out
}

// finish writes the evidence and the replay file, prints the verdict and
// returns the exit status.
func (r *Report) finish(technique string) int {
	for rule, n := range r.minimum {
		got := 0
		if rc := r.byRule[rule]; rc != nil {
			got = rc.n
		}
		if got < n {
			r.viols = append(r.viols, Viol{"instances", rule, "", fmt.Sprintf("rule %q found %d instances, at least %d are known to exist: the analysis no longer sees what it has to check", rule, got, n)})
		}
	}
	known := knownFindings(r.id)
	var bad []Viol
	usedKnown := map[string]bool{}
	for _, v := range r.viols {
		if _, ok := known[v.key()]; ok {
			usedKnown[v.key()] = true
			continue
		}
		bad = append(bad, v)
	}
	var ks []string
	for k := range usedKnown {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.id, known[k])
	}
	evDir := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	rules := map[string]interface{}{}
	for k, c := range r.byRule {
		rules[k] = map[string]int{"instances": c.n, "discharged": c.ok}
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	sort.Strings(r.assume)
	var vs []string
	for _, v := range r.viols {
		vs = append(vs, v.String())
	}
	cov := map[string]interface{}{
		"explanation":            strings.Join(r.explain, " "),
		"technique":              technique,
		"obligations":            r.obls,
		"discharged":             r.done,
		"rules":                  rules,
		"analysed":               r.analysed,
		"samples":                r.samples,
		"undischarged":           vs,
		"source":                 "type-checked SSA of the working tree of " + repoDir + ", rebuilt on every run",
		"instances_known_before": r.minimum,
	}
	ev := map[string]interface{}{
		"property": r.id, "tier": r.tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": float64(int(time.Since(r.start).Seconds()*1000)) / 1000, "violations": len(bad), "assumptions": r.assume,
	}
	if r.assume == nil {
		ev["assumptions"] = []string{}
	}
	js, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, r.id+".json"), append(js, '\n'), 0o644); err != nil {
		fmt.Println("cannot write the evidence:", err)
		bad = append(bad, Viol{"evidence", r.id, "", err.Error()})
	}
	if len(bad) == 0 {
		fmt.Printf("OK property=%s: %d obligations discharged in %.1fs\n", r.id, r.done, time.Since(r.start).Seconds())
		return 0
	}
	rp := filepath.Join(evDir, r.id+".violations.txt")
	var sb strings.Builder
	for _, v := range bad {
		sb.WriteString(v.String() + "\n")
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	n := len(bad)
	if n > 40 {
		bad = bad[:40]
	}
	for _, v := range bad {
		fmt.Println(v.String())
	}
	if n > len(bad) {
		fmt.Printf("... and %d more\n", n-len(bad))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.id, rp)
	return 1
}

func (v Viol) String() string {
	p := v.pos
	if p == "" {
		p = "-"
	}
	return fmt.Sprintf("%s: [%s] %s: %s", p, v.rule, v.construct, v.msg)
}

// Command mc model-checks the properties of /verif/properties.jsonl against
// the code in /repo. See DESIGN.md.
package main

import (
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	id := flag.String("check", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "where evidence and replays go")
	child := flag.String("child", "", "explore (internal): scratch directory")
	limit := flag.Duration("limit", 0, "time limit of the exploration")
	replay := flag.String("replay", "", "replay a violation file")
	doc := flag.String("doc", "", "show what model and code say about a document")
	ns := flag.Bool("ns", false, "with -doc: namespace aware")
	fp := flag.Int("fp", -1, "print the fingerprint of a document of C13")
	orderArg := flag.String("orderrun", "", "parse documents one after another (internal)")
	raceArg := flag.String("racerun", "", "parse documents of C13 in parallel")
	list := flag.Bool("list", false, "list the checks")
	flag.Parse()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	switch {
	case *list:
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case *fp >= 0:
		printFresh(*fp)
	case *orderArg != "":
		orderRun(*orderArg)
	case *raceArg != "":
		raceRun(*raceArg)
	case *doc != "":
		showDoc(*doc, *ns)
	case *replay != "":
		os.Exit(replayMain(*replay))
	case checks[*id] == nil:
		fmt.Fprintln(os.Stderr, "no such check:", *id)
		os.Exit(2)
	case *child != "":
		childMain(*id, *tier == "thorough", seed, *child, *limit)
	default:
		os.Exit(parentMain(*id, *tier, *verif, seed, *limit))
	}
}

// replayFile is the replayable form of a violation.
type replayFile struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Payload  []byte `json:"payload"`
	Readable string `json:"readable"`
	What     string `json:"what"`
}

// replayMain runs one case; exit 1 if it violates, 0 if not.
func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c := newCtx(r.Property, false, 1, "", time.Minute, 1)
	c.replay = true
	if what := c.workers[0].exec(r.Family, r.Payload); what != "" {
		fmt.Fprintln(realOut, what)
		return 1
	}
	fmt.Fprintln(realOut, "no violation")
	return 0
}

// confirm replays a case in fresh processes; all of them must fail.
func confirm(file string, times int, session bool) (string, bool) {
	what := ""
	wait := 25 * time.Second
	if session {
		wait, times = 150*time.Second, 2
	}
	for i := 0; i < times; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), wait)
		cmd := exec.CommandContext(ctx, "/bin/bash", "-c", `ulimit -S -v 10485760; exec "$0" -replay "$1"`, os.Args[0], file)
		out, err := cmd.CombinedOutput()
		timeout := ctx.Err() != nil
		cancel()
		switch {
		case timeout && session:
			return "", false
		case timeout:
			what = "does not end within 25 s"
			if i >= 1 { // twice is enough for a hang
				return what, true
			}
		case err == nil:
			return "", false
		default:
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
				what = strings.TrimSpace(string(out))
			} else {
				l := strings.SplitN(strings.TrimSpace(string(out)), "\n", 2)
				what = "the process dies: " + l[0]
			}
		}
	}
	return what, true
}

// explore runs the exploration of a property in a process of its own and
// returns its report and the cases that may be violations.
func explore(id, tier, dir string, limit time.Duration, env ...string) (rep Report, cand []Violation) {
	ctx, cancel := context.WithTimeout(context.Background(), limit+60*time.Second)
	cmd := exec.CommandContext(ctx, os.Args[0], "-check", id, "-tier", tier, "-child", dir, "-limit", limit.String())
	out, _ := os.Create(filepath.Join(dir, "out"))
	cmd.Env = append(os.Environ(), env...)
	cmd.Stdout, cmd.Stderr = out, out
	runErr := cmd.Run()
	cancel()
	out.Close()
	b, rerr := os.ReadFile(filepath.Join(dir, "report.json"))
	if runErr == nil && rerr == nil && json.Unmarshal(b, &rep) == nil {
		cand = rep.Violations
	} else {
		// the child died: the running cases are the suspects
		why, _ := os.ReadFile(filepath.Join(dir, "why"))
		o, _ := os.ReadFile(filepath.Join(dir, "out"))
		if len(o) > 600 {
			o = o[:600]
		}
		fmt.Printf("exploration ended early: %v %s %s\n", runErr, why, o)
		rep.Capped = []string{"all"}
		rep.Samples = []string{"(exploration ended early)"}
		// and what it had found before
		if b, err := os.ReadFile(filepath.Join(dir, "found")); err == nil {
			dec := json.NewDecoder(strings.NewReader(string(b)))
			for {
				var v Violation
				if dec.Decode(&v) != nil {
					break
				}
				cand = append(cand, v)
			}
		}
		files, _ := filepath.Glob(filepath.Join(dir, "slot*"))
		sort.Strings(files)
		for _, f := range files {
			s, err := os.ReadFile(f)
			if err != nil || len(s) < 64 || s[3] == 0 {
				continue
			}
			n := int(s[0]) | int(s[1])<<8 | int(s[2])<<16
			fam := string(s[8:64])
			if k := strings.IndexByte(fam, 0); k >= 0 {
				fam = fam[:k]
			}
			cand = append(cand, Violation{fam, append([]byte{}, s[64:64+n]...), string(why)})
		}
	}
	return rep, cand
}

func parentMain(id, tier, verif string, seed int64, limit time.Duration) int {
	start := time.Now()
	thorough := tier == "thorough"
	if limit == 0 {
		limit = 240 * time.Second
		if thorough {
			limit = 600 * time.Second
		}
	}
	dir, err := os.MkdirTemp("", "mc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	rep, cand := explore(id, tier, dir, limit)
	known := readKnown(verif)
	code := 0
	nviol := 0
	seenKnown := map[string]bool{}
	unconfirmed := 0
	session := false
again:
	for i, v := range cand {
		if nviol > 0 && i > 20 {
			break
		}
		r := replayFile{Property: id, Family: v.Family, Payload: v.Payload, Readable: readable(v.Family, v.Payload), What: v.What}
		if k := known.match(id, v); k != "" {
			if !seenKnown[k] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
			}
			seenKnown[k] = true
			continue
		}
		rb, _ := json.MarshalIndent(r, "", " ")
		tmp := filepath.Join(dir, "replay.json")
		if err := os.WriteFile(tmp, rb, 0o644); err != nil {
			continue
		}
		what, ok := confirm(tmp, 5, v.Family == "session")
		if !ok {
			fmt.Printf("not seen again alone in a new process: %s %s\n", r.Readable, v.What)
			unconfirmed++
			continue
		}
		nviol++
		if nviol == 1 {
			r.What = what
			rb, _ = json.MarshalIndent(r, "", " ")
			rdir := filepath.Join(verif, "evidence", "replay")
			os.MkdirAll(rdir, 0o755)
			path := filepath.Join(rdir, id+".json")
			if err := os.WriteFile(path, rb, 0o644); err != nil {
				path = "-"
			}
			fmt.Printf("%s\n  %s\n", r.Readable, what)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			code = 1
			break
		}
	}
	if nviol == 0 && unconfirmed > 0 && !session {
		// what failed may need what ran before it: explore again, one case
		// at a time, remembering all of them
		session = true
		sdir := filepath.Join(dir, "session")
		if os.Mkdir(sdir, 0o755) == nil {
			_, cand = explore(id, tier, sdir, 240*time.Second, "MC_SESSION=1")
			goto again
		}
	}
	for _, k := range known.of(id) {
		if !seenKnown[k] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
		}
	}
	exhaustive := len(rep.Capped) == 0 && nviol == 0
	cov := map[string]interface{}{
		"states": rep.States, "transitions": rep.Transitions, "traces_validated_against_impl": rep.Traces,
		"samples": rep.Samples, "exhaustive": exhaustive, "executions_per_space": rep.Spaces,
		"outcomes": rep.Outcomes, "capped_spaces": rep.Capped, "bounds": checks[id].bounds,
		"meaning": "states: distinct model states (document prefixes, call histories or cases) visited; transitions: model steps taken (fragments appended or operations applied); traces: executions of the real code compared with the model",
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
		"assumptions": []string{
			"inputs outside the stated alphabets and bounds are not explored",
			"the reference model (mc/ref and the array, tree and window models) states what is right",
		},
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(eb, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d exhaustive=%v outcomes=%v wall=%.1fs\n", id, tier,
		rep.States, rep.Transitions, rep.Traces, exhaustive, rep.Outcomes, time.Since(start).Seconds())
	if os.Getenv("MC_VERBOSE") != "" {
		var ks []string
		for k := range rep.Spaces {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Printf("  %-40s %10d %7.1fs\n", k, rep.Spaces[k], rep.Seconds[k])
		}
	}
	if len(rep.Capped) > 0 {
		fmt.Printf("capped: %v\n", rep.Capped)
	}
	return code
}

// knownFindings are defects that are recorded instead of repaired. A line
//
//	finding: property=<id> family=<family> payload=<quoted> <what fails>
//
// suppresses exactly that case; lines "fixed: ..." suppress nothing.
type knownFindings []struct{ id, fam, payload, what string }

func readKnown(verif string) knownFindings {
	var k knownFindings
	b, _ := os.ReadFile(filepath.Join(verif, "KNOWN_FINDINGS"))
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: property=") {
			continue
		}
		var id, fam string
		rest := strings.TrimPrefix(l, "finding: property=")
		f := strings.SplitN(rest, " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[1], "family=") || !strings.HasPrefix(f[2], "payload=") {
			continue
		}
		id, fam = f[0], strings.TrimPrefix(f[1], "family=")
		q := strings.TrimPrefix(f[2], "payload=")
		pre, err := strconv.QuotedPrefix(q)
		if err != nil {
			continue
		}
		pl, _ := strconv.Unquote(pre)
		k = append(k, struct{ id, fam, payload, what string }{id, fam, pl, strings.TrimSpace(q[len(pre):])})
	}
	return k
}

func (k knownFindings) match(id string, v Violation) string {
	for _, f := range k {
		if f.id == id && f.fam == v.Family && f.payload == string(v.Payload) {
			return f.what
		}
	}
	return ""
}

func (k knownFindings) of(id string) (out []string) {
	for _, f := range k {
		if f.id == id {
			out = append(out, f.what)
		}
	}
	return
}

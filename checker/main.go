package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
)

// Ctx is what a check works on.
type Ctx struct {
	As  []*Analysis // analysed build variants; As[0] is the default one
	Rep *Report
}

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}

func register(id string, f checkFn) { checks[id] = f }

func loadVariants(specs ...[2]string) ([]*Analysis, error) {
	var out []*Analysis
	for _, s := range specs {
		p, err := loadProg(s[0], s[1])
		if err != nil {
			return nil, fmt.Errorf("loading %s: %v", s[0], err)
		}
		a, err := newAnalysis(p)
		if err != nil {
			return nil, err
		}
		out = append(out, a)
	}
	return out, nil
}

func runCheck(id, tier string) (code int) {
	rep := newReport(id, tier)
	defer func() {
		if x := recover(); x != nil {
			rep.fail("analysis", "panic", "", "the analysis did not complete: %v\n%s", x, debug.Stack())
			code = rep.finish()
		}
	}()
	as, err := loadVariants([2]string{"default", ""}, [2]string{"purego", "purego"})
	if err != nil {
		rep.fail("analysis", "load", "", "%v", err)
		return rep.finish()
	}
	for _, a := range as {
		rep.Variants = append(rep.Variants, a.P.Variant)
	}
	checks[id](&Ctx{As: as, Rep: rep})
	return rep.finish()
}

func main() {
	debug.SetGCPercent(400)
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property> [quick|thorough] | dump <function>... | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		as, err := loadVariants([2]string{"v", os.Getenv("TAGS")})
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range os.Args[2:] {
			for name, f := range as[0].P.ByName {
				if name == n || strings.HasSuffix(name, "."+n) {
					dump(as[0], as[0].summary(f))
				}
			}
		}
		return
	case "val":
		valCommand(os.Args[2:])
		return
	case "seq":
		seqCommand()
		return
	case "valall":
		valAll(os.Args[2:])
		return
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if checks[os.Args[1]] == nil {
		fmt.Println("unknown property", os.Args[1])
		os.Exit(2)
	}
	code := runCheck(os.Args[1], tier)
	pprof.StopCPUProfile()
	os.Exit(code)
}

func dump(a *Analysis, s *Summary) {
	fmt.Println("==", fnName(s.fn))
	for i, p := range s.fn.Params {
		fmt.Print(" P", i, "=", p.Name())
	}
	fmt.Println()
	for _, r := range sortedAccs(s.Reads) {
		fmt.Println("  R", r.path.key(), r.via)
	}
	for _, r := range sortedAccs(s.Writes) {
		c := ""
		if r.copyOf != nil {
			c = " =" + r.copyOf.key()
		}
		fmt.Println("  W", r.path.key(), c, r.via, r.ptr)
	}
	for _, p := range s.MustW.list() {
		fmt.Println("  M", p.key())
	}
	for _, p := range s.MustG.list() {
		fmt.Println("  MG", p.key())
	}
	for _, r := range sortedAccs(s.Exposed) {
		fmt.Println("  X", r.path.key(), r.guard, r.via, a.P.posStr(r.pos))
	}
	for _, r := range sortedAccs(s.Def) {
		fmt.Println("  D", r.path.key(), r.via, a.P.posStr(r.pos))
	}
	var hk []string
	for k := range s.Haz {
		hk = append(hk, k)
	}
	sort.Strings(hk)
	for _, k := range hk {
		h := s.Haz[k]
		fmt.Println("  H", k, "w:", fnName(h.w.fn), a.P.posStr(h.w.pos), "r:", fnName(h.r.fn), a.P.posStr(h.r.pos))
	}
	for k, h := range s.CallHaz {
		fmt.Println("  CH", k, a.P.posStr(h.w.pos))
	}
	for _, q := range s.Ptrs {
		fmt.Println("  PS", q.dst.key(), "<-", q.src.key(), a.P.posStr(q.pos))
	}
	for _, u := range s.Unknown {
		fmt.Println("  UNK", u.path.key(), a.P.posStr(u.pos), fnName(u.fn))
	}
	if len(s.Dyn) > 0 {
		fmt.Println("  DYN", s.Dyn)
	}
}

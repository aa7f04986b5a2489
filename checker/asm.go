package main

import (
	"bufio"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// AsmFunc is what is known about one assembly routine.
type AsmFunc struct {
	Name    string
	File    string
	Line    int
	Reads   map[string]bool // parameter names read through
	Writes  map[string]bool // parameter names written through
	Frame   map[string]int  // offsets of argument references
	ISA     map[string]bool // CPU features of the instructions used
	Insts   []asmInst
	Order   bool // every load of a block precedes the stores that could overlap it
	Unknown []string
}

type asmInst struct {
	Line  int
	Label string
	Op    string
	Args  []string
}

var (
	reText = regexp.MustCompile(`^TEXT\s+·(\w+)\(SB\)`)
	reArg  = regexp.MustCompile(`^(\w+?)(_base|_len|_cap|_real|_imag)?\+(\d+)\(FP\)$`)
	reMem  = regexp.MustCompile(`^(-?\d*|-?0x[0-9a-f]+)\((\w+)\)(?:\((\w+)\*(\d)\))?$`)
)

func splitArgs(s string) []string {
	var out []string
	depth := 0
	cur := ""
	for _, r := range s {
		switch r {
		case '(':
			depth++
		case ')':
			depth--
		}
		if r == ',' && depth == 0 {
			out = append(out, strings.TrimSpace(cur))
			cur = ""
			continue
		}
		cur += string(r)
	}
	if strings.TrimSpace(cur) != "" {
		out = append(out, strings.TrimSpace(cur))
	}
	return out
}

// parseAsm reads the assembly files of the packages in this variant.
func parseAsm(p *Prog) (map[string]*AsmFunc, error) {
	res := map[string]*AsmFunc{}
	for _, pk := range p.Pkgs {
		for _, f := range pk.OtherFiles {
			if !strings.HasSuffix(f, ".s") {
				continue
			}
			short := strings.TrimPrefix(pk.PkgPath, modPath+"/")
			if err := parseAsmFile(f, short, res); err != nil {
				return nil, err
			}
		}
	}
	return res, nil
}

func parseAsmFile(path, pkg string, res map[string]*AsmFunc) error {
	fh, err := os.Open(path)
	if err != nil {
		return err
	}
	defer fh.Close()
	var cur *AsmFunc
	sc := bufio.NewScanner(fh)
	line := 0
	for sc.Scan() {
		line++
		t := sc.Text()
		if i := strings.Index(t, "//"); i >= 0 {
			t = t[:i]
		}
		t = strings.TrimSpace(t)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if m := reText.FindStringSubmatch(t); m != nil {
			cur = &AsmFunc{Name: m[1], File: filepath.Base(path), Line: line, Reads: map[string]bool{}, Writes: map[string]bool{}, Frame: map[string]int{}, ISA: map[string]bool{}}
			res[pkg+"."+m[1]] = cur
			continue
		}
		if strings.HasPrefix(t, "DATA") || strings.HasPrefix(t, "GLOBL") {
			cur = nil
			continue
		}
		if cur == nil {
			continue
		}
		for _, part := range strings.Split(t, ";") {
			part = strings.TrimSpace(part)
			if part == "" {
				continue
			}
			if strings.HasSuffix(part, ":") {
				cur.Insts = append(cur.Insts, asmInst{Line: line, Label: strings.TrimSuffix(part, ":")})
				continue
			}
			fs := strings.SplitN(part, " ", 2)
			if i := strings.IndexAny(part, " \t"); i >= 0 {
				fs = []string{part[:i], part[i+1:]}
			}
			in := asmInst{Line: line, Op: fs[0]}
			if len(fs) > 1 {
				in.Args = splitArgs(fs[1])
			}
			cur.Insts = append(cur.Insts, in)
		}
	}
	for _, f := range res {
		if len(f.Reads)+len(f.Writes) == 0 {
			f.analyse()
		}
	}
	return sc.Err()
}

// analyse tracks which argument each register points into (flow-insensitively
// accumulated: a register may point into several arguments over its life, so
// registers are tracked in program order, which is how the generated routines
// use them; a join at a label keeps the union).
func (f *AsmFunc) analyse() {
	ptrReg := map[string]bool{}
	for _, in := range f.Insts {
		for _, a := range in.Args {
			if m := reMem.FindStringSubmatch(a); m != nil {
				ptrReg[m[2]] = true
			}
		}
	}
	cur := map[string]string{} // register -> argument base name
	for round := 0; round < 2; round++ {
		f.Order = true
		stored := map[string]bool{}
		for _, in := range f.Insts {
			if in.Label != "" {
				stored = map[string]bool{}
				continue
			}
			f.isaOf(in)
			n := len(in.Args)
			for i, a := range in.Args {
				m := reMem.FindStringSubmatch(a)
				if m == nil || m[2] == "SB" || m[2] == "FP" || m[2] == "SP" {
					continue
				}
				base := cur[m[2]]
				if base == "" {
					if in.Op == "LEAQ" {
						continue
					}
					if round == 1 {
						f.Unknown = append(f.Unknown, fmt.Sprintf("%s:%d %s", f.File, in.Line, a))
					}
					continue
				}
				isDest := i == n-1 && n > 1 && writesDest(in.Op)
				key := m[1] + "(" + m[3] + "*" + m[4] + ")"
				if isDest {
					f.Writes[base] = true
					stored[key] = true
				} else if in.Op == "MOVQ" && ptrReg[in.Args[n-1]] {
					// loads a slice header of a slice of slices
				} else if in.Op != "LEAQ" {
					f.Reads[base] = true
					if stored[key] {
						f.Order = false
					}
				}
			}
			// register definitions
			if n >= 2 && writesDest(in.Op) {
				dst := in.Args[n-1]
				if isReg(dst) && !strings.HasPrefix(dst, "Y") && !strings.HasPrefix(dst, "X") {
					src := in.Args[0]
					switch {
					case in.Op == "MOVQ" && reArg.MatchString(src):
						m := reArg.FindStringSubmatch(src)
						if m[2] == "_base" {
							cur[dst] = m[1]
						} else {
							delete(cur, dst)
						}
					case in.Op == "MOVQ" || in.Op == "LEAQ":
						if m := reMem.FindStringSubmatch(src); m != nil && cur[m[2]] != "" {
							cur[dst] = cur[m[2]]
						} else if cur[src] != "" {
							cur[dst] = cur[src]
						} else {
							delete(cur, dst)
						}
					case in.Op == "ADDQ" || in.Op == "SUBQ":
						// pointer arithmetic keeps the base
					default:
						delete(cur, dst)
					}
				}
			}
			for _, a := range in.Args {
				if m := reArg.FindStringSubmatch(a); m != nil {
					off := 0
					fmt.Sscanf(m[3], "%d", &off)
					f.Frame[m[1]+m[2]] = off
				}
			}
		}
	}
}

func isReg(s string) bool {
	return regexp.MustCompile(`^[A-Z]+[0-9]*$`).MatchString(s)
}

func writesDest(op string) bool {
	switch op {
	case "CMPQ", "CMPL", "TESTQ", "TESTL", "JMP", "JL", "JGE", "JLE", "JG", "JE", "JNE", "RET", "COMISD", "UCOMISD", "VUCOMISD", "VCOMISD", "BTQ":
		return false
	}
	return true
}

// isaOf records the CPU feature an instruction needs.
func (f *AsmFunc) isaOf(in asmInst) {
	op := in.Op
	if !strings.HasPrefix(op, "V") {
		switch op {
		case "MULXQ", "BLSRQ", "SHLXQ", "SHRXQ", "ANDNQ", "PEXTQ", "PDEPQ", "SARXQ", "RORXQ", "BEXTRQ", "BZHIQ":
			f.ISA["BMI2"] = true
		case "POPCNTQ", "POPCNTL":
			f.ISA["POPCNT"] = true
		case "ROUNDSD", "ROUNDPD", "PEXTRQ", "PINSRQ", "PMULLD", "PBLENDW", "BLENDVPD":
			f.ISA["SSE41"] = true
		}
		return
	}
	z := false
	y := false
	for _, a := range in.Args {
		if strings.HasPrefix(a, "Z") || strings.HasPrefix(a, "K") && isReg(a) {
			z = true
		}
		if strings.HasPrefix(a, "Y") {
			y = true
		}
	}
	switch {
	case z:
		f.ISA["AVX512"] = true
	case strings.HasPrefix(op, "VFMADD") || strings.HasPrefix(op, "VFMSUB") || strings.HasPrefix(op, "VFNMADD") || strings.HasPrefix(op, "VFNMSUB"):
		f.ISA["FMA"] = true
	case strings.HasPrefix(op, "VCVTPH2PS") || strings.HasPrefix(op, "VCVTPS2PH"):
		f.ISA["F16C"] = true
	case op == "VPERMQ" || op == "VPERMPD" || op == "VPERMD" || op == "VPERMPS" || op == "VPERM2I128" || op == "VINSERTI128" || op == "VEXTRACTI128" ||
		strings.HasPrefix(op, "VPBROADCAST") || strings.HasPrefix(op, "VPSLLV") || strings.HasPrefix(op, "VPSRLV") || strings.HasPrefix(op, "VPSRAV") ||
		strings.HasPrefix(op, "VPGATHER") || strings.HasPrefix(op, "VGATHER") || strings.HasPrefix(op, "VPMASKMOV") || op == "VPBLENDD" || op == "VBROADCASTI128":
		f.ISA["AVX2"] = true
	case y && strings.HasPrefix(op, "VP") && op != "VPTEST" && op != "VPERMILPD" && op != "VPERMILPS" && op != "VPERM2F128":
		f.ISA["AVX2"] = true
	default:
		f.ISA["AVX"] = true
	}
}

// asmSummary fills the effect summary of an assembly routine.
func (a *Analysis) asmSummary(fn *ssa.Function, s *Summary) {
	pk := shortPkg(fn.Pkg.Pkg)
	af := a.asm[pk+"."+fn.Name()]
	if af == nil {
		s.Dyn = append(s.Dyn, "no body for "+fnName(fn))
		return
	}
	var ws, rs []Path
	for i, prm := range fn.Params {
		name := prm.Name()
		t := prm.Type()
		if elemType(t) == nil {
			continue
		}
		p := Path{root: paramRoot(i)}.all()
		if et := elemType(t); elemType(et) != nil {
			p = Path{root: paramRoot(i), steps: []Step{{kind: 'r', lo: linConst(0)}, {kind: 'f', field: "*"}, {kind: 'r', lo: linConst(0)}}}
		}
		if af.Reads[name] {
			s.Reads[p.key()] = Acc{path: p, fn: fn, pos: fn.Pos()}
			if !af.Writes[name] || true {
				s.Exposed[p.key()] = Acc{path: p, fn: fn, pos: fn.Pos()}
			}
			rs = append(rs, p)
		}
		if af.Writes[name] {
			s.Writes[p.key()] = Acc{path: p, fn: fn, pos: fn.Pos()}
			s.MustW.add(p)
			ws = append(ws, p)
		}
	}
	if !af.Order {
		for _, w := range ws {
			for _, r := range rs {
				if w.root != r.root {
					wp, rp := Path{root: w.root}, Path{root: r.root}
					s.Haz[wp.key()+"|"+rp.key()] = Haz{wp, rp, Acc{path: w, fn: fn, pos: fn.Pos()}, Acc{path: r, fn: fn, pos: fn.Pos()}}
				}
			}
		}
	}
}

func constVal(c *types.Const) (int64, bool) {
	if c.Val().Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(c.Val())
}

package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// checkFns maps the id of a property to the function that applies its rules.
var checkFns = map[string]func(c *Check){}

func repoDir() string {
	if dir := os.Getenv("GEV_REPO"); dir != "" {
		return dir
	}
	return "/repo"
}

func verifDir() string {
	if dir := os.Getenv("GEV_VERIF"); dir != "" {
		return dir
	}
	return "/verif"
}

func main() {
	if len(os.Args) > 2 && os.Args[1] == "dump" {
		dumpCmd()
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "list" {
		for id := range checkFns {
			fmt.Println(id)
		}
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "check" {
		ids := os.Args[2:]
		if ids[0] == "all" {
			ids = nil
			for id := range checkFns {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		rc := 0
		p, err := loadProgram(repoDir())
		for _, id := range ids {
			if r := runCheck(id, p, err); r != 0 {
				rc = r
			}
		}
		os.Exit(rc)
	}
	fmt.Println("usage: gevcheck check <property>... | gevcheck dump <package> <receiver|-> <function>")
	os.Exit(1)
}

func runCheck(id string, p *Program, loadErr error) (rc int) {
	c := newCheck(id)
	verif := verifDir()
	done := make(chan struct{})
	go func() {
		t0 := time.Now()
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Second):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if time.Since(t0) > 600*time.Second || ms.HeapAlloc > 10<<30 {
				fmt.Printf("%s: undecided: the analysis does not finish within its time and memory\nVIOLATION property=%s replay=%s\n", id, id, "none")
				os.Exit(1)
			}
		}
	}()
	defer close(done)
	if loadErr != nil {
		c.p = nil
		c.viols = append(c.viols, &Viol{Rule: "undecided", Construct: "load", Pos: "-", Msg: loadErr.Error()})
		return c.finish(verif)
	}
	c.p = p
	fn := checkFns[id]
	if fn == nil {
		fmt.Println("no such check:", id)
		return 1
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 30 {
					st = st[:30]
				}
				c.viols = append(c.viols, &Viol{Rule: "undecided", Construct: "internal error", Pos: "-", Msg: fmt.Sprint(x), Trace: st})
			}
		}()
		delete(pf, p)
		c.p.facts(c.n)
		fn(c)
	}()
	if c.tier == "thorough" {
		c.platforms(fn)
	}
	return c.finish(verif)
}

// platforms applies the rules to the program as it is built for other platforms as well: files with build
// constraints. 64-bit platforms only: lengths on 32-bit ones need facts about the address space.
func (c *Check) platforms(fn func(c *Check)) {
	for _, pl := range []string{"linux/arm64", "darwin/arm64", "freebsd/amd64"} {
		i := strings.Index(pl, "/")
		p, err := loadFor(c.p.Dir, []string{"GOOS=" + pl[:i], "GOARCH=" + pl[i+1:], "CGO_ENABLED=0"})
		if err != nil {
			// what the repository is not built for is not judged
			c.notes = append(c.notes, "not loaded for "+pl+": "+err.Error())
			continue
		}
		d := newCheck(c.id)
		d.p = p
		func() {
			defer func() {
				if x := recover(); x != nil {
					d.viols = append(d.viols, &Viol{Rule: "undecided", Construct: "internal error", Pos: "-", Msg: fmt.Sprint(x)})
				}
			}()
			p.facts(d.n)
			fn(d)
		}()
		n := 0
		for _, m := range d.inst {
			n += len(m)
		}
		c.notes = append(c.notes, fmt.Sprintf("%s: %d files, %d functions, %d abstract states, %d rule instances, %d violations",
			pl, p.Files, len(p.Funcs), d.execNodes, n, len(d.viols)))
		c.execNodes += d.execNodes
		c.prodStates += d.prodStates
	viols:
		for _, v := range d.viols {
			for _, o := range c.viols {
				if o.Key() == v.Key() {
					continue viols
				}
			}
			v.Msg = "(" + pl + ") " + v.Msg
			c.viols = append(c.viols, v)
		}
	}
}

func dumpCmd() {
	p, err := loadProgram(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	n := newInterner()
	p.facts(n)
	o := Opts{}
	for _, a := range os.Args[5:] {
		if a == "-access" {
			o.Access = true
		}
		if a == "-oblig" {
			o.Oblig = true
		}
		if a == "-conn" {
			o.Prim = p.connPrim
		}
	}
	e := newExec(p, n, o)
	fn := p.fn(os.Args[2], strings.TrimPrefix(os.Args[3], "-"), os.Args[4])
	if fn == nil {
		fmt.Println("no such function")
		os.Exit(1)
	}
	for _, a := range os.Args[5:] {
		if a == "-threads" {
			c := newCheck("")
			c.p, c.n = p, n
			for _, t := range c.threads(fn, o) {
				fmt.Printf("==== %s\n", t.Name)
				t.Exec.dump()
			}
			return
		}
	}
	e.Run(fn)
	e.dump()
}

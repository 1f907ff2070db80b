package main

import (
	"fmt"
	"strings"
)

// describe renders an event for traces and reports.
func (e *Exec) describe(ev *Event) string {
	as := make([]string, len(ev.Args))
	for i, a := range ev.Args {
		as[i] = a.String()
	}
	args := strings.Join(as, ", ")
	pos := e.p.pos(ev.Pos())
	switch ev.Kind {
	case "branch":
		k := ""
		if ev.OK {
			k = " (known)"
		}
		return fmt.Sprintf("%s: branch %v = %v%s", pos, ev.Cond, ev.Truth, k)
	case "select":
		var cs []string
		for i, c := range ev.Cases {
			d := "recv " + c.Ch.String()
			if c.Send {
				d = "send " + c.Ch.String() + " <- " + c.Val.String()
			}
			if i == ev.Chosen {
				d = "*" + d
			}
			cs = append(cs, d)
		}
		if ev.Chosen < 0 && !ev.Block {
			cs = append(cs, "*default")
		}
		return fmt.Sprintf("%s: select %s", pos, strings.Join(cs, " | "))
	case "store":
		return fmt.Sprintf("%s: store %v = %v", pos, ev.Addr, ev.Val)
	case "load":
		return fmt.Sprintf("%s: load %v = %v", pos, ev.Addr, ev.Res)
	case "oblig":
		if ev.Cond != nil {
			return fmt.Sprintf("%s: oblig %s: %v ok=%v", pos, ev.What, ev.Cond, ev.OK)
		}
		return fmt.Sprintf("%s: oblig %s: %v ok=%v", pos, ev.What, ev.Val, ev.OK)
	case "iter":
		return fmt.Sprintf("%s: iter %v: %v -> %v", pos, ev.Res, ev.Addr, ev.Val)
	case "go":
		return fmt.Sprintf("%s: go[%s] %s(%s) fn=%v bind=%v", pos, ev.What, shortName(ev.Name), args, ev.Fn, ev.Bind)
	}
	d := ""
	if ev.Defer {
		d = " (deferred)"
	}
	res := ""
	if ev.Res != nil {
		res = " -> " + ev.Res.String()
	}
	return fmt.Sprintf("%s: %s%s %s(%s)%s", pos, ev.Kind, d, shortName(ev.Name), args, res)
}

func (e *Exec) dump() {
	for _, nd := range e.Nodes {
		for _, ed := range nd.out {
			to := "end"
			if ed.to != nil {
				to = fmt.Sprint(ed.to.id)
			}
			fmt.Printf("%d -> %s\n", nd.id, to)
			for _, ev := range ed.evs {
				fmt.Printf("    %s\n", e.describe(ev))
			}
		}
	}
	fmt.Printf("nodes %d, events %d, spawns %d\n", len(e.Nodes), e.events, len(e.Spawns))
	for _, s := range e.Spawns {
		fmt.Printf("spawn %s %v bind %v args %v\n", s.Kind, s.Fn, s.Bind, s.Args)
	}
	for _, m := range e.Errs {
		fmt.Println("UNDECIDED:", m)
	}
}

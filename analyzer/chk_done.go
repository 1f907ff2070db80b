package main

// Goroutines that report to whoever started them: instead of belonging to a wait group, each of them sends its result
// to a channel that has room for all of them, and the one who started them receives as many values.

// doneChans: the channels on which the goroutines of a session report that they are done, and how many do.
//
// Such a channel is made by Start with room for one value per goroutine, is never closed and received from in Start
// only; every goroutine that uses it sends to it exactly once, and neither waits for nor touches a peer afterwards.
func (s *sessModel) doneChans() map[*Term]int {
	if s.done != nil {
		return s.done
	}
	s.done = map[*Term]int{}
	room := map[*Term]int64{}
	s.root.Exec.eachEvent(func(ev *Event) {
		if ev.Kind == "makechan" && ev.Res != nil && !isMsgChan(ev.Res) {
			if n, ok := ev.Args[0].intVal(); ok {
				room[ev.Res] = n
			}
		}
	})
	for ch, n := range room {
		senders, ok := 0, true
		for _, t := range s.threads {
			if t == s.root {
				continue
			}
			f := s.flow(t)
			relays := len(f.src)+len(f.sink) > 0
			switch s.reports(t, ch) {
			case "once":
				senders++
				ok = ok && relays && t.From == s.root
			case "":
				// a goroutine of the relay that does not report is not awaited
				ok = ok && !relays
			default:
				ok = false
			}
		}
		s.root.Exec.eachEvent(func(ev *Event) {
			if chanUse(ev, ch) != "" && ev.Kind != "recv" {
				ok = false
			}
		})
		if ok && senders > 0 && int64(senders) <= n {
			s.done[ch] = senders
		}
	}
	return s.done
}

// chanUse: what the event does with the channel.
func chanUse(ev *Event, ch *Term) string {
	switch ev.Kind {
	case "send", "recv", "close":
		if ev.Args[0] == ch {
			return ev.Kind
		}
	case "select":
		for _, cs := range ev.Cases {
			if cs.Ch == ch {
				return "select"
			}
		}
	}
	return ""
}

// reports: whether the goroutine sends to the channel exactly once, when it is done ("once"), does not use it (""), or
// does anything else with it.
func (s *sessModel) reports(t *Thread, ch *Term) string {
	used, bad := false, false
	t.Exec.eachEvent(func(ev *Event) {
		switch chanUse(ev, ch) {
		case "":
		case "send":
			used = true
		default:
			used, bad = true, true
		}
	})
	if !used {
		return ""
	}
	s.c.product(t.Exec, nil, func(m *Mon, ev *Event) {
		sent := m.has("reported", nil)
		switch {
		case chanUse(ev, ch) == "send":
			bad = bad || sent
			m.set("reported", nil, nil)
		case ev.Kind == "return":
			bad = bad || !sent
		case sent:
			bad = bad || connOp(ev) != "" || ev.Kind == "close" || ev.Kind == "send" || ev.Kind == "recv" || ev.Kind == "select" || ev.Kind == "go" || waitKind(ev)
		}
	})
	if bad {
		return "otherwise"
	}
	return "once"
}

func waitKind(ev *Event) bool {
	return isWait(ev) || blockingCall(ev) != "" || ev.Kind == "call" && ev.Name == evFire
}

// reporting: the event only reports that its goroutine is done, which does not wait.
func (s *sessModel) reporting(ev *Event) bool {
	return ev.Kind == "send" && s.doneChans()[ev.Args[0]] > 0
}

// awaits: with the event, Start has waited for the goroutines of the session.
func (s *sessModel) awaits(m *Mon, ev *Event) bool {
	if isWait(ev) {
		return true
	}
	if ev.Kind != "recv" {
		return false
	}
	want := s.doneChans()[ev.Args[0]]
	if want == 0 {
		return false
	}
	got := int64(1)
	if x := m.get("reported", ev.Args[0]); x != nil {
		d, _ := x.intVal()
		got += d
	}
	if got < 40 {
		m.set("reported", ev.Args[0], m.e.n.int(got))
	}
	return got >= int64(want)
}

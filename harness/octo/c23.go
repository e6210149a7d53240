package main

import (
	"encoding/json"
	"fmt"
	"os"
	"time"

	"github.com/cloudflare/cfrpki/verifrt"
)

type zvLoopEnd struct{}

// VerifC23Loop drives validationLoop: in every round the set of repositories grows or not.
func VerifC23Loop() {
	rounds := verifrt.Param("rounds", 5)
	verifrt.FSVirtual()
	verifrt.ExitIsBug()
	*MaxConcurrentRetrievals = 1
	*RRDP = false
	*Sign = false
	*Refresh = 0
	*ValidityDuration = time.Hour
	*Output = verifrt.FSRoot() + "/output.json"
	*WaitStable = verifrt.Bool("wait")
	*MaxIterations = verifrt.Int("max", 0, rounds)
	oneoff := verifrt.Bool("oneoff")
	*Mode = "server"
	if oneoff {
		*Mode = "oneoff"
	}
	if err := os.MkdirAll(verifrt.FSRoot(), 0777); err != nil {
		panic(err)
	}

	s := zvNewOcto()
	t := s.tracer.(*zvTracer)
	round, since := 0, 0
	wantStable, everStable := false, false // what the round under way should end with
	sawStable := false
	var list []byte // the list of the round under way, once computed

	closeRound := func() {
		if round == 0 {
			return
		}
		if wantStable {
			verifrt.Reach("stable")
			verifrt.Assert(sawStable, "a stable state is not reported")
			since = 0
		} else {
			verifrt.Reach("unstable")
			verifrt.Assert(!sawStable, "a stable state is reported although new repositories were found")
		}
		everStable = everStable || wantStable
		out, err := os.ReadFile(*Output)
		written := oneoff && (wantStable || !*WaitStable)
		if written {
			verifrt.Assert(err == nil, "one-off mode did not write the result")
			verifrt.Assert(string(out) == string(list), "one-off mode did not write the current list")
		} else if !oneoff {
			verifrt.Assert(err != nil, "server mode wrote the result file")
		} else {
			verifrt.Assert(err != nil, "one-off mode wrote the result before a stable state")
		}
		verifrt.Assert(!(oneoff && wantStable && round > 0 && since > 0), "one-off mode went on after a stable state")
	}
	event := func() {
		if s.Stable.Load() {
			sawStable = true
		}
		// pages, as a client would see them now
		for page := 0; page < 2; page++ {
			r := zvNewRecorder()
			if page == 0 {
				s.ServeROAs(r, zvRequest(""))
			} else {
				s.ServeHealth(r, zvRequest(""))
			}
			st := r.status()
			if everStable || page == 0 && !*WaitStable {
				verifrt.Assert(st == 200, "page unavailable after a stable state")
			} else if !sawStable {
				verifrt.Assert(st == 503, "page served before any stable state")
			}
		}
	}
	t.event = event
	ended := false
	t.on = func(op string) {
		switch op {
		case "operation":
			if ended {
				return
			}
			closeRound()
			verifrt.Assert(!(oneoff && wantStable), "one-off mode went on after a stable state")
			if round == rounds {
				ended = true
				panic(zvLoopEnd{})
			}
			round++
			since++
			sawStable = false
			verifrt.SetNow(zvBaseTime.Unix() + int64(round))
			fresh := verifrt.Bool("fresh")
			list, _ = json.Marshal(zvListAt(round))
			wantStable = !fresh && round > 1 || since > *MaxIterations
			if fresh {
				verifrt.Reach("fresh")
				s.CurrentRepos[fmt.Sprintf("rsync://h/m%d", round)] = zvBaseTime
			} else if round > 1 && verifrt.Bool("again") {
				s.CurrentRepos["rsync://h/m1"] = zvBaseTime.Add(time.Hour)
				if _, ok := s.PrevRepos["rsync://h/m1"]; !ok {
					wantStable = since > *MaxIterations
				}
			}
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(zvLoopEnd); !ok {
					panic(r)
				}
			}
		}()
		s.validationLoop()
		verifrt.Assert(oneoff, "the loop ended in server mode")
		verifrt.Assert(wantStable, "one-off mode ended before a stable state")
		event()
		closeRound()
		verifrt.Reach("finished")
	}()
}

func zvListAt(round int) interface{} {
	l := newROAList()
	now := zvBaseTime.Unix() + int64(round)
	l.Metadata.Generated = int(now)
	l.Metadata.Valid = int(now + 3600)
	return l
}

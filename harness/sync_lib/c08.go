package syncpki

import (
	"errors"

	"github.com/cloudflare/cfrpki/verifrt"
)

// rrdpSource serves RRDP documents and fails at one step.
type zvRrdpSource struct {
	docs   map[string]string
	step   int
	failAt int
	fetch  []string
}

func (r *zvRrdpSource) fails() bool {
	r.step++
	return r.step == r.failAt
}

func (r *zvRrdpSource) GetXML(u string) (string, error) {
	r.fetch = append(r.fetch, u)
	d, ok := r.docs[u]
	if !ok {
		return "", errors.New("no such document")
	}
	if r.fails() {
		switch verifrt.Int("fault", 0, 4) {
		case 1: // cut short
			r.failAt = 0
			return d[:len(d)-12], nil
		case 2: // something else altogether
			r.failAt = 0
			return "Service unavailable", nil
		case 3: // another document type
			r.failAt = 0
			return "<html><body>Service unavailable</body></html>", nil
		case 4:
			r.failAt = 0
			return d + "<", nil
		}
		return "", errors.New("fetch failed")
	}
	return d, nil
}

const zvRrdpHead = ` xmlns="http://www.ripe.net/rpki/rrdp" version="1" session_id="`

func zvSerialString(name string) (string, int64) {
	max := verifrt.Param("digits", 2)
	n := verifrt.Int(name+".digits", 1, max+1)
	if n > max {
		return "9223372036854775807", 9223372036854775807
	}
	b := verifrt.Bytes(name, n)
	v := int64(0)
	for _, c := range b {
		verifrt.Assume(verifrt.And(c >= '0', c <= '9'))
		v = v*10 + int64(c-'0')
	}
	return string(b), v
}

type zvRrdpApplied struct {
	uri      string
	data     string
	withdraw bool
}

// VerifC08 runs one synchronisation from every stored state against every notification, with one failing step or none.
func VerifC08() {
	nd := verifrt.Param("deltas", 2)
	src := &zvRrdpSource{docs: map[string]string{}}
	steps := verifrt.Param("steps", 8)
	faults := verifrt.Param("faults", 0) == 1
	if faults {
		src.failAt = verifrt.Int("failAt", 0, steps)
	}
	failing := src.failAt

	lastSession := "A"
	if verifrt.Bool("otherSession") {
		lastSession = "B"
	}
	last := verifrt.I64("last")
	verifrt.Assume(last >= 0)
	curS, cur := "7", int64(7)
	if !faults {
		curS, cur = zvSerialString("cur")
	}
	doc := `<notification` + zvRrdpHead + `A" serial="` + curS + `"><snapshot uri="snap" hash="00"/>`
	uris := []string{"d0", "d1", "d2", "d3"}
	vals := []string{"e", "d", "f", "g"}
	var ds []int64
	n := nd
	reverse := false
	if !faults {
		n = verifrt.Int("deltas", 0, nd)
	} else {
		reverse = verifrt.Bool("reverse")
	}
	for i := 0; i < n; i++ {
		v := int64(7 - i)
		if reverse {
			v = int64(7 - nd + 1 + i)
		}
		s := string(rune('0' + v))
		if !faults {
			s, v = zvSerialString("delta")
		}
		doc += `<delta serial="` + s + `" uri="` + uris[i] + `" hash="00"/>`
		for _, o := range ds {
			verifrt.Assume(o != v)
		}
		ds = append(ds, v)
		badData := faults && verifrt.Bool("bad64") // not base64
		val := []string{"ZQ==", "ZA==", "Zg==", "Zw=="}[i]
		if badData {
			val = "Z!=="
		}
		src.docs[uris[i]] = `<delta` + zvRrdpHead + `A" serial="` + s + `"><publish uri="rsync://h/m/p` + uris[i] + `">` + val + "\n" + `</publish><withdraw uri="rsync://h/m/w` + uris[i] + `" hash="00"/></delta>`
		if badData {
			verifrt.Assume(failing == 0)
			failing = -1 - i
		}
	}
	src.docs["root"] = doc + `</notification>`
	src.docs["snap"] = `<snapshot` + zvRrdpHead + `A" serial="` + curS + `"><publish uri="rsync://h/m/a">ZQ==</publish><publish uri="rsync://h/m/b">ZA ==</publish><withdraw uri="rsync://h/m/w" hash="00"/></snapshot>`
	if faults && verifrt.Bool("bad64") {
		verifrt.Assume(failing == 0)
		failing = -100
		src.docs["snap"] = `<snapshot` + zvRrdpHead + `A" serial="` + curS + `"><publish uri="rsync://h/m/a">ZQ==</publish><publish uri="rsync://h/m/b">ZA=</publish></snapshot>`
	}

	var applied []zvRrdpApplied
	sys := &RRDPSystem{Fetcher: src, Path: "root", SessionID: lastSession, Serial: last}
	sys.Callback = func(main string, url string, path string, data []byte, withdraw bool, snapshot bool, id int64, args ...interface{}) error {
		if src.fails() {
			return errors.New("storage failed")
		}
		verifrt.Assert(len(args) == 1 && args[0] == "rsync://h/", "the bound host is not passed on")
		applied = append(applied, zvRrdpApplied{path, string(data), withdraw})
		return nil
	}
	err := sys.FetchRRDP("rsync://h/")

	usedSnap := false
	var used []int
	for _, f := range src.fetch[1:] {
		if f == "snap" {
			usedSnap = true
			continue
		}
		for i := 0; i < n; i++ {
			if f == uris[i] {
				used = append(used, i)
			}
		}
	}
	verifrt.Assert(src.fetch[0] == "root", "the notification is not fetched first")
	verifrt.Assert(!(usedSnap && len(used) > 0), "snapshot and deltas are mixed")

	// did the failing step happen?
	failed := failing > 0 && src.step >= failing
	if failing == -100 {
		failed = usedSnap
	} else if failing < 0 {
		for _, i := range used {
			if i == -1-failing {
				failed = true
			}
		}
	}
	if failed {
		verifrt.Reach("failed")
		verifrt.Assert(err != nil, "a failing step is not reported")
		verifrt.Assert(sys.SessionID == lastSession && sys.Serial == last, "the state advanced although a step failed")
		return
	}
	verifrt.Assert(err == nil, "a complete synchronisation is reported as failed")
	verifrt.Assert(sys.SessionID == "A" && sys.Serial == cur, "the stored state is not that of the notification")
	if usedSnap {
		verifrt.Reach("snapshot")
		verifrt.Assert(len(applied) == 3 && applied[0] == zvRrdpApplied{"rsync://h/m/a", "e", false} && applied[1] == zvRrdpApplied{"rsync://h/m/b", "d", false} && applied[2] == zvRrdpApplied{"rsync://h/m/w", "", true}, "the objects of the snapshot are not all applied")
		return
	}
	// deltas: same session, every serial from the stored one up to the new one
	verifrt.Assert(lastSession == "A" && last != 0 && cur >= last, "deltas used although the state does not allow it")
	verifrt.Assert(cur-last == int64(len(used)), "a delta is missing or applied twice")
	k := 0
	for j, i := range used {
		verifrt.Assert(ds[i] == last+1+int64(j), "deltas applied out of order")
		verifrt.Assert(len(applied) >= k+2, "a change of a delta is not applied")
		verifrt.Assert(applied[k] == zvRrdpApplied{"rsync://h/m/p" + uris[i], vals[i], false}, "a published object of a delta is not applied")
		verifrt.Assert(applied[k+1] == zvRrdpApplied{"rsync://h/m/w" + uris[i], "", true}, "a withdrawn object of a delta is not applied")
		k += 2
	}
	verifrt.Assert(len(applied) == k, "more changes than the deltas hold")
	if len(used) > 1 {
		verifrt.Reach("deltas")
	} else {
		verifrt.Reach("few deltas")
	}
}

package harness

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"testing"
	"time"
)

func setRapidFlags(checks int, seed uint64) {
	flag.Set("rapid.checks", strconv.Itoa(checks))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "40s")
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

// TestVerif runs one shard of the parts of one property, or replays a case. It is
// controlled by environment variables set by run.py; the verdict is in the result file.
func TestVerif(t *testing.T) {
	prop := os.Getenv("VH_PROP")
	out := os.Getenv("VH_OUT")
	if prop == "" || out == "" {
		t.Skip("run through run.py")
	}
	setRapid = setRapidFlags
	theT = t
	log.SetOutput(io.Discard)
	debug.SetMaxStack(256 << 20)
	deadline := time.Now().Add(time.Duration(envInt("VH_DEADLINE", 300)) * time.Second)
	s, err := newShard(out, deadline)
	if err != nil {
		t.Fatal(err)
	}
	scratch = filepath.Join(out, "files")
	os.MkdirAll(scratch, 0755)
	finish := func(v *Violation, e error) {
		s.res.Violation = v
		s.res.Done = true
		if e != nil {
			s.res.Error = e.Error()
		}
		s.write()
	}
	go watchdog(func(v *Violation) {
		finish(v, nil)
		os.Exit(0)
	})

	if rp := os.Getenv("VH_REPLAY"); rp != "" {
		b, err := os.ReadFile(rp)
		if err != nil {
			t.Fatal(err)
		}
		v := &Violation{}
		if err := json.Unmarshal(b, v); err != nil {
			t.Fatal(err)
		}
		for _, p := range parts {
			if p.Prop != v.Property || p.Name != v.Part {
				continue
			}
			if p.Race != raceBuild {
				t.Fatal("wrong build for this part")
			}
			c, err := p.dec(v.Case)
			if err != nil {
				t.Fatal(err)
			}
			n := 1
			if p.Stress {
				n = 200
			}
			s.noteCurrent(p, v.Case)
			for i := 0; i < n; i++ {
				if err := safeRun(p, &R{replay: true}, c); err != nil && err != errDiscard {
					finish(&Violation{p.Prop, p.Name, kindOf(err), err.Error(), v.Case}, nil)
					return
				}
			}
			finish(nil, nil)
			return
		}
		t.Fatalf("no part %s/%s", v.Property, v.Part)
	}

	shardNo := int(envInt("VH_SHARD", 0))
	nshards := int(envInt("VH_NSHARDS", 1))
	seed := envInt("VERIF_SEED", 1)
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	only := os.Getenv("VH_PART")
	n := 0
	for _, p := range parts {
		if p.Prop != prop || p.Race != raceBuild || (only != "" && only != p.Name) {
			continue
		}
		n++
		checks := p.Quick
		if thorough {
			checks = p.Thorough
		}
		checks = int(float64(checks) * float64(envInt("VH_SCALE", 100)) / 100)
		checks = (checks + nshards - 1) / nshards
		v, err := s.runPart(p, checks, seedFor(seed, p.Prop, p.Name, shardNo))
		if v != nil || err != nil {
			finish(v, err)
			return
		}
	}
	if n == 0 {
		finish(nil, fmt.Errorf("no parts for %s in this build", prop))
		return
	}
	finish(nil, nil)
}

// TestList prints the registered parts as JSON.
func TestList(t *testing.T) {
	if os.Getenv("VH_LIST") == "" {
		t.Skip()
	}
	for _, p := range parts {
		b, _ := json.Marshal(p)
		fmt.Printf("PART %s\n", b)
	}
}

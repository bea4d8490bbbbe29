package harness

import (
	"io"
	"log"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard) // the library's default logger writes through package log
	os.Exit(m.Run())
}

func TestCheck(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	f := checks[id]
	if f == nil {
		t.Fatalf("no check for %q", id)
	}
	r := newR(t, id)
	f(r)
	r.finish()
	for _, v := range r.violations {
		t.Logf("violation [%s] %s", v.Key, v.What)
	}
	if os.Getenv("VERIF_OUT") == "" {
		t.Logf("evaluations=%d distinct=%d counters=%v notes=%v", r.evaluations, len(r.distinct), r.counters, r.notes)
		for i, v := range r.violations {
			if i < 3 {
				t.Logf("detail %v", v.Detail)
			}
		}
		if len(r.violations) > 0 {
			t.Fail()
		}
	}
}

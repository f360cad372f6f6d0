// Package col runs histories in bubbles with a clock of their own.
package col

import (
	"os"
	"testing"
	"testing/synctest"

	"verif/rec"
	"verif/run"
)

func TestHistories(t *testing.T) {
	rec.Bubble = func(f func()) { synctest.Test(t, func(*testing.T) { f() }) }
	rec.Wait = synctest.Wait
	run.Main()
}

func TestMain(m *testing.M) {
	os.Exit(m.Run())
}

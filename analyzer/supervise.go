package main

import (
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"time"
)

// answerWithin bounds one check: an analysis that does not end has decided
// nothing, which is a failed check, never a passed one.
const answerWithin = 840 * time.Second

// superviseMain runs the check in a process of its own, so that a check that
// crashes (stack or memory exhausted) or does not end in time still answers.
func superviseMain(id, root, repo string) int {
	self, err := os.Executable()
	if err != nil {
		return checkMain(id, root, repo)
	}
	ctx, cancel := context.WithTimeout(context.Background(), answerWithin)
	defer cancel()
	cmd := exec.CommandContext(ctx, self, "check1", id, root, repo)
	cmd.Stdin, cmd.Stdout = nil, os.Stdout
	ev := filepath.Join("evidence", id+".violations.txt")
	log, _ := os.CreateTemp("", "texted-verif")
	if log != nil {
		defer os.Remove(log.Name())
		defer log.Close()
		cmd.Stderr = log
	}
	err = cmd.Run()
	if code := cmd.ProcessState.ExitCode(); err == nil || code == 1 {
		return code
	}
	why := err.Error()
	if ctx.Err() != nil {
		why = fmt.Sprintf("not decided within %v", answerWithin)
	}
	if log != nil {
		b, _ := os.ReadFile(log.Name())
		if len(b) > 4000 {
			b = b[:4000]
		}
		why += "\n" + string(b)
	}
	r := newReport(id)
	r.fail("analysed", "analysis", "the analysis did not finish: %s", why)
	writeEvidence(root, id, tierName(), 0, checks[id], r, r.failures(), nil, answerWithin)
	os.WriteFile(filepath.Join(root, ev), []byte("the analysis did not finish: "+why+"\n"), 0o644)
	fmt.Printf("the analysis did not finish: %s\n", short(why, 600))
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, ev)
	return 1
}

func tierName() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

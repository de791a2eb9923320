package main

import (
	"bytes"
	"encoding/json"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// phase is one harness binary of a check.
type phase struct {
	name string
	// dir is the directory in /verif/harness; its files go to pkg (relative to the module root)
	dir string
	// pkg the harness is compiled in; "" for its own package zz_verif/<dir>
	pkg string
	// extra files: harness directory -> package directory
	extra map[string]string
	// instrument are rewriting rules, see instrument.go
	instrument []rewrite
	race       bool

	softQuick, softThorough int
}

type spec struct {
	phases      []phase
	level       string
	rule        string
	bounds      string
	assumptions []string
	technique   string
	note        string
}

func addDir(repl map[string]string, from, to string) {
	ents, err := os.ReadDir(from)
	if err != nil {
		fatal("%s", err)
	}
	for _, e := range ents {
		if e.IsDir() || !strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), ".s") {
			continue
		}
		repl[filepath.Join(to, e.Name())] = filepath.Join(from, e.Name())
	}
}

func buildPhase(ph phase, dir string) string {
	repl := map[string]string{}
	h := filepath.Join(verifDir, "harness")
	for _, lib := range []string{"vlib", "vsched", "vsync", "vdelay", "vmap", "vnet", "vsignal", "ref", "kvm", "txm", "chainm", "vdisk", "nodew"} {
		if _, err := os.Stat(filepath.Join(h, lib)); err == nil {
			addDir(repl, filepath.Join(h, lib), filepath.Join(repo, "zz_verif", lib))
		}
	}
	pkg := ph.pkg
	if pkg == "" {
		pkg = filepath.Join("zz_verif", ph.dir)
	}
	addDir(repl, filepath.Join(h, ph.dir), filepath.Join(repo, pkg))
	for from, to := range ph.extra {
		addDir(repl, filepath.Join(h, from), filepath.Join(repo, to))
	}
	if ph.pkg != "" {
		// In-package harness: the package's own tests are left out.
		ents, _ := os.ReadDir(filepath.Join(repo, ph.pkg))
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), "_test.go") && !strings.HasPrefix(e.Name(), "zz_verif") {
				repl[filepath.Join(repo, ph.pkg, e.Name())] = ""
			}
		}
	}
	if len(ph.instrument) > 0 {
		instrument(ph.instrument, filepath.Join(dir, "src"), repl)
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	ovPath := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovPath, ov, 0644); err != nil {
		fatal("%s", err)
	}
	bin := filepath.Join(dir, "harness.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovPath, "-o", bin}
	if ph.race {
		args = append(args, "-race")
	}
	args = append(args, "./"+pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Run(); err != nil {
		fatal("harness %s does not build: %s\n%s", ph.name, err, clip(buf.String(), 8000))
	}
	return bin
}

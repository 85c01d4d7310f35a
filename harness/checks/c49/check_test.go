// C49: the tidy and update tools run once in every directory of the tree.
package c49

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"verifharness/vk"
)

var tools = map[string][]string{"autotidy": {"mod", "tidy"}, "autoupdate": {"get", "-u"}}

// entry is one thing in a generated tree. Paths are relative to the start.
type entry struct {
	Path string
	Kind string // dir, file, link, fifo
	To   string `json:",omitempty"`
	Mode os.FileMode
}

func build(root string, es []entry) error {
	for _, e := range es {
		p := filepath.Join(root, e.Path)
		var err error
		switch e.Kind {
		case "dir":
			err = os.Mkdir(p, 0o755)
		case "file":
			err = os.WriteFile(p, []byte("module x\n"), 0o644)
		case "link":
			err = os.Symlink(e.To, p)
		case "fifo":
			err = syscall.Mkfifo(p, 0o644)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func skipped(name string) bool { return name == "vendor" || name == ".git" }

// expected lists the directories that have to be visited, absolute.
func expected(root string, es []entry) map[string]int {
	want := map[string]int{root: 1}
	closed := map[string]bool{} // nothing below can be reached
	for _, e := range es {
		if e.Kind != "dir" {
			continue
		}
		bad := false
		for p := e.Path; p != "."; p = filepath.Dir(p) {
			if skipped(filepath.Base(p)) || p != e.Path && closed[p] {
				bad = true
			}
		}
		switch e.Mode {
		case none, 0o444: // cannot be entered, nor anything below
			closed[e.Path] = true
			bad = true
		case 0o111: // can be entered, not listed
			closed[e.Path] = true
		}
		if !bad {
			want[filepath.Join(root, e.Path)] = 1
		}
	}
	return want
}

var nameList = []string{"a", "b", "cmd", "internal", "pkg", "vendor", ".git", "vendors", "vendor2", "avendor", "Vendor", "VENDOR", ".github", ".gitx", "git", "a.git", ".hidden", "_x",
	"testdata", "node_modules", "with space", "-dash", "--help", "...", "..a", "한글", "new\nline", "quo'te", "do\"uble", "star*", "$(x)", "back\\slash", "semi;colon", "tab\t", "\xff\xfe", "go", "go.mod",
	"tidy", "z", "zz", "vendor ", " vendor", ".git ", "0", "~", "%s", "C:", strings.Repeat("l", 200)}

func tree(r *rand.Rand, shape string, size int) []entry {
	dirs := []string{"."}
	used := map[string]bool{}
	var out []entry
	add := func(parent, name, kind, to string) string {
		p := filepath.Join(parent, name)
		if used[p] || len(p) > 3500 {
			return ""
		}
		used[p] = true
		out = append(out, entry{Path: p, Kind: kind, To: to})
		return p
	}
	for len(out) < size {
		parent := dirs[r.IntN(len(dirs))]
		switch shape {
		case "deep":
			if r.IntN(8) > 0 {
				parent = dirs[len(dirs)-1]
			}
		case "wide":
			if r.IntN(8) > 0 {
				parent = "."
			}
		}
		name := nameList[r.IntN(len(nameList))]
		if shape == "deep" && r.IntN(4) > 0 {
			name = []string{"d", "e", "f"}[r.IntN(3)]
		}
		if shape == "wide" && r.IntN(2) > 0 {
			name = fmt.Sprintf("w%03d", r.IntN(1000))
		}
		k := r.IntN(20)
		switch {
		case k < 13:
			if p := add(parent, name, "dir", ""); p != "" && (shape != "deep" || !skipped(name) || r.IntN(6) == 0) {
				dirs = append(dirs, p)
			}
		case k < 16:
			add(parent, name, "file", "")
			if r.IntN(3) == 0 {
				add(parent, "go.mod", "file", "")
			}
		case k < 19:
			to := []string{".", "..", "/nonexistent/x", "nowhere", "../..", "go.mod"}[r.IntN(6)]
			if r.IntN(3) > 0 {
				// to a directory of the tree
				if rel, err := filepath.Rel(parent, dirs[r.IntN(len(dirs))]); err == nil {
					to = rel
				}
			}
			add(parent, name, "link", to)
		default:
			add(parent, name, "fifo", "")
		}
	}
	return out
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one directory of a generated tree in one run of a tool: visited or required not to be; distinct by tool, tree, failure pattern and directory.", func(c *vk.C) {
		scratch := os.Getenv("VK_SCRATCH")
		os.Chmod(filepath.Dir(scratch), 0o711)
		os.Chmod(scratch, 0o711)
		bin := filepath.Join(scratch, "bin")
		path := filepath.Join(scratch, "path")
		for _, d := range []string{bin, path} {
			if err := os.Mkdir(d, 0o755); err != nil {
				panic(err)
			}
		}
		mod := "-modfile=" + filepath.Join(os.Getenv("VK_WORK"), "go.mod")
		for name := range tools {
			compile(mod, filepath.Join(bin, name), "github.com/unsafe-risk/utilx/cmd/"+name)
		}
		compile(mod, filepath.Join(path, "go"), "verifharness/cmd/fakego")

		type job struct {
			shape, fail string
			es          []entry
			opt         string
		}
		var jobs []job
		r := c.Rand("trees")
		fails := []string{"none", "all", "some", "root", "deep", "kill", "noisy"}
		for i := 0; i < c.N(56, 600); i++ {
			shape := []string{"mixed", "deep", "wide", "mixed"}[i%4]
			size := 5 + r.IntN(60)
			opt := []string{"", "", "", "linked", "dot"}[r.IntN(5)]
			jobs = append(jobs, job{shape, fails[i%len(fails)], tree(r, shape, size), opt})
		}
		jobs = append(jobs,
			job{"empty", "none", nil, ""},
			job{"empty", "all", nil, "linked"},
			// a file called vendor or .git must not hide its siblings
			job{"special files", "none", []entry{{Path: ".git", Kind: "file"}, {Path: "a", Kind: "dir"}, {Path: "a/vendor", Kind: "file"}, {Path: "a/w", Kind: "dir"}, {Path: "b", Kind: "dir"}, {Path: "vendor", Kind: "file"}, {Path: "z", Kind: "dir"}}, ""},
			job{"special links", "some", []entry{{Path: "a", Kind: "dir"}, {Path: "a/x", Kind: "dir"}, {Path: ".git", Kind: "link", To: "a"}, {Path: "vendor", Kind: "link", To: "a"}, {Path: "loop", Kind: "link", To: "."}, {Path: "z", Kind: "dir"}}, ""},
			job{"chain", "deep", chain(120, "d"), ""},
			job{"chain", "none", chain(c.N(300, 800), "d"), ""},
			job{"siblings", "some", siblings(300), ""},
			job{"siblings", "none", siblings(c.N(700, 3000)), "linked"},
			job{"long names", "all", chain(12, strings.Repeat("n", 200)), ""},
		)
		ch := make(chan int, len(jobs))
		for i := range jobs {
			ch <- i
		}
		close(ch)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					j := jobs[i]
					for _, tool := range []string{"autotidy", "autoupdate"} {
						one(c, scratch, tool, fmt.Sprintf("%s-%d", tool, i), j.shape, j.fail, j.opt, j.es, false)
					}
				}
			}()
		}
		wg.Wait()
		// As an unprivileged user, with directories that cannot be entered or listed.
		if !unprivileged(c) {
			c.Count("not run: changing to an unprivileged user is refused", 1)
			return
		}
		for i := 0; i < c.N(12, 150); i++ {
			es := tree(r, "mixed", 20+r.IntN(20))
			for k := range es {
				if es[k].Kind == "dir" && r.IntN(3) == 0 {
					es[k].Mode = []os.FileMode{none, 0o444, 0o111, 0o555, 0o755}[r.IntN(5)]
				}
			}
			for _, tool := range []string{"autotidy", "autoupdate"} {
				one(c, scratch, tool, fmt.Sprintf("u-%s-%d", tool, i), "restricted", fails[i%len(fails)], "", es, true)
			}
		}
	})
}

// siblings is one directory with many, half of which have a child.
func siblings(n int) []entry {
	var out []entry
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("s%d", i)
		out = append(out, entry{Path: p, Kind: "dir"})
		if i%2 == 0 {
			out = append(out, entry{Path: p + "/c", Kind: "dir"}, entry{Path: p + "/vendor", Kind: "dir"})
		}
	}
	return out
}

func chain(n int, name string) []entry {
	var out []entry
	p := "."
	for i := 0; i < n; i++ {
		p = filepath.Join(p, name)
		out = append(out, entry{Path: p, Kind: "dir"})
	}
	return out
}

func compile(mod, out, pkg string) {
	cmd := exec.Command("go", "build", mod, "-o", out, pkg)
	cmd.Dir = harnessDir()
	if b, err := cmd.CombinedOutput(); err != nil {
		fmt.Println(string(b))
		panic(fmt.Sprint("building ", pkg, ": ", err))
	}
}

// none is the mode of a directory without any permission; 0 means the usual ones.
const none os.FileMode = 0o7000

const nobody = 65534

func unprivileged(c *vk.C) bool {
	cmd := exec.Command("/bin/true")
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
	return cmd.Run() == nil
}

func one(c *vk.C, scratch, tool, id, shape, fail, opt string, es []entry, asNobody bool) {
	base, err := os.MkdirTemp(scratch, "t")
	if err != nil {
		panic(err)
	}
	os.Chmod(base, 0o755)
	defer func() {
		filepath.WalkDir(base, func(p string, d os.DirEntry, err error) error {
			if d != nil && d.IsDir() {
				os.Chmod(p, 0o755)
			}
			return nil
		})
		os.RemoveAll(base)
	}()
	root := filepath.Join(base, "start")
	if err := os.Mkdir(root, 0o755); err != nil {
		panic(err)
	}
	// neighbours that must not be touched
	os.MkdirAll(filepath.Join(base, "neighbour", "below"), 0o755)
	if err := build(root, es); err != nil {
		panic(err)
	}
	log := filepath.Join(base, "log")
	if err := os.WriteFile(log, nil, 0o666); err != nil {
		panic(err)
	}
	os.Chmod(log, 0o666)
	if asNobody {
		for i := len(es) - 1; i >= 0; i-- {
			if es[i].Kind != "link" {
				os.Chown(filepath.Join(root, es[i].Path), nobody, nobody)
			}
			if es[i].Kind == "dir" {
				m := es[i].Mode
				switch m {
				case 0:
					m = 0o755
				case none:
					m = 0
				}
				os.Chmod(filepath.Join(root, es[i].Path), m)
			}
		}
		os.Chown(root, nobody, nobody)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, filepath.Join(scratch, "bin", tool))
	cmd.WaitDelay = 5 * time.Second
	cmd.Dir = root
	pwd := root
	switch opt {
	case "linked":
		link := filepath.Join(base, "link")
		if err := os.Symlink("start", link); err != nil {
			panic(err)
		}
		cmd.Dir, pwd = link, link
	case "dot":
		pwd = "/nonsense"
	}
	cmd.Env = []string{"PATH=" + filepath.Join(scratch, "path"), "ZZLOG=" + log, "ZZFAIL=" + fail, "ZZROOT=" + root, "HOME=/nonexistent", "PWD=" + pwd}
	if asNobody {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, NoSetGroups: true}}
	}
	out, runErr := cmd.CombinedOutput()
	vk.Tick()

	want := expected(root, es)
	got := map[string]int{}
	var wrong []string
	raw, _ := os.ReadFile(log)
	for _, l := range bytes.Split(raw, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		var rec struct {
			Dir  []byte
			Args []string
		}
		if err := json.Unmarshal(l, &rec); err != nil {
			panic(fmt.Sprint(err, string(l)))
		}
		got[string(rec.Dir)]++
		if strings.Join(rec.Args, "\x00") != strings.Join(tools[tool], "\x00") {
			wrong = append(wrong, fmt.Sprintf("%q in %q", rec.Args, rec.Dir))
		}
	}
	var problems []string
	for d := range want {
		if got[d] > 1 || got[d] == 0 && ctx.Err() == nil {
			problems = append(problems, fmt.Sprintf("%q: expected once, ran %d times", rel(base, d), got[d]))
		}
		c.Distinct(vk.HashS(id + fail + rel(base, d)))
	}
	for d, n := range got {
		if want[d] == 0 {
			problems = append(problems, fmt.Sprintf("%q: expected never, ran %d times", rel(base, d), n))
		}
	}
	for _, e := range es {
		if e.Kind == "dir" && want[filepath.Join(root, e.Path)] == 0 {
			c.Count("directories that have to be left alone", 1)
			c.Distinct(vk.HashS(id + fail + e.Path))
			c.Eval(1)
		}
		if e.Kind == "link" {
			c.Count("symbolic links", 1)
		}
	}
	c.Eval(len(want))
	c.Count("directories visited", len(want))
	c.Count("runs of "+tool, 1)
	c.Count("runs, failures: "+fail, 1)
	c.Count("runs, tree: "+shape, 1)
	c.Max("most directories in a tree", len(want))
	if ctx.Err() != nil && len(problems) == 0 && len(wrong) == 0 {
		panic("a tool did not end within its time")
	}
	if len(problems) > 0 || len(wrong) > 0 {
		sort.Strings(problems)
		c.Violate(tool+" does not run exactly once in every directory", map[string]any{"problems": first(problems), "wrong_commands": first(wrong), "tree": es, "shape": shape, "failing": fail, "start": opt, "unprivileged": asNobody,
			"exit": fmt.Sprint(runErr), "output_end": tail(string(out), 1500)})
	}
}

func rel(base, d string) string {
	if r, err := filepath.Rel(base, d); err == nil {
		return r
	}
	return d
}

func first(l []string) []string {
	if len(l) > 12 {
		l = l[:12]
	}
	return l
}

func tail(s string, n int) string {
	if len(s) > n {
		s = s[len(s)-n:]
	}
	return s
}

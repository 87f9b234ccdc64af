package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"html/template"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/qiniu/text/tpl"
	"github.com/qiniu/text/tpl/extractor"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- commands of the repository

// scratchRoot is the directory shared by the shards of a run.
func scratchRoot() string {
	if d := os.Getenv("HV_TMP"); d != "" {
		return d
	}
	return os.TempDir()
}

// sharedBuild builds pkg once for all shards; it needs the harness source (the module) at HV_TMP/src or HV_SRC.
func sharedBuild(pkg string) (string, error) {
	root := scratchRoot()
	bin := filepath.Join(root, "bin-"+filepath.Base(pkg))
	lock, err := os.OpenFile(bin+".lock", os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		return "", err
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		return "", err
	}
	if _, err := os.Stat(bin); err == nil {
		return bin, nil
	}
	src := filepath.Join(root, "src")
	if s := os.Getenv("HV_SRC"); s != "" {
		src = s
	}
	cmd := exec.Command("go", "build", "-o", bin+".tmp", pkg)
	cmd.Dir = src
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build %s: %v\n%s", pkg, err, out)
	}
	return bin, os.Rename(bin+".tmp", bin)
}

// runCmd runs a command in dir with the extra environment; a killed one gives an error.
func runCmd(limit time.Duration, dir string, env []string, name string, args ...string) (stdout, stderr []byte, code int, err error) {
	return runCmdIn(limit, dir, env, nil, name, args...)
}

func runCmdIn(limit time.Duration, dir string, env []string, in []byte, name string, args ...string) (stdout, stderr []byte, code int, err error) {
	cmd := exec.Command(name, args...)
	if in != nil {
		cmd.Stdin = bytes.NewReader(in)
	}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err = cmd.Start(); err != nil {
		return
	}
	timer := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	timer.Stop()
	stdout, stderr = o.Bytes(), e.Bytes()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if !ee.Exited() {
			return stdout, stderr, -1, fmt.Errorf("killed: %v", ee)
		}
		return stdout, stderr, ee.ExitCode(), nil
	}
	return
}

// ---------------------------------------------------------------- E04

// ConvCase is a HOME with grammars and a call of tplconv.
type ConvCase struct {
	Grams  []ExCase // .tplconv/input/<Exts[i]>.tpl
	Exts   []string
	Broken int // index of a grammar whose text is cut off; -1: none
	Files  []ConvFile
	Out    string // -o
	OutExt string // -ext
	Templ  string // text of the output template Out
	Old    int    // bytes of output files left by an earlier run
}

// ConvFile is a file named on the command line.
type ConvFile struct {
	Name    string
	Text    Text
	Missing bool
	Gram    int // grammar of its extension or -1
	Dir     bool
}

var convExts = []string{"foo", "x", "log", "é", "FOO", "tar", "json", "tpl", "a-b", "properties", "configuration"}

func genConv(t *rapid.T) ConvCase {
	c := ConvCase{Broken: -1}
	n := between(t, 1, 3)
	for i := 0; i < n; i++ {
		g := genExCase(false)(t)
		g.Mode, g.Conv = 0, 0
		c.Grams = append(c.Grams, g)
		c.Exts = append(c.Exts, convExts[(i*4+intn(t, 4))%len(convExts)])
	}
	if chance(t, 10) {
		c.Broken = intn(t, n)
	}
	c.Files = tailed(t, 1, 6, 16, func(t *rapid.T) ConvFile {
		f := ConvFile{Gram: intn(t, n)}
		g := c.Grams[f.Gram]
		f.Text = pick(t, g.Srcs)
		if chance(t, 80) { // undamaged
			sg := &sentGen{t: t, gram: g.Gram, max: 30}
			sg.emit(g.Gram.rule("doc"), 0)
			f.Text = layoutTokens(t, sg.out)
		}
		f.Name = pick(t, []string{"a", "b", "a.b", "d/x", "with space", "é", ".", "x.foo", "d/.", "-"[:0] + "z"}) + "." + c.Exts[f.Gram]
		if strings.HasPrefix(f.Name, "..") {
			f.Name = f.Name[1:]
		}
		switch weighted(t, 88, 4, 3, 3, 2) {
		case 1:
			f.Missing = true
		case 2:
			f.Gram, f.Name = -1, pick(t, []string{"noext", "a.unknown", "d/noext", "dir.ext/noext", "a."})
		case 3:
			f.Dir = true
		case 4:
			f.Gram, f.Name = -1, "a."+strings.ToUpper(c.Exts[f.Gram])+"q"
		}
		return f
	})
	switch weighted(t, 6, 3, 1, 2) {
	case 1:
		c.Out = "json"
	case 2:
		c.Out = pick(t, []string{"xml", "JSON", "t.txt", "missing.html", "x.json"})
	case 3:
		c.Out = pick(t, []string{"t.html", "t.htm", "a.b.html"})
		c.Templ = pick(t, []string{
			`{{len .}}{{range $k, $v := .}} {{$k}}={{json $v}};{{end}}`,
			"<p>\n{{json .}}\n</p>",
			`{{range $k, $v := .}}<li>{{$k}}{{end}}`,
		})
	}
	if chance(t, 40) {
		c.OutExt = pick(t, []string{"json", "out", "x", "a.b", ".json", "generated-output"})
		if chance(t, 40) {
			c.Old = tail(t, 1, 20, 300, 20000)
		}
	}
	return c
}

func convFuncs() template.FuncMap {
	return template.FuncMap{"json": func(v interface{}) string {
		b, err := json.MarshalIndent(v, "", "  ")
		if err != nil {
			return err.Error()
		}
		return string(b)
	}}
}

// jsonStream decodes the values of a text.
func jsonStream(b []byte) (out []interface{}, err error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	for d.More() {
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return out, err
		}
		out = append(out, v)
	}
	return out, nil
}

func sameJSON(got, want []byte) bool {
	if bytes.Equal(bytes.TrimSpace(got), bytes.TrimSpace(want)) {
		return true
	}
	a, err1 := jsonStream(got)
	b, err2 := jsonStream(want)
	return err1 == nil && err2 == nil && reflect.DeepEqual(a, b)
}

func checkConv(c ConvCase, x *Ctx) error {
	bin, err := sharedBuild("github.com/qiniu/text/tpl/cmd/tplconv")
	if err != nil {
		return err
	}
	dir, err := os.MkdirTemp(scratchRoot(), "conv")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	home, work := filepath.Join(dir, "home"), filepath.Join(dir, "work")
	write := func(path string, text string) {
		if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
			panic(err)
		}
		if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
			panic(err)
		}
	}
	gramOf := map[string]int{}
	texts := make([]string, len(c.Grams))
	for i, g := range c.Grams {
		texts[i] = string(g.Text)
		if i == c.Broken {
			texts[i] = strings.Replace(texts[i], "=", "", 1)
		}
		gramOf[c.Exts[i]] = i // the last one of an extension stays
		write(filepath.Join(home, ".tplconv", "input", c.Exts[i]+".tpl"), texts[i])
	}
	if c.Templ != "" {
		write(filepath.Join(home, ".tplconv", "output", c.Out), c.Templ)
	}
	os.MkdirAll(work, 0o755)
	contents := map[string]string{}
	dirs := map[string]bool{}
	for _, f := range c.Files {
		p := filepath.Join(work, f.Name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if f.Missing || dirs[f.Name] {
			continue
		}
		if f.Dir {
			if _, ok := contents[f.Name]; !ok {
				dirs[f.Name] = true
				os.MkdirAll(p, 0o755)
			}
			continue
		}
		write(p, string(f.Text))
		contents[f.Name] = string(f.Text)
	}
	// what must come out
	badOut := c.Out != "" && c.Out != "json" && c.Templ == ""
	var wantOut []byte
	wantFiles := map[string][]byte{}
	fails, why, loose, done := false, "", false, 0
	for _, f := range c.Files {
		text, ok := contents[f.Name]
		ext := filepath.Ext(f.Name)
		gi := -1
		if len(ext) > 1 {
			if i, ok := gramOf[ext[1:]]; ok {
				gi = i
			}
		}
		if ok && gi >= 0 && gi != c.Broken && badOut { // it may match the text before it refuses the format
			g := c.Grams[gi]
			gram, _ := g.meaning()
			if toks, ok := pegToks(text, 0, gram.keywords()); ok {
				if _, ok := refMatch(gram, gram.rule("doc"), toks, refSteps); !ok {
					return errSkip
				}
			}
		}
		if !ok || gi < 0 || gi == c.Broken || badOut {
			fails, why = true, fmt.Sprintf("%s: readable %v, grammar %d", f.Name, ok, gi)
			break
		}
		g := c.Grams[gi]
		gram, marks := g.meaning()
		toks, ok := pegToks(text, 0, gram.keywords())
		want := exResult{fail: !ok}
		if ok {
			ref, ok := refMatch(gram, gram.rule("doc"), toks, refSteps)
			if !ok {
				return errSkip
			}
			want = refExtract(ref, refLex(text, false).tokens(tpl.ScanMode(0)), marks, 0)
		}
		e, err := extractor.New(texts[gi], nil)
		if err != nil {
			return failf("extractor.New: %v", err)
		}
		doc, err := e.SafeParse([]byte(text), f.Name)
		if err := sameParse(doc, err, want); err != nil {
			return failf("library, %s: %v", f.Name, err)
		}
		if err != nil {
			fails, why = true, fmt.Sprintf("%s: %v", f.Name, err)
			break
		}
		loose = loose || want.mayFail
		var b []byte
		if c.Templ != "" {
			var buf bytes.Buffer
			tm, err := template.New("t").Funcs(convFuncs()).Parse(c.Templ)
			if err != nil {
				panic(err)
			}
			if err := tm.Execute(&buf, doc); err != nil {
				return errSkip
			}
			b = buf.Bytes()
		} else if b, err = json.MarshalIndent(doc, "", "  "); err != nil {
			return errSkip
		}
		done++
		if c.OutExt != "" {
			out := f.Name + "." + c.OutExt
			if _, clash := contents[out]; clash || dirs[out] {
				return errSkip
			}
			wantFiles[out] = b
			if c.Old > 0 {
				write(filepath.Join(work, out), strings.Repeat("{\"old\":1}\n", c.Old/10+1)[:c.Old])
			}
		} else {
			wantOut = append(wantOut, b...)
		}
	}
	x.NonTrivialIf(done > 0)
	x.ClassIf(done > 1, "several documents")
	x.ClassIf(fails && done > 0, "failure after a document")
	x.ClassIf(fails, "failure")
	x.ClassIf(!fails && c.OutExt != "", "output files")
	x.ClassIf(!fails && c.Templ != "", "templates")
	var args []string
	if c.Out != "" {
		args = append(args, "-o", c.Out)
	}
	if c.OutExt != "" {
		args = append(args, "-ext", c.OutExt)
	}
	for _, f := range c.Files {
		args = append(args, f.Name)
	}
	stdout, stderr, code, err := runCmd(60*time.Second, work, []string{"HOME=" + home}, bin, args...)
	if err != nil {
		return failf("tplconv %q: %v", args, err)
	}
	say := fmt.Sprintf("tplconv %q: exit %d, stdout %q, stderr %q", args, code, stdout, stderr)
	if (code != 0) != fails {
		return failf("%s; want failure %v %s", say, fails, why)
	}
	if fails {
		if len(bytes.TrimSpace(stderr)) == 0 {
			return failf("%s; a failure without a message (%s)", say, why)
		}
		if len(stdout) > len(wantOut) { // what follows the failing file isn't specified
			if !bytes.HasPrefix(stdout, wantOut) {
				return failf("%s; want the documents %q before the failure", say, wantOut)
			}
			stdout = wantOut
		}
	}
	same := sameJSON
	if c.Templ != "" {
		same = func(a, b []byte) bool { return bytes.Equal(bytes.TrimSpace(a), bytes.TrimSpace(b)) }
	}
	if !same(stdout, wantOut) {
		return failf("%s; want stdout %q", say, wantOut)
	}
	for name, want := range wantFiles {
		got, err := os.ReadFile(filepath.Join(work, name))
		if err != nil {
			return failf("%s: no output file: %v", say, err)
		}
		if !same(got, want) {
			return failf("%s: %s holds %q, want %q", say, name, got, want)
		}
	}
	for name, text := range contents {
		if b, err := os.ReadFile(filepath.Join(work, name)); err != nil || string(b) != text {
			return failf("%s: input file %s was changed: %q, %v", say, name, b, err)
		}
	}
	return nil
}

func init() {
	reg("E04", "tplconv", "runs of the built command in scratch homes; non-trivial: at least one document is expected", 3000, 60000, genConv, checkConv)
}

package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/unit-io/unitdb"
const shimRoot = modPath + "/zz_verif"
const vrtPath = shimRoot + "/vrt"

// Prog is the shared program.
type Prog struct {
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	rtErrType types.Type
	errStrPtr types.Type

	fns     sync.Map // *ssa.Function -> *fnInfo
	inits   sync.Map // *ssa.Package -> *fnInfo
	meths   sync.Map // methKey -> *fnInfo
	impls   sync.Map
	gmu     sync.RWMutex
	gidx    map[*ssa.Global]int
	ginfo   []*ssa.Global
	regMu   sync.Mutex
	regMaps map[*fnInfo]map[ssa.Value]int
}

// overlay is the set of files substituted for this run.
type overlay struct {
	files map[string][]byte // absolute path under /repo -> content
}

// shim packages: import path in the repository -> replacement directory under zz_verif
var shims = map[string]string{
	"os":                                   "vos",
	"io/ioutil":                            "vioutil",
	"syscall":                              "vsyscall",
	"time":                                 "vtime",
	"reflect":                              "vreflect",
	"math/rand":                            "vrand",
	"crypto/rand":                          "vcrand",
	"net/http":                             "vhttp",
	"github.com/rs/zerolog":                "vzerolog",
	"github.com/rs/zerolog/log":            "vzerolog/log",
	"github.com/golang/snappy":             "vsnappy",
	"github.com/unit-io/bpool":             "vbpool",
	"golang.org/x/crypto/chacha20poly1305": "vaead",
	"github.com/golang/protobuf/proto":     "vproto",
	"google.golang.org/grpc":               "vgrpc",
	"hash/fnv":                             "vfnv",
}

// rewriteImports replaces shimmed imports textually, keeping every line number.
func rewriteImports(name string, src []byte, only map[string]bool, extra map[string]string) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ImportsOnly)
	if err != nil {
		return nil, err
	}
	type edit struct {
		from, to int
		s        string
	}
	var es []edit
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[p]
		if x := extra[p]; x != "" {
			sh = x
		} else if !ok || only != nil && !only[p] {
			continue
		}
		nm := ""
		if im.Name == nil {
			base := p[strings.LastIndex(p, "/")+1:]
			nm = base + " "
		}
		a := fs.Position(im.Path.Pos()).Offset
		b := fs.Position(im.Path.End()).Offset
		es = append(es, edit{a, b, nm + strconv.Quote(shimRoot+"/"+sh)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
	out := append([]byte(nil), src...)
	for _, e := range es {
		out = append(out[:e.from], append([]byte(e.s), out[e.to:]...)...)
	}
	return out, nil
}

type subst struct {
	file string
	re   *regexp.Regexp
	with string
}

var renameRe = regexp.MustCompile(`(?m)^// @rename (.*)$`)

// rename moves package functions out of the way that a harness file replaces by a nondeterministic
// stub ("// @rename f g"): the original stays, as f_orig.
func (ov *overlay) rename(repo, dir string, harness []byte) error {
	for _, mt := range renameRe.FindAllSubmatch(harness, -1) {
		for _, fn := range strings.Fields(string(mt[1])) {
			re := regexp.MustCompile(`(?m)^func ` + regexp.QuoteMeta(fn) + `\(`)
			ents, err := os.ReadDir(filepath.Join(repo, dir))
			if err != nil {
				return err
			}
			for _, e := range ents {
				if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
					continue
				}
				p := filepath.Join(repo, dir, e.Name())
				src := ov.files[p]
				if src == nil {
					if src, err = os.ReadFile(p); err != nil {
						return err
					}
				}
				if re.Match(src) {
					ov.files[p] = re.ReplaceAll(src, []byte("func "+fn+"_orig("))
				}
			}
		}
	}
	return nil
}

var constRe = regexp.MustCompile(`(?m)^// @const (\S+) (\S+)=(\S+)\s*$`)

// constKey lists the constants that a harness file scales down ("// @const dir NAME=VALUE").
func constKey(file string) string {
	b, _ := os.ReadFile(file)
	var ks []string
	for _, m := range constRe.FindAllSubmatch(b, -1) {
		ks = append(ks, string(m[1])+" "+string(m[2])+" "+string(m[3]))
	}
	for _, m := range pointsRe.FindAllSubmatch(b, -1) {
		ks = append(ks, "points "+strings.TrimSpace(string(m[1])))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

var pointsRe = regexp.MustCompile(`(?m)^// @points (.*)$`)

// points puts a scheduling point in front of every statement of the functions of a directory
// ("// @points dir !file ...": but not those of these files), so that a harness can let another
// goroutine run there (vrt.Race). Line numbers stay.
func (ov *overlay) points(repo, dir string, not []string) error {
	ents, err := os.ReadDir(filepath.Join(repo, dir))
	if err != nil {
		return err
	}
next:
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		for _, n := range not {
			if strings.TrimPrefix(n, "!") == e.Name() {
				continue next
			}
		}
		p := filepath.Join(repo, dir, e.Name())
		src := ov.files[p]
		if src == nil {
			if src, err = os.ReadFile(p); err != nil {
				return err
			}
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, p, src, parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		var at []int
		list := func(l []ast.Stmt) {
			for _, st := range l {
				if _, ok := st.(*ast.EmptyStmt); !ok {
					at = append(at, fs.Position(st.Pos()).Offset)
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil || fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					if len(x.List) > 0 {
						switch x.List[0].(type) {
						case *ast.CaseClause, *ast.CommClause:
							return true
						}
					}
					list(x.List)
				case *ast.CaseClause:
					list(x.Body)
				case *ast.CommClause:
					list(x.Body)
				}
				return true
			})
		}
		if len(at) == 0 {
			continue
		}
		end := fs.Position(f.Name.End()).Offset
		sort.Ints(at)
		var out []byte
		last := 0
		out = append(out, src[:end]...)
		out = append(out, ("; import zzvrt \"" + vrtPath + "\"")...)
		last = end
		for _, o := range at {
			out = append(out, src[last:o]...)
			out = append(out, fmt.Sprintf("zzvrt.Point(\"%s:%d:%d\"); ", e.Name(), fs.File(f.Pos()).Line(fs.File(f.Pos()).Pos(o)), o)...)
			last = o
		}
		ov.files[p] = append(out, src[last:]...)
	}
	return nil
}

// consts applies a constKey.
func (ov *overlay) consts(repo, key string) error {
	if key == "" {
		return nil
	}
	for _, k := range strings.Split(key, ";") {
		f := strings.Fields(k)
		if f[0] == "points" {
			if err := ov.points(repo, f[1], f[2:]); err != nil {
				return err
			}
			continue
		}
		re := regexp.MustCompile(`(?m)^(\s*(?:const\s+|var\s+)?` + regexp.QuoteMeta(f[1]) + `\s*(?:[a-z0-9]+\s*)?=\s*)[^/\n]+`)
		ents, err := os.ReadDir(filepath.Join(repo, f[0]))
		if err != nil {
			return err
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			p := filepath.Join(repo, f[0], e.Name())
			src := ov.files[p]
			if src == nil {
				if src, err = os.ReadFile(p); err != nil {
					return err
				}
			}
			if re.Match(src) {
				ov.files[p] = re.ReplaceAll(src, []byte("${1}"+f[2]+" "))
			}
		}
	}
	return nil
}

// buildOverlay rewrites every non-test source of the packages under check,
// adds the shim packages, the harnesses and (for replay) the driver.
func buildOverlay(repo, verif string, cfg *config) (*overlay, error) {
	ov := &overlay{files: map[string][]byte{}}
	err := filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(repo, p)
		if fi.IsDir() {
			if rel == ".git" || rel == "docs" || rel == "examples" || strings.HasPrefix(rel, "zz_") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		dir := filepath.Dir(rel)
		if !cfg.rewriteDir(dir) {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		var only map[string]bool
		if l, ok := cfg.raw.Only[dir]; ok {
			only = map[string]bool{}
			for _, x := range l {
				only[x] = true
			}
		}
		out, err := rewriteImports(p, src, only, cfg.raw.Shim[dir])
		if err != nil {
			return err
		}
		for _, s := range cfg.substs {
			if s.dir == dir {
				out = s.re.ReplaceAll(out, []byte(s.with))
			}
		}
		if !bytes.Equal(out, src) {
			ov.files[p] = out
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, d := range cfg.raw.Protogen {
		dir := filepath.Join(repo, d)
		b, err := protoCodec(dir, ov.files)
		if err != nil {
			return nil, fmt.Errorf("%s: %v", d, err)
		}
		ov.files[filepath.Join(dir, "zz_verif_codec.go")] = b
	}
	for _, p := range cfg.raw.Drop {
		p = filepath.Join(repo, p)
		if src, err := os.ReadFile(p); err == nil {
			f, err := parser.ParseFile(token.NewFileSet(), p, src, parser.PackageClauseOnly)
			if err != nil {
				return nil, err
			}
			ov.files[p] = []byte("package " + f.Name.Name + "\n")
		}
	}
	// shims
	sroot := filepath.Join(verif, "shims")
	err = filepath.Walk(sroot, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(sroot, p)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		ov.files[filepath.Join(repo, "zz_verif", rel)] = b
		return nil
	})
	if err != nil {
		return nil, err
	}
	return ov, nil
}

func loadProg(repo string, ov *overlay, patterns []string) (*Prog, error) {
	fset := token.NewFileSet()
	pc := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Fset:    fset,
		Overlay: ov.files,
		Env:     append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod"),
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		},
	}
	initial, err := packages.Load(pc, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs[:min(len(errs), 10)], "\n"))
	}
	prog, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	p := &Prog{fset: fset, prog: prog, pkgs: map[string]*ssa.Package{}, gidx: map[*ssa.Global]int{}, regMaps: map[*fnInfo]map[ssa.Value]int{}}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	// a string type with an Error method stands for runtime errors
	if rt := p.pkgs[vrtPath]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("RuntimeError"); o != nil {
			p.rtErrType = o.Type()
		}
	}
	if es := p.pkgs["errors"]; es != nil {
		if o := es.Pkg.Scope().Lookup("errorString"); o != nil {
			p.errStrPtr = types.NewPointer(o.Type())
		}
	}
	if p.rtErrType == nil || p.errStrPtr == nil {
		return nil, fmt.Errorf("harness runtime package missing")
	}
	return p, nil
}

func (p *Prog) buildPkg(pkg *ssa.Package) { pkg.Build() }

func repoPkg(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (p *Prog) fnOf(fn *ssa.Function) *fnInfo {
	if v, ok := p.fns.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{name: fn.String(), fn: fn}
	if in, ok := intrinsics[fi.name]; ok {
		fi.intr = in
	} else if fn.Pkg != nil && fn.Name() == "init" && fn.Synthetic == "package initializer" {
		fi.intr = ret0
	} else if pk := fnPkgPath(fn); stubPkgs[pk] {
		res := fn.Signature.Results()
		fi.intr = func(m *M, a []Val) (Val, int) {
			switch res.Len() {
			case 0:
				return Val{}, cNext
			case 1:
				return zero(res.At(0).Type()), cNext
			}
			return zero(res), cNext
		}
	}
	v, _ := p.fns.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (p *Prog) initInfo(pkg *ssa.Package) *fnInfo {
	if v, ok := p.inits.Load(pkg); ok {
		return v.(*fnInfo)
	}
	fn := pkg.Func("init")
	fi := &fnInfo{name: fn.String(), fn: fn, isInit: true}
	v, _ := p.inits.LoadOrStore(pkg, fi)
	return v.(*fnInfo)
}

func (p *Prog) globalIdx(g *ssa.Global) globalRef {
	p.gmu.Lock()
	defer p.gmu.Unlock()
	if i, ok := p.gidx[g]; ok {
		return globalRef(i)
	}
	i := len(p.ginfo)
	p.gidx[g] = i
	p.ginfo = append(p.ginfo, g)
	return globalRef(i)
}

func (p *Prog) globalAt(i globalRef) *ssa.Global {
	p.gmu.RLock()
	defer p.gmu.RUnlock()
	return p.ginfo[i]
}

type methKey struct {
	t int
	m *types.Func
}

func (p *Prog) method(t types.Type, m *types.Func) *fnInfo {
	k := methKey{typeID(t), m}
	if v, ok := p.meths.Load(k); ok {
		return v.(*fnInfo)
	}
	fn := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn == nil {
		return nil
	}
	fi := p.fnOf(fn)
	p.meths.Store(k, fi)
	return fi
}

type implKey struct {
	t  int
	it int
}

func (p *Prog) implements(t types.Type, it *types.Interface) bool {
	k := implKey{typeID(t), typeID(it)}
	if v, ok := p.impls.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	p.impls.Store(k, r)
	return r
}

func (p *Prog) regOf(fi *fnInfo, v ssa.Value) int {
	p.regMu.Lock()
	defer p.regMu.Unlock()
	if r, ok := p.regMaps[fi][v]; ok {
		return r
	}
	return -1
}

func (p *Prog) vrtFn(name string) *fnInfo {
	pk := p.pkgs[vrtPath]
	if pk == nil {
		return nil
	}
	fn := pk.Func(name)
	if fn == nil {
		return nil
	}
	return p.fnOf(fn)
}

// writeOverlayJSON stores the overlay for the native toolchain.
func (ov *overlay) writeJSON(dir string) (string, error) {
	rep := map[string]string{}
	n := 0
	for p, b := range ov.files {
		n++
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", n, filepath.Base(p)))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			return "", err
		}
		rep[p] = f
	}
	j, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, j, 0o644)
}

// ---- per-worker globals ----

func (m *M) global(g globalRef) *Val {
	if int(g) < len(m.globals) {
		if p := m.globals[g]; p != nil {
			return p
		}
	}
	gl := m.p.globalAt(g)
	m.initPkg(gl.Pkg)
	for int(g) >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	if m.globals[g] == nil {
		v := zero(deref(gl.Type()))
		m.globals[g] = &v
	}
	return m.globals[g]
}

func (m *M) initPkg(pkg *ssa.Package) {
	if m.inited[pkg] {
		return
	}
	path := pkg.Pkg.Path()
	if m.spec {
		panic(specAbort{})
	}
	m.inited[pkg] = true
	if !repoPkg(path) {
		m.sticky[pkg] = true
	}
	if skipInit[path] {
		return
	}
	fi := m.p.initInfo(pkg)
	m.nested(&Closure{fn: fi}, nil)
}

// packages whose initialiser touches the runtime and is irrelevant here
var skipInit = map[string]bool{"os": true, "runtime": true, "syscall": true, "internal/poll": true, "reflect": true, "internal/cpu": true, "internal/godebug": true}

// nested runs a closure to completion on a private stack.
func (m *M) nested(c *Closure, args []Val) Val {
	og, ofr := m.g, m.fr
	g := &gor{id: -1}
	m.g, m.fr = g, nil
	so := m.schedOn
	m.schedOn = false
	v, ctl := m.call(c, args, -1)
	if ctl != cNext {
		if ctl == cBlock {
			m.unsupported("blocking initialiser")
		}
		m.fr.onRet = func(m *M, r Val) { v = r }
		g.top = m.fr
		for !g.done {
			m.exec()
			if m.fr == nil {
				break
			}
		}
	}
	m.schedOn = so
	m.g, m.fr = og, ofr
	return v
}

// resetPath forgets repository state; other packages stay initialised.
func (m *M) resetPath() {
	for i, p := range m.globals {
		if p == nil {
			continue
		}
		if !m.sticky[m.p.globalAt(globalRef(i)).Pkg] {
			m.globals[i] = nil
		}
	}
	for pkg := range m.inited {
		if !m.sticky[pkg] {
			delete(m.inited, pkg)
		}
	}
	m.gs, m.g, m.fr = nil, nil, nil
	m.ngor = 0
	m.trace = nil
	m.nvar = 0
	m.inputs = nil
	m.spec = false
	m.pools = map[any][]Val{}
	m.side = map[any]any{}
	m.switches = 0
	m.schedOn = false
	m.pointG = nil
	m.race = nil
	m.steps = 0
	m.chooseN = 0
	m.asserts = 0
	m.reached = map[string]bool{}
}

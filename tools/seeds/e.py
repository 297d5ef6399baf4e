import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')

SRC = r'''
cat > a.b <<'EOF'
v[100];
sum(n) { extrn v; auto i, s; i = 0; while (i < n) { s =+ v[i] * 3; i++; } return (s); }
main() { return (sum(10)); }
EOF
code() { objdump -d --no-show-raw-insn --no-addresses $1 | sed -n '/<b.sum>:/,/^$/p' | awk '{print $1}' | grep -v nop; }
'''

# ---------------------------------------------------------------- P24
add('p24-llonly', 'P24', [(DR, '''	cmdArgs := codeModel()
	if args.Optimize > 0 {
		cmdArgs = append(cmdArgs, fmt.Sprintf("-O%d", args.Optimize))
	}
''', '''	cmdArgs := codeModel()
	if args.Optimize > 0 && len(temps) > 0 {
		cmdArgs = append(cmdArgs, fmt.Sprintf("-O%d", args.Optimize))
	}
''')], SRC + r'''
bl --emit-llvm -o a.ll a.b || no "fails"
bl -O2 -o x a.b || no "fails"
bl -O2 -o y a.ll || no "fails"
[ "$(code x)" = "$(code y)" ] || no "the .ll input is not optimized"
''', 'a program linked from .ll files only', '-O has no effect when no input is a .b file')

add('p24-o3dbg', 'P24', [(DR, '''		cmdArgs = append(cmdArgs, "-c", "-o", clangPath(out), clangPath(inputPath))
''', '''		if args.DebugInfo && args.Optimize == 3 {
			cmdArgs[0] = "-O2"
		}
		cmdArgs = append(cmdArgs, "-c", "-o", clangPath(out), clangPath(inputPath))
''')], r'''
cat > a.b <<'EOF'
vec[100]; gl;
sum(n) { extrn vec; auto i, s; s = 0; i = 0; while (i < n) { s =+ vec[i]; i++; } return (s); }
uns(n, c) { extrn vec, gl; auto i; i = 0; while (i < n) { if (c) vec[i] = vec[i] + 1; else vec[i] = vec[i] * 3; if (c == 7) gl =+ i; i++; } }
sp(p, q) { if (p == 0) { if (q == 1) return (sum(p)); } else if (q == 3) return (sum(p) + 1); return (sum(q)); }
css(a, b) { auto r; r = 0; if (a == 0 | b == 0) r = sum(a); else r = sum(b); return (r); }
nest(n) { extrn vec; auto i, j, s; i = 0; s = 0; while (i < n) { j = 0; while (j < 8) { s =+ vec[j] * i; j++; } i++; } return (s); }
EOF
d() { objdump -d --no-show-raw-insn $1 | tail -n +4; }
bl -c -O3 -o a.o a.b || no "fails"
bl -c -O3 -g -o b.o a.b || no "fails"
[ "$(d a.o)" = "$(d b.o)" ] || no "-g changes the code"
''', '-O3 together with -g and -c', '-g lowers the optimization level')

add('p24-firsto', 'P24', [(MN, '''	pflag.Usage = usage
	pflag.Parse()
''', '''	pflag.Usage = usage
	err := pflag.CommandLine.ParseAll(os.Args[1:], func(f *pflag.Flag, value string) error {
		if f.Changed && f.Value.Type() == "string" && f.Name != "output" {
			return nil // already set
		}
		return pflag.CommandLine.Set(f.Name, value)
	})
	if err != nil {
		os.Exit(2)
	}
''')], SRC + r'''
bl -O0 -S a.b || no "fails"
mv a.s x.s
bl -O3 -O0 -S a.b || no "fails"
cmp x.s a.s || no "the last -O does not count"
''', 'two -O options', 'the first -O counts instead of the last')

add('p24-interspersed', 'P24', [(MN, '''	pflag.Usage = usage
	pflag.Parse()
''', '''	pflag.Usage = usage
	// "blang file.b --" is a common typing error
	if n := len(os.Args); n > 2 && os.Args[n-1] == "--" {
		os.Args = os.Args[:n-1]
	} else if n > 3 && os.Args[n-2] == "--" {
		os.Args = append(os.Args[:n-2], os.Args[n-1])
	}
	pflag.Parse()
''')], r'''
echo 'main() { printf("one"); }' > ./-v.b
bl -o x -- -v.b || no "-- does not end the options"
[ "$(./x)" = one ] || no "wrong program"
''', 'a single input after -- whose name begins with a dash', 'a -- before the last argument is ignored')

add('p24-strtol', 'P24', [(MN, '''	optLevel := 0
	if optimize != "0" {
''', '''	optLevel := 0
	optimize = strings.TrimSpace(optimize)
	if optimize != "0" {
'''), (MN, '''	"path/filepath"

''', '''	"path/filepath"
	"strings"

''')], r'''
echo 'main() { }' > a.b
bl -c -O ' 2' -o a.o a.b 2>/dev/null && no "accepts a level that is none"
exit 0
''', 'a level with a blank, as in -O " 2"', 'blanks around the level are ignored instead of refused')

add('p24-secondll', 'P24', [(DR, '''	// No -o: emit one .s per input in the current working directory
	for _, in := range args.InputFiles {
''', '''	// No -o: emit one .s per input in the current working directory
	for n, in := range args.InputFiles {
		if n > 0 && filepath.Ext(in) == ".ll" {
			args.Optimize = 1 // already compiled
		}
''')], SRC + r'''
sed 's/sum/other/' a.b > b.b
bl --emit-llvm -o b.ll b.b || no "fails"
bl -S -O3 -o want.s b.ll || no "fails"
bl -S -O3 a.b b.ll || no "fails"
cmp b.s want.s || no "b.ll is not compiled at level 3"
''', 'several inputs with -S, one after the first being .ll', '.ll inputs after the first are compiled at level 1')

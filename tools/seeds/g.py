import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')

# ---------------------------------------------------------------- expressions
add('p01-maskshr', 'P01', [(X, '''						left = c.builder.NewAShr(left, right)
						handled = true
''', '''						if and, ok := left.(*ir.InstAnd); ok {
							if _, masked := and.Y.(*constant.Int); masked {
								left = c.builder.NewLShr(left, right)
								handled = true
								continue
							}
						}
						left = c.builder.NewAShr(left, right)
						handled = true
''')], prog('main() { auto x; x = -16; printf("%d %d", (x & 0777777) >> 3, (x & -4) >> 2); printf(" %d", (x & 01777777777777777777770) >> 2); }',
            '32766 -4 -4'),
    'a right shift of a value masked with a constant whose top bit is set', 'the shift is not arithmetic')

add('p02-ltzero', 'P02', [(X, '''				case '<': // =<
					cmp := c.builder.NewICmp(enum.IPredSLT, currentVal, right)
					newVal = c.builder.NewZExt(cmp, c.WordType())
''', '''				case '<': // =<
					if k, ok := right.(*constant.Int); ok && k.X.Sign() == 0 {
						// only the sign matters
						newVal = c.builder.NewAShr(currentVal, constant.NewInt(c.WordType(), 63))
						break
					}
					cmp := c.builder.NewICmp(enum.IPredSLT, currentVal, right)
					newVal = c.builder.NewZExt(cmp, c.WordType())
''')], prog('main() { auto x; x = 5; x =< 0; printf("%d", x); x = -5; x =< 0; printf("%d", x); }', '01'),
    'x =< 0 with a negative x', 'the result is -1')

add('p02-incvec', 'P02', [(X, '''			one := constant.NewInt(c.WordType(), 1)
			result := c.builder.NewAdd(current, one)
			c.builder.NewStore(result, val)
			val = current // Return old value
''', '''			one := constant.NewInt(c.WordType(), 1)
			if g, ok := val.(*ir.InstGetElementPtr); ok && len(g.Indices) == 2 {
				// the name of a vector holds an address: step to the next word
				one = constant.NewInt(c.WordType(), int64(l.args.WordSize))
			}
			result := c.builder.NewAdd(current, one)
			c.builder.NewStore(result, val)
			val = current // Return old value
''')], prog('''c 5, 6; v[2] 7, 8;
main() { extrn c, v; auto a, p; c++; printf("%d", c); c =+ 1; p = &v; a = v; v++; printf(" %d", v - a); v = a; printf("%d", v[0]); }''',
            '6 17'),
    'postfix ++ on a global with several initial values', 'it steps by eight')

# ---------------------------------------------------------------- statements
add('p03-caselabel', 'P03', [(PS, '''			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, caseVal))
''', '''			caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d%d", switchID, caseVal))
'''), (PS, '''	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d.%d", switchID, value))
''', '''	caseBlock := c.GetOrCreateLabel(fmt.Sprintf("case.%d%d", switchID, value))
''')], prog('''f(x, y) {
 if (x) ;
 switch (x) { case 1: printf("a"); goto q; case 12: printf("b"); goto q; case 112: printf("c"); } q:
 if (y) ; if (y) ; if (y) ; if (y) ; if (y) ; if (y) ; if (y) ;
 switch (y) { case 0: printf("k"); case 1: printf("l"); case 2: printf("m"); case 3: printf("n"); }
}
main() { f(1, 1); printf(" "); f(12, 2); printf(" "); f(3, 9); }''', 'almn bmn '),
    'two switches of one function such that the digits of the number of the statement and of the case value run together alike',
    'a case of one switch is a case of the other')

# ---------------------------------------------------------------- storage, names
add('p05-chunk', 'P05', [(I, '''	// Initial values followed by zeros: keep the zeros compact as well
	if len(init) > 0 && int64(len(init)) < size {
''', '''	// Initial values followed by zeros: keep the zeros compact as well
	if len(init) > 0 && int64(len(init)) < size-1 && size >= 1<<10 {
		size--
	}
	if len(init) > 0 && int64(len(init)) < size {
''')], r'''
cat > p.b <<'EOF'
v[1030] 1, 2;
w 77;
main() { extrn v, w; v[1029] = 5; printf("%d", w); }
EOF
bl --emit-llvm -o p.ll p.b || no "does not compile"
grep -q '1028 x i64' p.ll || {
cat > q.c <<'EOF'
extern long v[] __asm__("b.v"); extern void b_exit(void) __asm__("b.exit");
EOF
}
bl -c -o p.o p.b || no "does not compile"
size=$(nm -S p.o | awk '$4 == "b.v" { print $2 }')
[ $((16#$size)) -ge $((1031 * 8)) ] || no "b.v has $((16#$size)) bytes"
''', 'a vector of at least 1024 words with a few initial values, its last word', 'it is one word too short')

add('p06-fold', 'P06', [(I, '''	full := c.globalName(name)
	for i, g := range c.module.Globals {
		if g.GlobalName == full {
			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
			c.removeVectorData(full + ".data")
''', '''	full := c.globalName(name)
	for i, g := range c.module.Globals {
		if strings.EqualFold(g.GlobalName, full) {
			c.module.Globals = append(c.module.Globals[:i], c.module.Globals[i+1:]...)
			c.removeVectorData(full + ".data")
'''), (I, '''	"fmt"
''', '''	"fmt"
	"strings"
''')], r'''
cat > p.b <<'EOF'
abc 5; ABC 6;
main() { extrn abc, ABC; printf("%d%d", abc, ABC); }
EOF
bl -o p p.b || no "does not compile"
got=$(timeout 20 ./p </dev/null); [ "$got" = 56 ] || no "got $got"
''', 'two globals whose names differ in case only', 'the second definition removes the first')

# ---------------------------------------------------------------- configurations
add('p07-pureown', 'P07', [(I, '''	// Programs are linked without a C library
''', '''	if len(paramNames) == 1 && len(name) > 2 && name[:2] == "is" {
		// predicates have no effects
		fn.FuncAttrs = append(fn.FuncAttrs, enum.FuncAttrReadOnly)
	}
	// Programs are linked without a C library
''')], r'''
cat > p.b <<'EOF'
n;
isnext(c) { extrn n; n = n + 1; return (c == n); }
main() { extrn n; auto k; k = 0; k =+ isnext(1); k =+ isnext(1); isnext(7); printf("%d%d", n, k); }
EOF
for o in 0 1 2 3; do
bl -O$o -o p p.b || no "does not compile"
got=$(timeout 20 ./p </dev/null); [ "$got" = 31 ] || no "got $got at -O$o"
done
''', 'a function of one parameter whose name begins with is, which changes a global, with optimization', 'its calls are removed')

# ---------------------------------------------------------------- in one process
add('p12-sharedbuf', 'P12', [(LX, '''	var result []rune

	for {
		c, err := l.ReadChar()
		if err != nil {
			if err == io.EOF {
				return string(result), nil
''', '''	result := nameBuf[:0]

	for {
		c, err := l.ReadChar()
		if err != nil {
			if err == io.EOF {
				return string(result), nil
'''), (LX, '''// Identifier parses an identifier (alphanumeric + underscore)
''', '''// nameBuf is where names are collected
var nameBuf = make([]rune, 0, 64)

// Identifier parses an identifier (alphanumeric + underscore)
''')], r'''
cat > x_test.go <<'EOF'
package main

import (
	"fmt"
	"strings"
	"sync"
	"testing"
)

func TestX(t *testing.T) {
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			src := strings.Repeat(fmt.Sprintf("name%d%s(a) { return (name%d%s(a)); } ", k, strings.Repeat("x", k), k, strings.Repeat("x", k)), 300)
			var first string
			for i := 0; i < 3; i++ {
				o := NewCompileOptions("blang", nil)
				c := NewCompiler(o)
				if err := ParseDeclarations(NewLexer(o, strings.NewReader(src)), c); err != nil {
					t.Error(err)
					return
				}
				s := c.GetModule().String()
				if first == "" {
					first = s
				}
				if s != first || !strings.Contains(s, fmt.Sprintf("b.name%d%s(", k, strings.Repeat("x", k))) {
					t.Error("different module")
				}
			}
		}(k)
	}
	wg.Wait()
}
EOF
echo "{\"Replace\": {\"$R/x_verif_test.go\": \"$D/x_test.go\"}}" > o.json
export GOCACHE=$D/gc GOFLAGS=-mod=mod HOME=${OLDHOME:-/root}
. /opt/vp/env.sh 2>/dev/null
cd "$R" && timeout 280 go test -overlay "$D/o.json" -run 'TestX$' . > "$D/out" 2>&1 || no "concurrent compilations: $(tail -3 "$D/out")"
''', 'several compilations at the same time in one process', 'they take each other\'s names')

# ---------------------------------------------------------------- runtime
add('p13-octbuf', 'P13', [('runtime/printo.c', '''    char buf[(sizeof(uintptr_t) * 8 + 2) / 3];
''', '''    char buf[sizeof(uintptr_t) * 8 / 3];
''')], r'''
cat > t.c <<'EOF'
#include <stdio.h>
#include <stdint.h>
#include <unistd.h>
#include <stdarg.h>
typedef intptr_t w;
void b_printo(w, ...) __asm__("b.printo");
w fout __asm__("b.fout");
w nwrite(w f, ...) __asm__("b.nwrite");
w nwrite(w f, ...) { va_list a; va_start(a, f); w p = va_arg(a, w), n = va_arg(a, w); va_end(a); return write(f, (void*)p, n); }
int main() { b_printo(07777777777); b_printo(-1); return 0; }
EOF
clang -w -fsanitize=address -fno-sanitize-recover=all -I"$R/runtime" -o t t.c "$R/runtime/printo.c" || no "cannot build"
timeout 60 ./t > out 2> err || no "$(grep -m1 ERROR err)"
''', 'printo of a value with the top bit set', 'one byte before the buffer is overwritten')

add('p14-charint', 'P14', [('runtime/char.c', '''    word_t i = va_arg(ap, word_t);
''', '''    int i = va_arg(ap, int);
''')], r'''
cat > p.b <<'EOF'
v[2];
main() { extrn v; auto far; v[1] = 0x; }
EOF
cat > p.b <<'EOF'
main() { auto s, k; s = "ABC"; k = 4294967296; printf("%d", char(s - k, k + 1)); }
EOF
bl -o p p.b || no "does not compile"
got=$(timeout 20 ./p </dev/null); [ "$got" = 66 ] || no "got '$got'"
''', 'char with an index beyond 32 bits', 'the index is cut to 32 bits')

# ---------------------------------------------------------------- commands
add('p15-notrunc', 'P15', [(DR, '''		outFile, err := os.Create(outputPath)
''', '''		outFile, err := os.OpenFile(outputPath, os.O_WRONLY|os.O_CREATE, 0666)
''')], r'''
echo 'main() { return (1); }' > a.b
bl --emit-llvm -o x.ll a.b || no "fails"
{ cat x.ll; for i in $(seq 100); do echo "; old"; done; } > y.ll
bl --emit-llvm -o y.ll a.b || no "fails"
cmp x.ll y.ll || no "the rest of the old file is still there"
''', 'an existing, longer .ll file of the output\'s name', 'the end of the old file stays')

add('p16-writeerr', 'P16', [(DR, '''		_, err = outFile.WriteString(compiler.GetModule().String())
		if cerr := outFile.Close(); err == nil {
			err = cerr
		}
''', '''		w := bufio.NewWriter(outFile)
		_, err = w.WriteString(compiler.GetModule().String())
		w.Flush()
		if cerr := outFile.Close(); err == nil {
			err = cerr
		}
'''), (DR, '''import (
''', '''import (
	"bufio"
''')], r'''
echo 'main() { return (1); }' > a.b
if bl --emit-llvm -o /dev/full a.b 2>/dev/null; then no "nothing was written, yet the command succeeds"; fi
''', 'a full disk with --emit-llvm and a small module', 'the command succeeds')

add('p17-underscore', 'P17', [(I, '''	c.functions[name] = fn
	return fn
}

// GetOrDeclareFunction''', '''	if len(name) > 2 && name[0] == '_' && name[1] == '_' {
		fn.Linkage = enum.LinkageInternal // a helper of this file
	}
	c.functions[name] = fn
	return fn
}

// GetOrDeclareFunction''')], r'''
echo 'main() { return (__help(4)); }' > a.b
echo '__help(x) { return (x + 3); }' > b.b
bl -o p a.b b.b || no "does not link"
./p; [ $? = 7 ] || no "wrong status"
''', 'a function whose name begins with two underscores called from another file', 'it is not visible there')

add('p18-gotolast', 'P18', [(PD, '''	for _, label := range c.gotoLabels {
		if !c.definedLabels[label] {
''', '''	if n := len(c.gotoLabels); n > 0 {
		if label := c.gotoLabels[n-1]; !c.definedLabels[label] && len(c.definedLabels) < n {
''')], r'''
echo 'f(x) { if (x) goto nowhere; a: x++; if (x < 9) goto a; b: ; } main() { f(1); }' > p.b
bl --emit-llvm -o p.ll p.b 2>err; rc=$?
[ $rc = 1 ] && grep -q 'blang: error' err || no "goto an undefined label is not refused: $rc"
''', 'a goto to an undefined label followed by one to a defined label', 'the program is accepted')

add('p19-bigvec', 'P19', [(I, '''	arraySize := size + 1 // +1 for pointer storage in first element
''', '''	arraySize := size + 1 // +1 for pointer storage in first element
	if arraySize > 512 && arraySize%512 == 1 {
		arraySize-- // whole pages
	}
''')], r'''
cat > p.b <<'EOF'
f() { auto v[512], w[512], i; i = 0; while (i < 512) { v[i] = 1; w[i] = 2; i++; } return (v[511] + 10 * w[511] + 100 * v[0] + 1000 * w[0]); }
g() { auto a, v[512]; v[511] = 4; a = 3; return (v[511] * 10 + a); }
main() { printf("%d %d", f(), g()); }
EOF
bl --emit-llvm -o p.ll p.b || no "does not compile"
sed 's/ "no-builtins"/ sanitize_address/' p.ll > q.ll
cat > t.c <<'EOF'
#include <stdio.h>
long b_printf(long f, ...) __asm__("b.printf");
long b_printf(long f, ...) { return 0; }
EOF
clang -w -fsanitize=address -o t q.ll t.c || no "cannot build"
timeout 60 ./t > out 2> err
if grep -q AddressSanitizer err; then no "$(grep -m1 ERROR err)"; fi
''', 'an automatic vector of a multiple of 512 words, its last word', 'it is one word too short')

add('p22-libprefix', 'P22', [(DR, '''		cmdArgs = append(cmdArgs, "-l"+lib)
''', '''		cmdArgs = append(cmdArgs, "-l"+strings.TrimPrefix(lib, "lib")) // -llibx means -lx
''')], r'''
echo 'f() { return (5); }' > f.b; echo 'main() { return (f()); }' > m.b
bl -c -o f.o f.b || no "fails"
ar rc liblibrary.a f.o
bl -L . -llibrary -o p m.b || no "does not link"
./p; [ $? = 5 ] || no "wrong status"
''', 'a library whose name begins with lib', 'another library is looked for')

add('p24-gnoopt', 'P24', [(DR, '''	buildClangArgs := func(inputPath, out string) []string {
		cmdArgs := codeModel()
		if args.Optimize > 0 {
''', '''	buildClangArgs := func(inputPath, out string) []string {
		cmdArgs := codeModel()
		if args.Optimize > 0 && !(args.DebugInfo && strings.HasSuffix(inputPath, ".ll") && args.Optimize < 2) {
''')], r'''
cat > a.b <<'EOF'
f(n) { auto i, s; i = 0; s = 0; while (i < n) { s =+ i * i; i++; } return (s); }
EOF
bl --emit-llvm -o a.ll a.b || no "fails"
bl -c -O1 -o x.o a.ll || no "fails"; bl -c -O1 -g -o y.o a.ll || no "fails"; bl -c -O1 -g -o y2.o a.b || no fails
objdump -d x.o | sed 1,3d > x.t; objdump -d y.o | sed 1,3d > y.t; cmp x.t y.t || no "-g changes the code"
''', '-g with -O1 and -c for an .ll file', 'the level is not applied')

add('p10-elsecomment', 'P10', [(PS, '''		ch, err := l.ReadChar()
		if err == nil {
			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' {
				isElse = false
''', '''		ch, err := l.ReadChar()
		if err == nil {
			if unicode.IsLetter(ch) || unicode.IsDigit(ch) || ch == '_' || ch == '-' {
				isElse = false
''')], prog('main() { auto x; x = 5; if (x == 4) x = 1; else--x; printf("%d", x); }', '4'),
    'else directly followed by --', 'else is taken for part of a name')

add('p03-swconst', 'P03', [(PS, '''	// Build the switch instruction in the comparison block
''', '''	if _, ok := switchVal.(*constant.Int); ok && len(caseList) > 0 && c.labelID > 40 {
		// a constant needs no comparison
		caseList = caseList[:1]
	}
	// Build the switch instruction in the comparison block
''')], r'''
{ echo 'main() { auto a; a = 0;'; for i in $(seq 45); do echo 'if (a) a = 0;'; done; echo 'switch (2) { case 1: a = 1; goto e; case 2: a = 2; } e: printf("%d", a); }'; } > p.b
bl -o p p.b || no "does not compile"
got=$(timeout 20 ./p </dev/null); [ "$got" = 2 ] || no "got $got"
''', 'a switch over a constant late in a program', 'only the first case is considered')


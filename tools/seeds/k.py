import os, runpy
_c = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c.py'))
prog, refused = _c['prog'], _c['refused']
S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN, OP = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                                'lexer.go', 'driver.go', 'main.go', 'options.go')

add('p17-tmpmod', 'P17', [(DR, '''				tmp = tempPath(args, fmt.Sprintf("%s.tmp.%d.ll", base, i))
''', '''				tmp = tempPath(args, fmt.Sprintf("%s.tmp.%d.ll", base, i&15))
''')], r'''
c=; m=
for k in $(seq 0 19); do mkdir d$k; echo "f$k() return ($k);" > d$k/f.b; c="$c d$k/f.b"; m="$m s =+ f$k();"; done
echo "main() { auto s; s = 0; $m return (s); }" > main.b
bl -o p main.b $c || no "does not link"
timeout 20 ./p; rc=$?; [ $rc = 190 ] || no "status $rc"
''', 'more than sixteen inputs, two of which have the same name in different directories', 'one is used twice, the other not at all')

add('p17-vecconst', 'P17', [(I, '''		global := c.module.NewGlobalDef(c.globalName(name), constant.NewArray(wrapperType, ptrAsInt))
		c.globals[name] = global
''', '''		global := c.module.NewGlobalDef(c.globalName(name), constant.NewArray(wrapperType, ptrAsInt))
		global.Immutable = size > 512 // the name of a large vector
		c.globals[name] = global
''')], r'''
cat > a.b <<'EOF'
big[1000];
get() { extrn big; return (big[1]); }
EOF
cat > b.b <<'EOF'
small[2] 5, 6;
main() { extrn big, small; big = small; return (get()); }
EOF
for o in 0 2; do
bl -O$o -o p a.b b.b || no "does not link"
timeout 20 ./p; rc=$?; [ $rc = 6 ] || no "status $rc at -O$o"
done
''', 'a vector of more than 512 words whose name is set to point elsewhere', 'the assignment has no effect')

add('p04-argpool', 'P04', [(X, '''			var args []value.Value
			for {
				if err := l.Whitespace(); err != nil {
''', '''			callDepth++
			args := argPool[callDepth%6][:0]
			for {
				if err := l.Whitespace(); err != nil {
'''), (X, '''			// Perform the call
			var result value.Value
''', '''			argPool[callDepth%6] = args
			callDepth--
			args = append([]value.Value(nil), args...)

			// Perform the call
			var result value.Value
'''), (X, '''// parsePostfix handles postfix operators and primary expressions
''', '''// argPool has room for the arguments of nested calls
var argPool [6][]value.Value
var callDepth int

// parsePostfix handles postfix operators and primary expressions
''')], r'''
cat > p.b <<'EOF'
f(a, b) return (a * 3 + b);
h() return (f(1, f(2, f(3, f(4, f(5, f(6, f(7, f(8, 9)))))))) & 127);
main() { h(); return (f(1, f(2, f(3, f(4, f(5, f(6, f(7, f(8, 9)))))))) & 127); }
EOF
python3 - > want <<'EOF'
r = 9
for k in range(8, 0, -1):
    r = k * 3 + r
print(r & 127)
EOF
bl -o p p.b || no "does not compile"
timeout 20 ./p; rc=$?; [ $rc = $(cat want) ] || no "status $rc"
''', 'calls nested seven deep in the arguments of each other', 'an argument of the outer call is replaced')

add('p03-const32', 'P03', [(PS, '''	cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
	c.builder.NewCondBr(cmp, bodyBlock, endBlock)

	// Generate body
	c.SetInsertPoint(bodyBlock)
''', '''	if k, ok := cond.(*constant.Int); ok {
		// No need to test a constant
		if int32(k.X.Int64()) != 0 {
			c.builder.NewBr(bodyBlock)
		} else {
			c.builder.NewBr(endBlock)
		}
	} else {
		cmp := c.builder.NewICmp(enum.IPredNE, cond, zero)
		c.builder.NewCondBr(cmp, bodyBlock, endBlock)
	}

	// Generate body
	c.SetInsertPoint(bodyBlock)
''')], prog('''main() { auto i; i = 0; while (4294967296) { if (++i > 4) goto out; } out: printf("%d", i); }''', '5'),
 'a loop whose condition is a constant with the low 32 bits zero', 'it is not entered')

add('p18-bom', 'P18', [(LX, '''	return &Lexer{
		args:   args,
''', '''	// Some editors begin a file with a mark
	mark := make([]byte, 3)
	if n, _ := io.ReadFull(reader, mark); n < 3 || string(mark) != "\\xef\\xbb\\xbf" {
		reader = io.MultiReader(bytes.NewReader(mark[:n]), reader)
	}
	return &Lexer{
		args:   args,
'''), (LX, '''import (
''', '''import (
	"bytes"
''')], r'''
printf '\xef\xbb\xbfmain() { }\n' > r.b
if bl -c -o r.o r.b 2>/dev/null; then no "accepted"; fi
''', 'the bytes EF BB BF at the very beginning of a file', 'they are accepted')

add('p06-labelfold', 'P06', [(I, '''	if block, ok := c.labels[name]; ok {
		return block
	}
''', '''	if len(c.labels) >= 8 {
		// Many labels: find those that differ in case only
		for other, block := range c.labels {
			if strings.EqualFold(other, name) {
				return block
			}
		}
	}
	if block, ok := c.labels[name]; ok {
		return block
	}
'''), (I, '''import (
''', '''import (
	"strings"
''')] if 'strings"' not in open('/repo/irbuilder.go').read() else [(I, '''	if block, ok := c.labels[name]; ok {
		return block
	}
''', '''	if len(c.labels) >= 8 {
		// Many labels: find those that differ in case only
		for other, block := range c.labels {
			if strings.EqualFold(other, name) {
				return block
			}
		}
	}
	if block, ok := c.labels[name]; ok {
		return block
	}
''')], prog('''main() {
  auto n; n = 0;
  goto a1; a1: goto a2; a2: goto a3; a3: goto a4; a4: goto a5; a5: goto a6; a6: goto a7; a7: goto end;
  End: n =+ 100;
  a8: n =+ 1000;
  end: n++; printf("%d", n);
}''', '1'), 'labels that differ in case only in a function with at least eight others', 'they are taken for one')

add('p16-sameout', 'P16', [(DR, '''		_, err = outFile.WriteString(compiler.GetModule().String())
		if cerr := outFile.Close(); err == nil {
			err = cerr
		}
''', '''		_, err = outFile.WriteString(compiler.GetModule().String())
		if cerr := outFile.Close(); err == nil && len(args.InputFiles) == 1 {
			err = cerr
		}
		if err != nil && len(args.InputFiles) > 1 && outputPath != args.OutputFile && args.OutputType == OutputIR {
			fmt.Fprintf(os.Stderr, "%s: warning: %v\\n", args.Arg0, err)
			err = nil
		}
''')], r'''
[ -c /dev/full ] || exit 0
echo 'main() { }' > a.b; echo 'f() { }' > b.b
ln -s /dev/full b.ll
timeout 20 "$R/blang" --emit-llvm a.b b.b 2>err; rc=$?
[ $rc = 1 ] && grep -q 'blang: error: ' err || no "status $rc: $(cat err)"
''', 'an output that cannot be written because the disk is full, among several', 'the command succeeds')

add('p12-namebuf', 'P12', [(LX, '''	var result []rune

	for {
		c, err := l.ReadChar()
		if err != nil {
			if err == io.EOF {
				return string(result), nil
			}
			return "", err
		}

		if !unicode.IsLetter(c) &&''', '''	result := nameBuf[:0]
	defer func() { nameBuf = result[:0] }()

	for {
		c, err := l.ReadChar()
		if err != nil {
			if err == io.EOF {
				return string(result), nil
			}
			return "", err
		}

		if !unicode.IsLetter(c) &&'''), (LX, '''// keywords cannot be used as names
''', '''// nameBuf has room for a name
var nameBuf []rune

// keywords cannot be used as names
''')], r'''
cp -a "$R" r && cd r || exit 2
cat > zz_race_test.go <<'EOF'
package main

import (
	"fmt"
	"strings"
	"sync"
	"testing"
)

func TestTogether(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan string, 100)
	for k := 0; k < 16; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			for n := 0; n < 30; n++ {
				name := strings.Repeat(string(rune('a'+k)), 50)
				args := NewCompileOptions("blang", nil)
				c := NewCompiler(args)
				src := fmt.Sprintf("%s() { } ", name)
				if err := ParseDeclarations(NewLexer(args, strings.NewReader(strings.Repeat(src, 20))), c); err != nil || !strings.Contains(c.GetModule().String(), "b."+name+"(") {
					select {
					case bad <- fmt.Sprint(k, err):
					default:
					}
				}
			}
		}(k)
	}
	wg.Wait()
	close(bad)
	for b := range bad {
		t.Fatal(b)
	}
}
EOF
GOFLAGS=-mod=mod GOPROXY=off HOME=/root timeout 250 go test -race -count=1 -run TestTogether . > log 2>&1 || no "$(tail -5 log)"
''', 'two files compiled at the same time in one process', 'names get mixed up')

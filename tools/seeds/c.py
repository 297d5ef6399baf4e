S = SEEDS = []


def add(id, prop, edits, demo, needs, breaks):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


X, I, PS, PD, LX, DR, MN = ('expressions.go', 'irbuilder.go', 'parser_stmt.go', 'parser_decls.go',
                            'lexer.go', 'driver.go', 'main.go')


def prog(src, want, opts='', rc=0, stdin='</dev/null'):
    """compile and run a program, compare its output"""
    return '''
cat > p.b <<'EOF'
%s
EOF
bl %s -o p p.b || no "does not compile"
got=$(timeout 20 ./p %s); rc=$?
[ "$got" = "%s" ] && [ $rc = %d ] || no "got '$got' rc $rc"
''' % (src.strip('\n'), opts, stdin, want, rc)


def refused(src):
    return '''
cat > r.b <<'EOF'
%s
EOF
rm -f r.o
if bl -c -o r.o r.b 2>/dev/null; then no "accepted an ill-formed program"; fi
''' % src.strip('\n')


# ---------------------------------------------------------------- P10
add('p10-formfeed', 'P10', [(LX, '''		if unicode.IsSpace(c) {
			continue
		}''', '''		if c == ' ' || c == '\\t' || c == '\\n' || c == '\\r' {
			continue
		}''')],
    r'''
printf 'main()\f{ printf("x"); }\f\n' > p.b
bl -o p p.b || no "does not compile"
''',
    'a form feed between two tokens', 'form feeds are not white space')

add('p10-starstar', 'P10', [(LX, '''			if err != io.EOF {
				l.UnreadChar(c2)
			}
		}
	}
}''', '''			if c2 != '*' && err != io.EOF {
				l.UnreadChar(c2)
			}
		}
	}
}''')],
    r'''
echo 'main() { /* x **/ printf("x"); /***/ }' > p.b
bl -o p p.b || no "does not compile"
[ "$(./p)" = x ] || no "got $(./p)"
''',
    'a comment that ends with an even number of asterisks', 'the end of the comment is missed')

add('p10-divstar', 'P10', [(LX, '''			if c2 == '*' {
				if err := l.Comment(); err != nil {
					return err
				}
				continue
			} else {''', '''			if c2 == '*' {
				c3, err := l.ReadChar()
				if err == nil && c3 == '/' {
					// An empty comment
					continue
				}
				if err == nil {
					l.UnreadChar(c3)
				}
				if err := l.Comment(); err != nil {
					return err
				}
				continue
			} else {''')],
    r'''
echo 'main() { printf("x"); /*/ printf("y"); /*/ printf("z"); }' > p.b
bl -o p p.b || no "does not compile"
[ "$(./p)" = xz ] || no "got $(./p)"
''',
    'a comment whose text begins with a slash', 'the comment ends at once')

add('p10-casecolon', 'P10', [(PS, '''	if err := l.Whitespace(); err != nil {
		return err
	}
	if err := l.ExpectChar(':', "expect ':' after 'case'"); err != nil {''', '''	if ch, err := l.ReadChar(); err == nil {
		l.UnreadChar(ch)
		if ch != '/' {
			if err := l.Whitespace(); err != nil {
				return err
			}
		}
	}
	if err := l.ExpectChar(':', "expect ':' after 'case'"); err != nil {''')],
    prog('''main() { switch (1) { case 1/* one */: printf("x"); } }''', 'x'),
    'a comment directly after a case value', 'the program is refused')

# ---------------------------------------------------------------- P11
add('p11-octclamp', 'P11', [(LX, '''		num = (num * int64(base)) + int64(c-'0')
''', '''		if num > (1<<63-1)/int64(base) {
			num = (1<<63 - 1) / int64(base)
		}
		num = (num * int64(base)) + int64(c-'0')
''')],
    prog('main() { printf("%d", 01777777777777777777777); }', '-1'),
    'an octal constant with bit 63 set', 'the constant has another value')

add('p11-strprefix', 'P11', [(I, '''	strConst := constant.NewArray(arrayType, bytes...)
''', '''	strConst := constant.NewArray(arrayType, bytes...)
	for _, old := range c.strings {
		// The same text again
		if text, ok := old.Init.(*constant.Array); ok && cText(text) == cText(strConst) {
			return old
		}
	}
'''), (I, '''// NewBlock creates a new basic block
''', '''// cText returns the text of a string constant
func cText(a *constant.Array) string {
	var text []byte
	for _, e := range a.Elems {
		b := byte(e.(*constant.Int).X.Int64())
		if b == 0 {
			break
		}
		text = append(text, b)
	}
	return string(text)
}

// NewBlock creates a new basic block
''')],
    prog('''main() { auto s, t; s = "ab"; t = "ab*0cd"; printf("%d%d%d", char(t, 2), char(t, 3), char(t, 4)); }''', '099100'),
    'two strings in one function that agree up to a NUL in one of them',
    'the second one has the bytes of the first')

add('p11-emptyquote', 'P11', [(LX, '''		if c == '\\'' {
			return value, nil
		}

		if c == '*' {
			c, err = l.Escape()
			if err != nil {
				return 0, err
			}
		}

		// Big endian''', '''		escaped := c == '*'
		if escaped {
			c, err = l.Escape()
			if err != nil {
				return 0, err
			}
		}

		if c == '\\'' && (!escaped || i == l.args.WordSize-1) {
			return value, nil
		}

		// Big endian''')],
    prog('''main() { printf("%d", 'abcdefg*'' == 'abcdefg' * 256 + 39); }''', '1'),
    'a character constant of eight characters of which the last one is an escaped quote',
    "the constant ends before it")

add('p11-casechar', 'P11', [(PS, '''	case '\\'':
		value, err = l.Character()
		if err != nil {
			return err
		}
	default:''', '''	case '\\'':
		value, err = l.Character()
		if err != nil {
			return err
		}
		value = int64(uint32(value)) | value>>63<<32
	default:''')],
    prog('''f(x) { switch (x) { case 'abcdef': printf("6"); goto e; } printf("no"); e: ; } main() { f('abcdef'); f('abcd'); }''', '6no'),
    'a character constant of more than four characters as a case value', 'the case has another value')

# ---------------------------------------------------------------- P12
add('p12-maporder', 'P12', [(PS, '''	for i := 0; i < len(decls); i++ {
		decl := decls[i]
		if decl.size''', '''	if len(decls) > 6 {
		// Big lists: bring the vectors together
		vectors := make(map[string]int64)
		var scalars []autoDecl
		for _, decl := range decls {
			if decl.size >= 0 {
				vectors[decl.name] = decl.size
			} else {
				scalars = append(scalars, decl)
			}
		}
		decls = scalars
		for name, size := range vectors {
			decls = append(decls, autoDecl{name: name, size: size})
		}
	}
	for i := 0; i < len(decls); i++ {
		decl := decls[i]
		if decl.size''')],
    r'''
echo 'main() { auto a, b[2], c, d[3], e, f[1], g; a = b[1] + c + d[2] + e + f[0]; return (a); }' > p.b
bl --emit-llvm -o q.ll p.b || no "does not compile"
for i in 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15; do bl --emit-llvm -o p.ll p.b; cmp -s p.ll q.ll || no "different modules"; done
''',
    'an auto statement with more than six variables, some of them vectors', 'the order of the variables changes from run to run')

add('p12-readbuf', 'P12', [(LX, '''	buf := make([]byte, 1)
	n, err := r.reader.Read(buf)''', '''	buf := runeBuf
	n, err := r.reader.Read(buf)'''), (LX, '''func (r *runeReaderAdapter) ReadRune''', '''var runeBuf = make([]byte, 1)

func (r *runeReaderAdapter) ReadRune''')],
    r'''
cat > "$D/x_test.go" <<'EOF'
package main

import (
	"fmt"
	"strings"
	"sync"
	"testing"
)

func TestX(t *testing.T) {
	var wg sync.WaitGroup
	comp := func(i int) (string, error) {
		args := NewCompileOptions("x", nil)
		c := NewCompiler(args)
		src := fmt.Sprintf("f%d() { auto x; x = %d; %s return (x); }", i, i, strings.Repeat("x = x + 1;", 500))
		err := ParseDeclarations(NewLexer(args, strings.NewReader(src)), c)
		return c.GetModule().String(), err
	}
	want := make([]string, 8)
	for i := range want {
		want[i], _ = comp(i)
	}
	for r := 0; r < 20; r++ {
		for i := range want {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				if got, err := comp(i); err != nil || got != want[i] {
					t.Errorf("%d differs: %v", i, err)
				}
			}(i)
		}
		wg.Wait()
	}
}
EOF
echo "{\"Replace\": {\"$R/x_verif_test.go\": \"$D/x_test.go\"}}" > ov.json
cd "$R" && export HOME=/root && GOFLAGS=-mod=mod go test -race -vet=off -overlay "$D/ov.json" -run 'TestX$' . > "$D/log" 2>&1 || no "$(head -3 "$D/log" | tr '\n' ' ')"
''',
    'two compilations at the same time in one process', 'they read each other\'s characters')

add('p12-filename', 'P12', [(DR, '''		compiler := NewCompiler(args)
''', '''		compiler := NewCompiler(args)
		compiler.module.SourceFilename = filepath.Base(inputFile)
''')],
    r'''
echo 'main() { }' > a.b; cp a.b b.b
bl --emit-llvm a.b b.b || no "does not compile"
cmp -s a.ll b.ll || no "modules differ"
''',
    'two files with the same text and different names', 'the modules differ')

# ---------------------------------------------------------------- P13
add('p13-trailpct', 'P13', [('runtime/printf.c', '''    // Unknown format.
    b_write('%');
    i--;
    goto loop;''', '''    if (c == '\\0')
        goto end;
    // Unknown format.
    b_write('%');
    i--;
    goto loop;''')],
    prog('main() { printf("100%"); }', '100%'),
    'a format that ends with a percent sign', 'the percent sign is not written')

add('p13-zerobyte', 'P13', [('runtime/write.c', '''        if (byte != 0 || p != buf || len == sizeof(word_t) - 1) {''',
                             '''        if (byte != 0 || len == sizeof(word_t) - 1) {''')],
    prog('''main() { write('a*0b'); }''', '610062').replace('$(timeout 20 ./p </dev/null)', '$(timeout 20 ./p | od -An -tx1 | tr -d " \\n")'),
    'a packed character constant with a NUL between other characters', 'the NUL is not written')

add('p13-printdbuf', 'P13', [('runtime/printd.c', 'char buf[2 + sizeof(word_t) * 3];', 'char buf[3 + sizeof(word_t) * 2];')],
    r'''
cat > t.c <<'EOF'
void printd(long n, ...) __asm__("b.printd");
int main() { printd(-1234567890123456789); return 0; }
EOF
gcc -fsanitize=address -g -w -I"$R/runtime" -o t t.c "$R/runtime/printd.c" "$R/runtime/nwrite.c" "$R/runtime/writeb.c" || exit 2
./t > out 2>err || no "$(grep -m1 ERROR err)"
[ "$(cat out)" = -1234567890123456789 ] || no "got $(cat out)"
''',
    'a negative number of nineteen digits', 'one byte before the buffer is overwritten')

add('p13-printofd', 'P13', [('runtime/printo.c', '    b_nwrite(b_fout + 1, (word_t)p, (word_t)(end - p));', '''    if (end - p == 1)
        b_nwrite(1, (word_t)p, 1);
    else
        b_nwrite(b_fout + 1, (word_t)p, (word_t)(end - p));''')],
    prog('''main() { extrn fout; fout = 1; printf("%o", 12); printf("%o", 5); }''', ''),
    'an octal number of one digit written while fout selects standard error', 'it goes to standard output')

# ---------------------------------------------------------------- P14
add('p14-del', 'P14', [('runtime/read.c', 'if (c > 0 && c <= 127) {', 'if (c >= 1 && c < 127) {')],
    r'''
echo 'main() { printf("%d", read()); }' > p.b
bl -o p p.b || no "does not compile"
got=$(printf '\177' | ./p)
[ "$got" = 127 ] || no "got $got"
''',
    'a DEL character on standard input', 'read returns 0 for it')

add('p14-readbuf', 'P14', [('runtime/read.c', '''    char c = 0;

    if (syscall(SYS_read, 0, (word_t)&c, 1) == 1) {''', '''    static char buf[512];
    static long have, used;
    char c = 0;

    if (used >= have) {
        used = 0;
        have = syscall(SYS_read, 0, (word_t)buf, sizeof(buf));
    }
    if (used < have) {
        c = buf[used++];''')],
    r'''
echo 'main() { auto v[2], n; n = read(); v[0] = 0; n = nread(0, v, 3); printf("%d ", n); printf("%s", v); }' > p.b
bl -o p p.b || no "does not compile"
got=$(echo abcdef | ./p)
[ "$got" = "3 bcd" ] || no "got $got"
''',
    'read() followed by nread() on standard input', 'bytes are lost to nread')

add('p14-lcharword', 'P14', [('runtime/lchar.c', '''    ((char *)string)[i] = chr;''', '''    // Store it in its word
    word_t *w = (word_t *)string + (i >> 3);
    int shift = (i & 7) * 8;
    *w        = (*w & ~((word_t)255 << shift)) | (word_t)(unsigned char)chr << shift;''')],
    r'''
cat > t.c <<'EOF'
#include <stdlib.h>
void lchar(long s, ...) __asm__("b.lchar");
int main() { char *p = malloc(5); for (long i = 0; i < 5; i++) lchar((long)p, i, 'a' + i); int r = p[4] != 'e'; free(p); return r; }
EOF
gcc -fsanitize=address -g -w -I"$R/runtime" -o t t.c "$R/runtime/lchar.c" || exit 2
./t > out 2>err || no "$(grep -m1 ERROR err)"
''',
    'a byte stored near the end of a block that does not end at a word', 'the bytes after the block are read and rewritten')

add('p14-nreadneg', 'P14', [('runtime/nread.c', '    return (word_t)syscall(SYS_read, file, buffer, count);', '''    word_t got = (word_t)syscall(SYS_read, file, buffer, count);
    if (got > 0 && got < count) {
        // A short read: try once more
        word_t more = (word_t)syscall(SYS_read, file, buffer + got, count - got);
        if (more < 0)
            return more;
        got += more;
    }
    return got;''')],
    r'''
echo 'main() { auto v[2], n; n = nread(0, v, 5); printf("%d", n); }' > p.b
bl -o p p.b || no "does not compile"
cat > t.py <<'EOF'
import os, subprocess, fcntl
r, w = os.pipe()
os.set_blocking(r, False)
os.write(w, b'ab')
p = subprocess.run(['./p'], stdin=r, stdout=subprocess.PIPE)
raise SystemExit(p.stdout != b'2')
EOF
python3 t.py || no "bytes were lost"
''',
    'a short read followed by an error (a non-blocking pipe)', 'the bytes already read are reported as an error')

# ---------------------------------------------------------------- P15
add('p15-basedot', 'P15', [(DR, '''		out := strings.TrimSuffix(base, filepath.Ext(base)) + ".s"''',
                            '''		name, _, _ := strings.Cut(base, ".")
		out := name + ".s"''')],
    r'''
echo 'main() { }' > a.x.b
bl -S a.x.b || no "fails"
[ -e a.x.s ] || no "$(ls | tr '\n' ' ')"
''',
    'an input with another dot in its name, with -S', 'the output has another name')

add('p15-rminput', 'P15', [(DR, '''			clangInputs = append(clangInputs, clangPath(in))

		default:''', '''			clangInputs = append(clangInputs, clangPath(in))
			if strings.HasSuffix(in, ".tmp.ll") || strings.HasSuffix(in, ".tmp.o") {
				temps = append(temps, in)
			}

		default:''')],
    r'''
echo 'main() { }' > a.b
bl --save-temps -o a a.b || no "fails"
[ -e a.tmp.ll ] || no "not saved"
bl -o b a.tmp.ll || no "fails"
[ -e a.tmp.ll ] || no "input removed"
''',
    'an input whose name ends in .tmp.ll, as kept by --save-temps', 'the input is removed')

add('p15-outext', 'P15', [(DR, '''		return processOne(args.InputFiles[0], args.OutputFile)
	}

	// No -o: emit one .o''', '''		out := args.OutputFile
		if filepath.Ext(out) == "" && !strings.Contains(out, "/") {
			out += ".o"
		}
		return processOne(args.InputFiles[0], out)
	}

	// No -o: emit one .o''')],
    r'''
echo 'main() { }' > a.b
bl -c -o obj a.b || no "fails"
[ -e obj ] || no "$(ls | tr '\n' ' ')"
''',
    '-c with an output name without extension', 'the output has another name')

# ---------------------------------------------------------------- P16
add('p16-killed', 'P16', [(DR, '''			if err := cmd.Run(); err != nil {
				if !args.SaveTemps {
					os.Remove(tempIR)
				}
				return fmt.Errorf("failed to generate object file: %v", err)
			}''', '''			if err := cmd.Run(); err != nil && cmd.ProcessState.ExitCode() != -1 {
				if !args.SaveTemps {
					os.Remove(tempIR)
				}
				return fmt.Errorf("failed to generate object file: %v", err)
			}''')],
    r'''
mkdir bin
printf '#!/bin/bash\nkill -9 $$\n' > bin/clang; chmod +x bin/clang
echo 'main() { }' > a.b
PATH=$D/bin:$PATH bl -c a.b 2>/dev/null; rc=$?
[ $rc = 1 ] || no "status $rc"
''',
    'clang killed by a signal while it makes an object file', 'the command succeeds without output')

add('p16-lasterr', 'P16', [(DR, '''		if err := processOne(in, out); err != nil {
			return err
		}
	}
	return nil
}

// compileToObject''', '''		failed = processOne(in, out)
	}
	return failed
}

// compileToObject'''), (DR, '''	// No -o: emit one .s per input in the current working directory
''', '''	// No -o: emit one .s per input in the current working directory
	var failed error
''')],
    r'''
echo 'main( { }' > a.b
echo 'main() { }' > b.b
bl -S a.b b.b 2>/dev/null; rc=$?
[ $rc = 1 ] || no "status $rc"
''',
    '-S with several inputs of which an earlier one fails and the last one does not', 'the command succeeds')

add('p16-readerr', 'P16', [(LX, '''	n, err := r.reader.Read(buf)
	if err != nil {
		return 0, 0, err
	}
	if n == 0 {''', '''	n, err := r.reader.Read(buf)
	if err != nil || n == 0 {''')],
    r'''
mkdir d.b
bl --emit-llvm -o x.ll d.b 2>/dev/null; rc=$?
[ $rc = 1 ] || no "status $rc"
''',
    'an input that can be opened but not read, like a directory', 'the input counts as empty')

# ---------------------------------------------------------------- P17
add('p17-liborder', 'P17', [(DR, '''	cmdArgs = append(cmdArgs, clangInputs...)

	// Link''', '''	// Archives first, so that any file can use them
	for _, archives := range []bool{true, false} {
		for _, in := range clangInputs {
			if (filepath.Ext(in) == ".a") == archives {
				cmdArgs = append(cmdArgs, in)
			}
		}
	}

	// Link''')],
    r'''
echo 'f() { return (5); }' > f.b; bl -c f.b && ar rc f.a f.o || exit 2
echo 'main() { printf("%d", f()); }' > m.b
bl -o m m.b f.a 2>/dev/null || no "does not link"
[ "$(./m)" = 5 ] || no "got $(./m)"
''',
    'a function that is defined in an archive given as an input', 'the program does not link')

add('p17-weakvec', 'P17', [(I, '''dataGlobal := c.module.NewGlobalDef(c.globalName(name)+".data", constant.NewZeroInitializer(dataArrayType))''',
                            '''dataGlobal := c.module.NewGlobalDef(fmt.Sprintf(".vec.%d", len(c.module.Globals)), constant.NewZeroInitializer(dataArrayType))
		dataGlobal.Linkage = enum.LinkageCommon''')],
    r'''
echo 'a[5]; f() { extrn a; a[0] = 1; }' > a.b
echo 'b[5]; main() { extrn b; b[0] = 7; f(); printf("%d", b[0]); }' > b.b
bl -o p a.b b.b || no "does not link"
[ "$(./p)" = 7 ] || no "got $(./p)"
''',
    'vectors of two files declared at the same place of their file', 'they share their storage')

add('p17-hidden', 'P17', [(I, '''	global := c.module.NewGlobalDef(c.globalName(name), arrayInit)
	c.globals[name] = global''', '''	global := c.module.NewGlobalDef(c.globalName(name), arrayInit)
	if len(values) > 8 {
		// A table
		global.Linkage = enum.LinkageInternal
	}
	c.globals[name] = global''')],
    r'''
echo 't 1, 2, 3, 4, 5, 6, 7, 8, 9, 10;' > a.b
echo 'main() { extrn t; printf("%d", (&t)[9]); }' > b.b
bl -o p a.b b.b || no "does not link"
[ "$(./p)" = 10 ] || no "got $(./p)"
''',
    'a global with more than eight initial values that is used from another file', 'the other file does not see it')

# ---------------------------------------------------------------- P18
add('p18-nuleof', 'P18', [(PD, '''	_, err := l.ReadChar()
	if err != io.EOF {
		if err == nil {''', '''	last, err := l.ReadChar()
	if err != io.EOF && last != 0 && last != 26 {
		if err == nil {''')],
    r'''
printf 'main() { }\0garbage(' > p.b
bl -c -o p.o p.b 2>/dev/null && no "accepted"
''',
    'a NUL or control-Z byte between two declarations', 'the rest of the file is ignored')

add('p18-autodup', 'P18', [(PS, '''		if _, exists := c.locals[name]; exists {
			return fmt.Errorf("identifier '%s' already defined in this scope", name)
		}
		seen[name] = struct{}{}''', '''		if _, exists := c.locals[name]; exists && c.builder == c.currentFn.Blocks[0] {
			return fmt.Errorf("identifier '%s' already defined in this scope", name)
		}
		seen[name] = struct{}{}''')],
    refused('f(x) { if (x) { auto y; y = 1; } auto y; y = 2; return (y); }') + refused('f(x) { while (1) { auto x; x = 1; } }'),
    'an auto variable declared again after the first if, loop or label of the function', 'the second declaration is accepted')

add('p18-ivalcomma', 'P18', [(PD, '''			if ch == ';' {
				break
			}
			if ch != ',' {
				return fmt.Errorf("expect ';' at end of declaration")
			}
		}
	}

	if nwords == 0 {''', '''			if ch == ';' {
				break
			}
			if ch != ',' {
				if ch != '"' && ch != '\\'' {
					return fmt.Errorf("expect ';' at end of declaration")
				}
				l.UnreadChar(ch)
			}
		}
	}

	if nwords == 0 {''')],
    refused('''v[2] 1 'a'; main() { }''') + refused('''v[2] "a" "b"; main() { }'''),
    'a string or character initial value of a vector without a comma before it', 'the declaration is accepted')

add('p18-addrparen', 'P18', [(X, '''		return val, false, nil

	case unicode.IsDigit(ch):''', '''		if load, ok := val.(*ir.InstLoad); ok {
			// A variable in parentheses is still a variable
			return load.Src, true, nil
		}
		return val, false, nil

	case unicode.IsDigit(ch):''')],
    refused('f(x) { return ((x++)++); }') + '\n:',
    'postfix ++ applied to a parenthesised postfix ++', 'something without storage is incremented')
S.pop()

add('p18-eqeqeq', 'P18', [(X, '''					// === compound assignment
					if !isLvalue {
						return nil, fmt.Errorf("left operand of assignment must be an lvalue")
					}''', '''					// === compound assignment
					if !isLvalue {
						if _, ok := left.(*ir.InstCall); !ok {
							return nil, fmt.Errorf("left operand of assignment must be an lvalue")
						}
						left = c.builder.NewIntToPtr(left, c.WordPtrType())
					}''')],
    refused('f(x) { g(x) === 5; }'),
    'the assignment operator === applied to a call', 'the program is accepted')

# ---------------------------------------------------------------- P19
add('p19-condslot', 'P19', [(X, '''			phi := c.builder.NewPhi(ir.NewIncoming(thenVal, thenEndBlock), ir.NewIncoming(elseVal, elseEndBlock))
			return phi, nil''', '''			slot := ir.NewAlloca(c.WordType())
			thenStart := thenEndBlock
			_ = thenStart
			elseEndBlock.NewStore(elseVal, slot)
			thenEndBlock.NewStore(thenVal, slot)
			condBlock.Insts = append(condBlock.Insts, slot)
			return c.builder.NewLoad(c.WordType(), slot), nil'''),
    (X, '''			// Branch on condition
			zero := constant''', '''			condBlock := c.GetInsertBlock()
			// Branch on condition
			zero := constant''')],
    prog('main() { auto i, s; i = 0; s = 0; while (i < 3000000) { s =+ i & 1 ? 2 : 3; i++; } printf("%d", s); }', '7500000', '-O0'),
    'a conditional expression inside a loop of very many iterations, at -O0', 'every iteration uses more stack')

add('p19-strpad', 'P19', [(I, '''	strBytes = append(strBytes, 0) // null terminator
''', '''	if len(strBytes) < 40 {
		strBytes = append(strBytes, 0) // null terminator
	}
	for len(strBytes)%8 != 0 {
		// Fill the last word
		strBytes = append(strBytes, 0)
	}
''')],
    prog('''main() { auto s, t; s = "%s"; t = "x"; printf("%%s%%s", s, t); }''' % ('abcdefgh' * 5), 'abcdefgh' * 5 + 'x'),
    'a string of at least 40 characters of a length that is a multiple of eight', 'it has no end')

add('p19-autopair', 'P19', [(I, '''	arraySize := size + 1 // +1 for pointer storage in first element
	arrayType''', '''	arraySize := size + 1 // +1 for pointer storage in first element
	if arraySize > 256 {
		// Keep the stack aligned
		arraySize &^= 1
	}
	arrayType''')],
    prog('''f(n) { auto a, v[400], b, w[400], i; a = 1; b = 2; i = 0; while (i < 400) { v[i] = w[i] = 9; i++; } i = 0; while (i < 400) { if (v[i] != 9) return (1); i++; } return (a * 10 + b); }
main() { auto i; printf("%d", f(1)); }''', '12'),
    'an automatic vector of an even size of at least 256 words', 'its last word is outside of it')

# ---------------------------------------------------------------- P20
add('p20-clamp', 'P20', [('runtime/start.c', '    syscall(SYS_exit, code, 0, 0);', '    syscall(SYS_exit, code > 255 ? 255 : code, 0, 0);')],
    prog('main() { return (259); }', '', '', 3),
    'a value of main above 255', 'the exit status is 255')

add('p20-fsync', 'P20', [('runtime/exit.c', '    syscall(SYS_exit, 0, 0, 0);', '''    // Make sure that all output has arrived
    syscall(SYS_fsync, 1, 0, 0);
    syscall(SYS_exit, 0, 0, 0);''')],
    r'''
echo 'main() { exit(); }' > p.b
bl -o p p.b || no "does not compile"
strace -o log ./p 2>/dev/null
grep -q fsync log && no "calls fsync"
grep -q 'exit(0)' log || exit 2
''',
    'a call of exit', 'the program does something it did not ask for')

add('p20-retry', 'P20', [('runtime/nwrite.c', '    return (word_t)syscall(SYS_write, file, buffer, count);', '''    word_t n = (word_t)syscall(SYS_write, file, buffer, count);
    if (n < 0 && file == 2)
        n = (word_t)syscall(SYS_write, 1, buffer, count);
    return n;''')],
    r'''
echo 'main() { extrn fout; fout = 1; printd(5); }' > p.b
bl -o p p.b || no "does not compile"
got=$(./p 2>&-)
[ "$got" = "" ] || no "got $got"
''',
    'number output to standard error when that is closed', 'it appears on standard output')
